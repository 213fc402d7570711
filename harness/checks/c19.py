"""C19: attribution and dataset licence information is complete and exact."""

import dataclasses
import logging
import os
from pathlib import Path
import types
from collections import ChainMap, OrderedDict

from hypothesis import strategies as st

from ..core import ROOTS, Check, Law, expect_raises, require, sut

REQUIRED = ["dataset", "source", "license_name", "license_url", "required_attribution"]
LINE = st.text(st.characters(codec="utf-8", exclude_categories=("Cc", "Cs", "Zl", "Zp")), min_size=0, max_size=30)
TEXT = st.one_of(st.sampled_from(["CMU ARCTIC", "http://x.org/a?b=1&c", "CC BY 4.0", "", "None", "{dataset}", "- note", "Subset: x", "word " * 200 + "end", "https://example.org/" + "x" * 500, "日本語 コーパス", "%s", " lead"]), LINE)


@dataclasses.dataclass
class Plain:
    dataset: str
    source: str
    license_name: str
    license_url: str
    required_attribution: str
    subset: object = None


@dataclasses.dataclass(frozen=True)
class NoSubset:
    required_attribution: str
    license_url: str
    license_name: str
    source: str
    dataset: str


class Convertible:
    def __init__(self, info):
        self._info = info

    def to_dict(self):
        return self._info


FORMS = ["dict", "ordered", "proxy", "chain", "plain", "nosubset", "convert", "convert pairs", "library"]


def build(form, info):
    from torchrir.datasets import DatasetAttribution

    if form == "dict":
        return dict(info)
    if form == "ordered":
        return OrderedDict(reversed(list(info.items())))
    if form == "proxy":
        return types.MappingProxyType(dict(info))
    if form == "chain":
        keys = list(info)
        return ChainMap({k: info[k] for k in keys[:2]}, {k: info[k] for k in keys[2:]})
    if form == "plain":
        return Plain(**{k: info.get(k) for k in REQUIRED + ["subset"]})
    if form == "nosubset":
        return NoSubset(**{k: info[k] for k in REQUIRED})
    if form == "convert":
        return Convertible(dict(info))
    if form == "convert pairs":
        return Convertible(list(info.items()))
    return DatasetAttribution(dataset_key="k", subset=info.get("subset"), **{k: info[k] for k in REQUIRED})


def many_notes():
    return st.integers(6, 300).map(lambda k: [f"change {i} of {k}" for i in range(k)])


@st.composite
def cases(draw):
    info = {k: draw(TEXT) for k in REQUIRED}
    sub = draw(st.sampled_from(["absent", "none", "text", "text"]))
    if sub != "absent":
        info["subset"] = None if sub == "none" else draw(TEXT)
    form = draw(st.sampled_from(FORMS))
    if form == "nosubset":
        info.pop("subset", None)
    if form not in ("plain", "nosubset", "library") and draw(st.booleans()):
        info["extra"] = "ignored"
    missing = draw(st.one_of(st.sampled_from(REQUIRED).map(lambda k: [k]), st.lists(st.sampled_from(REQUIRED), min_size=1, max_size=3, unique=True))) if draw(st.booleans()) else []
    return dict(root=draw(st.sampled_from(ROOTS)), info=info, form=form, missing=missing, notes=draw(many_notes() if draw(st.integers(0, 9)) == 5 else st.lists(TEXT, max_size=5)), name=draw(st.sampled_from([None, "LICENSE.txt", "a b.md"])),
                sub=draw(st.sampled_from(["", "new/deep"])), exists=draw(st.booleans()), log=draw(st.booleans()))


def capture(name):
    log = logging.getLogger(name)
    log.handlers, log.propagate = [], False
    log.setLevel(logging.DEBUG)
    records = []
    h = logging.Handler()
    h.emit = records.append
    log.addHandler(h)
    return log, records


def run(case, ctx):
    import torchrir.io as tio

    out = Path(ctx.scratch(case["root"])) / case["sub"]
    name = case["name"] or "ATTRIBUTION.txt"
    path = out / name
    if case["exists"]:
        out.mkdir(parents=True, exist_ok=True)
        path.write_text("previous\n" * 300)
    info = dict(case["info"])
    missing = case["missing"] if case["form"] in ("dict", "ordered", "proxy", "chain", "convert", "convert pairs") else []
    for k in missing:
        info.pop(k)
    obj = build(case["form"], info)
    notes = list(case["notes"])
    log, records = capture("verif.c19")
    kw = dict(out_dir=out, dataset_attribution=obj, modifications=notes)
    if case["name"]:
        kw["attribution_name"] = case["name"]
    if case["log"]:
        kw["logger"] = log
    ctx.label(case["form"], "incomplete" if missing else "complete")
    if missing:
        exc = expect_raises(ValueError, tio_fn("save_attribution_file"), what=f"attribution without {missing}", **kw)
        require(any(k in str(exc) for k in missing), f"error does not name what is missing: {exc}")
        require(path.exists() == case["exists"] and (not case["exists"] or path.read_text() == "previous\n" * 300), "rejected attribution left or changed a file")
        require(not records, "rejected attribution logged as saved")
        return
    got = sut(tio_fn("save_attribution_file"), **kw)
    require(Path(got) == path, f"returned {got}, expected {path}")
    require(os.listdir(out) == [name], f"files {os.listdir(out)}")
    require(notes == case["notes"] and (not isinstance(obj, dict) or obj == info), "arguments were modified")
    require(len(records) == (1 if case["log"] else 0) and all(str(path) in r.getMessage() for r in records), "saved file not logged exactly once")
    raw = path.read_bytes()
    lines = raw.decode("utf-8").split("\n")
    info = case["info"]
    want = [f"Dataset: {info['dataset']}", f"Source: {info['source']}", f"License: {info['license_name']}", f"License URL: {info['license_url']}",
            f"Required attribution: {info['required_attribution']}"]
    if info.get("subset") is not None:
        want.append(f"Subset: {info['subset']}")
    i = 0
    for w in want:
        require(w in lines[i:], f"line {w!r} missing (or out of order) in {lines}")
        i = lines.index(w, i) + 1
    if info.get("subset") is None:
        require(not any(x.startswith("Subset:") for x in lines[i:] if x[2:] not in notes), "subset line although there is no subset")
    for n in notes:
        require(f"- {n}" in lines[i:], f"note {n!r} missing (or out of order) in {lines}")
        i = lines.index(f"- {n}", i) + 1
    n_notes = sum(x.startswith("- ") for x in lines)
    extra = sum(str(v).startswith("- ") for v in want)
    require(n_notes == len(notes) + extra, f"{n_notes} note lines for {len(notes)} notes")


def tio_fn(name):
    from torchrir.io import outputs

    return getattr(outputs, name)


BAD = [None, 3, "CMU ARCTIC", ["dataset"], ("a", "b"), 2.5, True]


@st.composite
def bad_cases(draw):
    return dict(bad=draw(st.integers(0, len(BAD) + 1)), exists=draw(st.booleans()), notes=draw(st.lists(TEXT, max_size=2)))


def run_bad(case, ctx):
    out = Path(ctx.scratch())
    path = out / "ATTRIBUTION.txt"
    if case["exists"]:
        path.write_text("previous")
    i = case["bad"]
    obj = BAD[i] if i < len(BAD) else (object() if i == len(BAD) else types.SimpleNamespace(to_dict="not callable", dataset="x"))
    ctx.label(type(obj).__name__)
    expect_raises(TypeError, tio_fn("save_attribution_file"), out_dir=out, dataset_attribution=obj, modifications=case["notes"], what=f"attribution of type {type(obj).__name__}")
    require(os.listdir(out) == (["ATTRIBUTION.txt"] if case["exists"] else []), "rejected attribution left a file")
    require(not case["exists"] or path.read_text() == "previous", "rejected attribution changed a file")


KEYS = ["cmu_arctic", "CMU_ARCTIC", "Cmu_Arctic", "librispeech", "LibriSpeech", "LIBRISPEECH"]
UNKNOWN = ["", "cmu", "cmuarctic", "cmu_arctic ", " librispeech", "cmu-arctic", "libri_speech", "timit", "vctk", "librispeech2", "arctic"]


@st.composite
def registry_cases(draw):
    return dict(key=draw(st.one_of(st.sampled_from(KEYS), st.sampled_from(UNKNOWN), LINE)), subset=draw(st.one_of(st.none(), st.sampled_from(["train-clean-100", "dev-other"]), LINE)),
                dynamic=draw(st.booleans()))


def run_registry(case, ctx):
    from torchrir.datasets import attribution_for, default_modification_notes

    key = case["key"].lower()
    ctx.label("known" if key in ("cmu_arctic", "librispeech") else "unknown")
    if key not in ("cmu_arctic", "librispeech"):
        expect_raises(ValueError, attribution_for, case["key"], case["subset"], what=f"unknown dataset {case['key']!r}")
        return
    info = sut(attribution_for, case["key"], case["subset"])
    d = sut(info.to_dict)
    require(d == dataclasses.asdict(info) and info.dataset_key == key, f"{d}")
    require(all(isinstance(d[k], str) and d[k].strip() for k in REQUIRED), f"incomplete attribution {d}")
    require(info.attribution_required is True, "attribution not marked as required")
    blob = " ".join(str(d[k]) for k in REQUIRED)
    facts = ["CMU ARCTIC", "festvox.org/cmu_arctic", "Carnegie Mellon"] if key == "cmu_arctic" else ["LibriSpeech", "openslr.org/12", "Panayotov", "Chen", "Povey", "Khudanpur",
                                                                                                "CC BY 4.0", "creativecommons.org/licenses/by/4.0"]
    require(all(f in blob for f in facts), f"attribution lacks one of {facts}: {blob}")
    require(info.subset == (case["subset"] if key == "librispeech" else None), f"subset {info.subset!r}, requested {case['subset']!r}")
    notes = sut(default_modification_notes, dynamic=case["dynamic"])
    require(len(notes) >= 3 and all(isinstance(n, str) and n for n in notes), f"notes {notes}")
    text = " ".join(notes).lower()
    require("concatenat" in text and "mixture" in text, f"notes do not state the modifications: {notes}")
    require(("dynamic" in text) == case["dynamic"] and ("static" in text) == (not case["dynamic"]), f"notes for dynamic={case['dynamic']}: {notes}")
    notes.append("x")
    require("x" not in sut(default_modification_notes, dynamic=case["dynamic"]), "the default notes are shared between calls")
    # the whole path: registry -> file
    out = Path(ctx.scratch())
    p = sut(tio_fn("save_attribution_file"), out_dir=out, dataset_attribution=info, modifications=notes)
    lines = p.read_text(encoding="utf-8").split("\n")
    require(f"Required attribution: {info.required_attribution}" in lines and [x[2:] for x in lines if x.startswith("- ")] == notes, f"{lines}")


@st.composite
def dataset_cases(draw):
    return dict(which=draw(st.sampled_from(["cmu", "libri"])), speaker=draw(st.sampled_from(["bdl", "slt", "aew", "rxr"])),
                subset=draw(st.sampled_from(["dev-clean", "dev-other", "test-clean", "test-other", "train-clean-100", "train-clean-360", "train-other-500"])))


def run_dataset(case, ctx):
    from torchrir.datasets import CmuArcticDataset, LibriSpeechDataset, attribution_for

    root = Path(ctx.scratch())
    ctx.label(case["which"])
    if case["which"] == "cmu":
        (root / "ARCTIC" / f"cmu_us_{case['speaker']}_arctic").mkdir(parents=True)
        info, want = sut(CmuArcticDataset, root, speaker=case["speaker"]).attribution_info(), attribution_for("cmu_arctic")
    else:
        (root / "LibriSpeech" / case["subset"]).mkdir(parents=True)
        info, want = sut(LibriSpeechDataset, root, subset=case["subset"]).attribution_info(), attribution_for("librispeech", subset=case["subset"])
        require(info.subset == case["subset"], f"subset {info.subset}, dataset is {case['subset']}")
    require(info == want, f"{info} differs from the registry's {want}")


CHECK = Check(
    "C19",
    [
        Law("file", cases, run, quick=2000, thorough=64000, rule="nine forms of attribution with arbitrary one-line texts, possibly incomplete"),
        Law("unsupported", bad_cases, run_bad, quick=240, thorough=2400, rule="unsupported attribution types"),
        Law("registry", registry_cases, run_registry, quick=800, thorough=24000, rule="known and unknown dataset keys, default notes"),
        Law("dataset", dataset_cases, run_dataset, quick=160, thorough=1600, rule="attribution reported by dataset objects"),
    ],
    rule="distinct cases",
    assumptions=["field texts and notes are single lines of printable Unicode", "a rejected attribution may leave the (empty) output directory"],
)
