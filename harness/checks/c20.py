"""C20: dataset loaders expose exactly the utterances present on disk."""

from pathlib import Path

from hypothesis import strategies as st
import numpy as np
import torch

from .. import corpora
from ..core import ROOTS, Check, Law, Violation, expect_raises, require, sut


def key(s):
    return (s.utterance_id, s.text, getattr(s, "speaker_id", None), getattr(s, "chapter_id", None))


def expected_cmu(c):
    return [(u["id"], u["text"], None, None, corpora.pcm(c["seed"] + i, u["n"])) for i, u in enumerate(c["utts"]) if u["audio"]]


def expected_libri(c, speaker=None):
    out, k = [], 0
    for ch in c["chapters"]:
        for u in ch["utts"]:
            if u["audio"] and speaker in (None, ch["speaker"]):
                out.append((u["id"], u["text"], ch["speaker"], ch["chapter"], corpora.pcm(c["seed"] + k, u["n"])))
            k += 1
    return out


BAD_INDEX = ["1.0", "'0'", "None", "slice", "np.int64", "tensor", "list", "tuple"]


def bad_index(kind):
    return {"1.0": 1.0, "'0'": "0", "None": None, "slice": slice(0, 1), "np.int64": np.int64(0), "tensor": torch.tensor(0), "list": [0], "tuple": (0,)}[kind]


def audit(ds, want, rate, speaker, bad, ctx):
    """The dataset shows exactly ``want`` in whatever (deterministic) order; returns that order."""
    shown = [key(s) for s in sut(ds.available_sentences)]
    exp = [w[:4] for w in want]
    require(sorted(shown, key=str) == sorted(exp, key=str), lambda: f"listed {sorted(set(shown) - set(exp), key=str)[:3]} beyond, and not {sorted(set(exp) - set(shown), key=str)[:3]}; "
            f"{len(shown)} entries, {len(exp)} on disk")
    require(sut(len, ds) == len(exp), f"len {len(ds)}, {len(exp)} entries")
    by_id = {w[0]: w for w in want}
    n = len(exp)
    for i in list(range(n)) + list(range(-n, 0)):
        item = sut(lambda: ds[i])
        w = by_id[shown[i][0]]
        require((item.utterance_id, item.text) == shown[i][:2], f"item {i} is {item.utterance_id} {item.text!r}, listed as {shown[i]}")
        require(item.speaker == (w[2] if speaker is None else speaker), f"item {i}: speaker {item.speaker!r}, expected {w[2] if speaker is None else speaker!r}")
        require(item.sample_rate == rate, f"item {i}: rate {item.sample_rate}")
        require(item.audio.dtype == torch.float32 and np.array_equal(item.audio.numpy() * 32768, w[4].astype(np.float32)), f"item {i}: audio is not {w[0]}'s")
        a, r = sut(ds.load_audio, w[0])
        require(r == rate and np.array_equal(a.numpy() * 32768, w[4].astype(np.float32)), f"load_audio({w[0]!r})")
    for i in (n, n + 3, -n - 1):
        expect_raises(IndexError, lambda: ds[i], what=f"index {i} of {n}")
    expect_raises(TypeError, lambda: ds[bad_index(bad)], what=f"index {bad}")
    ctx.trivial(n == 0)
    return shown


@st.composite
def cmu_cases(draw):
    return dict(corpus=draw(corpora.cmu(audio=draw(st.booleans()))), order=[draw(st.integers(0, 99)), draw(st.integers(100, 199))], bad=draw(st.sampled_from(BAD_INDEX)),
                as_str=draw(st.booleans()), root=draw(st.sampled_from(ROOTS)))


def run_cmu(case, ctx):
    from torchrir.datasets import CmuArcticDataset

    c = case["corpus"]
    seen = []
    for order in case["order"]:
        root = Path(ctx.scratch(case["root"]))
        corpora.write_cmu(root, c, order)
        with corpora.no_network() as net, corpora.shuffled_directories(order):
            ds = sut(CmuArcticDataset, str(root) if case["as_str"] else root, speaker=c["speaker"])
            require(sorted(s for s in sut(ds.list_speakers)) == sorted(corpora.SPEAKERS), f"speakers {ds.list_speakers()}")
            shown = audit(ds, expected_cmu(c), c["rate"], c["speaker"], case["bad"], ctx)
            all_ = [key(s)[:2] for s in sut(ds.sentences)]
            require(all_ == [(u["id"], u["text"]) for u in c["utts"]], f"transcript read as {all_}")
            seen.append((shown, list(ds.list_speakers())))
        require(not net.attempts, f"network access without download: {net.attempts}")
    require(seen[0] == seen[1], "the order depends on the creation or directory order")
    ctx.label("all audio present" if all(u["audio"] for u in c["utts"]) else "some audio missing", "decoys" if c["decoys"] else "no decoys")


@st.composite
def libri_cases(draw):
    c = draw(corpora.libri())
    spk = sorted({ch["speaker"] for ch in c["chapters"]})
    return dict(corpus=c, order=[draw(st.integers(0, 99)), draw(st.integers(100, 199))], bad=draw(st.sampled_from(BAD_INDEX)),
                speaker=draw(st.sampled_from([None, None] + spk)), root=draw(st.sampled_from(ROOTS)))


def run_libri(case, ctx):
    from torchrir.datasets import LibriSpeechDataset

    c = case["corpus"]
    seen = []
    spk = case["speaker"]
    dirs = sorted({ch["speaker"] for ch in c["chapters"]} | ({c["empty"]} if c["empty"] else set()))
    for order in case["order"]:
        root = Path(ctx.scratch(case["root"]))
        corpora.write_libri(root, c, order)
        with corpora.no_network() as net, corpora.shuffled_directories(order):
            kw = {} if spk is None else dict(speaker=spk)
            ds = sut(LibriSpeechDataset, root, subset=c["subset"], **kw)
            shown = audit(ds, expected_libri(c, spk), c["rate"], spk, case["bad"], ctx)
            speakers = sut(ds.list_speakers)
            require(sorted(speakers) == ([spk] if spk else dirs), f"speakers {speakers}, directories {dirs}")
            seen.append((shown, list(speakers)))
        require(not net.attempts, f"network access without download: {net.attempts}")
    require(seen[0] == seen[1], lambda: f"the order depends on the creation or directory order: {[s[0] for s in seen[0][0]]} / {[s[0] for s in seen[1][0]]}, {seen[0][1]} / {seen[1][1]}")
    ctx.label(f"{len(dirs)} speakers", "one speaker" if spk else "whole subset")


def big_corpus(case):
    """A corpus of realistic extent with short texts and sounds, from a few numbers."""
    g = np.random.default_rng(case["seed"])
    n = case["n"]
    base = dict(rate=16000, seed=case["seed"], blank=False)
    utts = [dict(text=f"{corpora.WORDS[k % 9]} number {k}", audio=bool(g.random() > case["missing"]), n=int(g.integers(1, 20))) for k in range(n)]
    if case["which"] == "cmu":
        for k, u in enumerate(utts):
            u["id"] = f"arctic_{'ab'[k % 2]}{k // 2 + 1:04d}"
        return dict(base, speaker="bdl", utts=utts, decoys=[], style='( {id} "{text}" )')
    chapters = []
    for k, u in enumerate(utts):
        spk, cha, i = (100 + k // case["per"] // case["chap"], 1000 + k // case["per"], k % case["per"])
        if i == 0:
            chapters.append(dict(speaker=str(spk), chapter=str(cha), utts=[], decoy=None))
        chapters[-1]["utts"].append(dict(u, id=f"{spk}-{cha}-{i:04d}"))
    return dict(base, subset="dev-clean", chapters=chapters, stray=None, empty=None)


@st.composite
def big_cases(draw):
    return dict(which=draw(st.sampled_from(["cmu", "libri"])), n=draw(st.sampled_from([1132, 300, 700])), per=draw(st.sampled_from([130, 7, 1])), chap=draw(st.sampled_from([1, 40])),
                missing=draw(st.sampled_from([0.0, 0.1, 0.9])), seed=draw(st.integers(0, 10**6)), bad=draw(st.sampled_from(BAD_INDEX)), pick=draw(st.integers(0, 10**4)))


def run_big(case, ctx):
    from torchrir.datasets import CmuArcticDataset, LibriSpeechDataset

    c = big_corpus(case)
    root = Path(ctx.scratch())
    ctx.label(case["which"], f"{case['n']} utterances")
    with corpora.no_network():
        if case["which"] == "cmu":
            corpora.write_cmu(root, c, case["seed"])
            audit(sut(CmuArcticDataset, root, speaker="bdl"), expected_cmu(c), 16000, "bdl", case["bad"], ctx)
            return
        corpora.write_libri(root, c, case["seed"])
        speakers = sorted({ch["speaker"] for ch in c["chapters"]})
        ds = sut(LibriSpeechDataset, root, subset="dev-clean")
        audit(ds, expected_libri(c), 16000, None, case["bad"], ctx)
        require(sorted(sut(ds.list_speakers)) == speakers, f"{len(ds.list_speakers())} speakers listed, {len(speakers)} on disk")
        spk = speakers[case["pick"] % len(speakers)]
        audit(sut(LibriSpeechDataset, root, subset="dev-clean", speaker=spk), expected_libri(c, spk), 16000, spk, case["bad"], ctx)


@st.composite
def many_cases(draw):
    cm = [draw(corpora.cmu(min_utts=1)) for _ in range(draw(st.integers(1, 3)))]
    for c, s in zip(cm, draw(st.permutations(corpora.SPEAKERS))):
        c["speaker"] = s
    li = [draw(corpora.libri(min_spk=1)) for _ in range(draw(st.integers(0, 2)))]
    for c, s in zip(li, draw(st.permutations(corpora.SUBSETS))):
        c["subset"] = s
    return dict(cmu=cm, libri=li, ops=draw(st.lists(st.tuples(st.integers(0, 9), st.sampled_from(["len", "item", "item", "list", "new", "load"]), st.integers(0, 50)).map(list), min_size=3, max_size=20)))


def run_many(case, ctx):
    """Interleaved use of several dataset objects over one root: each keeps showing its own entries."""
    from torchrir.datasets import CmuArcticDataset, LibriSpeechDataset

    root = Path(ctx.scratch())
    make, wants, rates = [], [], []
    for c in case["cmu"]:
        corpora.write_cmu(root, c)
        make.append(lambda c=c: CmuArcticDataset(root, speaker=c["speaker"]))
        wants.append(expected_cmu(c))
        rates.append(c["rate"])
    for c in case["libri"]:
        corpora.write_libri(root, c)
        make.append(lambda c=c: LibriSpeechDataset(root, subset=c["subset"]))
        wants.append(expected_libri(c))
        rates.append(c["rate"])
    ds = [sut(m) for m in make]
    ctx.label(f"{len(ds)} datasets")
    ctx.trivial(len(ds) < 2)
    for which, op, arg in case["ops"]:
        i = which % len(ds)
        want = {w[0]: w for w in wants[i]}
        if op == "new":
            ds[i] = sut(make[i])
        elif op == "len":
            require(sut(len, ds[i]) == len(want), f"dataset {i}: len {len(ds[i])}, {len(want)} entries")
        elif op == "list":
            require({s.utterance_id for s in sut(ds[i].available_sentences)} == set(want), f"dataset {i} lists other entries")
        elif want and op == "item":
            item = sut(lambda: ds[i][arg % len(want)])
            w = want.get(item.utterance_id)
            require(w is not None and item.text == w[1] and item.sample_rate == rates[i], f"dataset {i}: item {item.utterance_id} {item.text!r}")
            require(np.array_equal(item.audio.numpy() * 32768, w[4].astype(np.float32)), f"dataset {i}: audio of another utterance")
            if i < len(case["cmu"]):
                require(item.speaker == case["cmu"][i]["speaker"], f"speaker {item.speaker}")
        elif want and op == "load":
            w = list(want.values())[arg % len(want)]
            a, _ = sut(ds[i].load_audio, w[0])
            require(np.array_equal(a.numpy() * 32768, w[4].astype(np.float32)), f"dataset {i}: load_audio({w[0]!r})")


@st.composite
def bad_cases(draw):
    kind = draw(st.sampled_from(["speaker", "subset", "no root", "no cmu dir", "no subset dir", "no speaker dir", "id", "missing id", "no transcript"]))
    return dict(kind=kind, name=draw(st.one_of(st.sampled_from(["", "BDL", "bdl ", "xyz", "slt2", "cmu_us_bdl_arctic", "train-clean", "Dev-Clean", "dev-clean/", "train-clean-500", "..", "bd"]), st.text(max_size=6))),
                download=draw(st.booleans()), speaker=draw(st.sampled_from(corpora.SPEAKERS)), subset=draw(st.sampled_from(corpora.SUBSETS)),
                ident=draw(st.sampled_from(["", "103", "103-1240", "arctic_a0001", "103_1240_0000"])))


def run_bad(case, ctx):
    from torchrir.datasets import CmuArcticDataset, LibriSpeechDataset

    root = Path(ctx.scratch())
    k = case["kind"]
    ctx.label(k)
    with corpora.no_network() as net:
        if k == "speaker":
            if case["name"] in corpora.SPEAKERS:
                return ctx.trivial()
            expect_raises(ValueError, CmuArcticDataset, root, speaker=case["name"], download=case["download"], what=f"speaker {case['name']!r}")
        elif k == "subset":
            if case["name"] in corpora.SUBSETS:
                return ctx.trivial()
            expect_raises(ValueError, LibriSpeechDataset, root, subset=case["name"], download=case["download"], what=f"subset {case['name']!r}")
        elif k in ("no root", "no cmu dir", "no subset dir"):
            if k != "no root":
                (root / ("ARCTIC" if k == "no cmu dir" else "LibriSpeech")).mkdir()
            r = root if k != "no root" else root / "absent"
            expect_raises(FileNotFoundError, CmuArcticDataset, r, speaker=case["speaker"], what="missing CMU ARCTIC directory")
            expect_raises(FileNotFoundError, LibriSpeechDataset, r, subset=case["subset"], what="missing LibriSpeech directory")
            require(k != "no root" or not r.exists(), "a missing root was created without download")
        elif k == "no speaker dir":
            (root / "LibriSpeech" / case["subset"] / "12").mkdir(parents=True)
            expect_raises(FileNotFoundError, LibriSpeechDataset, root, subset=case["subset"], speaker="13", what="missing speaker directory")
            require(not (root / "LibriSpeech" / case["subset"] / "13").exists(), "the missing directory was created")
        elif k in ("id", "missing id"):
            (root / "LibriSpeech" / case["subset"] / "12").mkdir(parents=True)
            ds = sut(LibriSpeechDataset, root, subset=case["subset"])
            if k == "id":
                expect_raises(ValueError, ds.load_audio, case["ident"], what=f"malformed identifier {case['ident']!r}")
            else:
                expect_raises(Exception, ds.load_audio, "12-34-0000", what="identifier without audio")
        else:
            (root / "ARCTIC" / f"cmu_us_{case['speaker']}_arctic" / "wav").mkdir(parents=True)
            ds = sut(CmuArcticDataset, root, speaker=case["speaker"])
            expect_raises(FileNotFoundError, lambda: len(ds), what="missing transcript")
            expect_raises(FileNotFoundError, ds.available_sentences, what="missing transcript")
    require(not net.attempts, f"network access: {net.attempts}")


CHECK = Check(
    "C20",
    [
        Law("cmu", cmu_cases, run_cmu, quick=800, thorough=32000, rule="CMU ARCTIC trees with missing audio and decoys, built and listed in two directory orders"),
        Law("libri", libri_cases, run_libri, quick=800, thorough=32000, rule="LibriSpeech trees, whole subset and one speaker, in two directory orders"),
        Law("many", many_cases, run_many, quick=400, thorough=16000, rule="operation sequences over several dataset objects"),
        Law("large", big_cases, run_big, quick=30, thorough=400, shards=6, rule="corpora of hundreds of utterances, chapters and speakers"),
        Law("rejects", bad_cases, run_bad, quick=600, thorough=16000, rule="unsupported options, missing directories, malformed identifiers"),
    ],
    rule="at least one utterance present; sequences over at least two datasets",
    assumptions=["transcripts are well-formed lines of the upstream formats with unique identifiers", "audio is 16-bit mono"],
)
