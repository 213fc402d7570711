"""C26: dataset building never destroys or mixes with data it must not."""

import contextlib
import json
import os
from pathlib import Path
import shutil
import tempfile

from hypothesis import strategies as st
import numpy as np
import soundfile as sf

from .. import builderlib as bl
from ..core import Check, Law, Violation, require, sut
from ..corpora import no_network

CORPUS = dict(rate=100, speakers=[dict(name=s, utts=[dict(id="arctic_a0001", n=40, kind="noise", seed=1), dict(id="arctic_a0002", n=25, kind="tone", seed=2), dict(id="arctic_b0003", n=33, kind="pulse", seed=3)])
                                  for s in bl.SPEAKERS[:4]])
NAMES = [s["name"] for s in CORPUS["speakers"]]
# where the output lies, relative to the sandbox of the case
PLACES = ["work/out", "work/out", "work/new/deep/out", "corpus/out", "corpus/ARCTIC/out", "work/out dir", "work/scene_0000", "out"]
ONE = f"corpus/ARCTIC/cmu_us_{NAMES[-1]}_arctic"
INSIDE = ["corpus", "work/~", "work/~/c", ".", "work/..", "corpus/.", "corpus/ARCTIC/..", "corpus/ARCTIC", ONE, ONE + "/wav", ONE + "/etc"]
FORMS = ["absolute", "absolute", "relative", "tilde", "dots"]
OLD = ["scene_0000/mixture.wav", "scene_0000/source_09.wav", "scene_0007/metadata.json", "scene_0001/room_layout_2d.png", "notes.txt", "deep/a/b.bin", ".hidden", "scene_0000/extra/", "empty/", "link->work/keep",
       "link2->nowhere", "scene_0000", "ATTRIBUTION.txt"]
FAULTS = ["n_scenes=0", "n_scenes=-2", "n_sources=0", "n_sources=5", "n_sources=9", "n_moving=-1", "n_moving=9", "steps=0", "duration=0", "duration=-1", "duration=tiny", "rir=0", "room shape", "center shape",
          "margin shape", "move order", "move range", "speed zero", "speed order", "small room", "big margin", "thin margin", "big array", "edge=0", "array outside", "no room for sources", "unknown speaker",
          "no corpus", "corpus empty", "speaker missing", "no transcript", "no audio", "rates differ", "output is corpus"]


def broken(kind, kw, root):
    """Turn a valid request into one that must be rejected."""
    n = kw["n_sources"]
    simple = {"n_scenes=0": ("n_scenes", 0), "n_scenes=-2": ("n_scenes", -2), "n_sources=0": ("n_sources", 0), "n_sources=5": ("n_sources", 5), "n_sources=9": ("n_sources", 9),
              "n_moving=-1": ("n_moving_sources", -1), "n_moving=9": ("n_moving_sources", n + 1), "steps=0": ("trajectory_steps", 0), "duration=0": ("duration_sec", 0.0), "duration=-1": ("duration_sec", -1.0),
              "duration=tiny": ("duration_sec", 1e-6), "rir=0": ("rir_samples", 0), "room shape": ("room_size", [8.0, 6.0]), "center shape": ("mic_center", [4.0, 3.0]), "margin shape": ("source_margin", [0.5] * 4),
              "edge=0": ("octa_edge_m", 0.0), "small room": ("room_size", [2.0, 2.0, 2.0]), "big margin": ("source_margin", [3.9, 2.9, 0.1]), "thin margin": ("source_margin", [0.3, 0.3, 1.6]),
              "big array": ("octa_edge_m", 9.0)}
    if kind in simple:
        k, v = simple[kind]
        kw[k] = v
    elif kind == "move order":
        kw["move_start_ratio"], kw["move_end_ratio"] = 0.7, 0.2
    elif kind == "move range":
        kw["move_end_ratio"] = 1.5
    elif kind == "speed zero":
        kw["moving_speed_min"] = 0.0
    elif kind == "speed order":
        kw["moving_speed_min"], kw["moving_speed_max"] = 2.0, 1.0
    elif kind == "array outside":
        kw.update(mic_center=[4.0, 3.0, 0.05], randomize_mic_center=False, octa_edge_m=0.5)
    elif kind == "no room for sources":
        kw.update(mic_center=[0.5, 0.5, 1.5], randomize_mic_center=False, octa_edge_m=0.2)
    elif kind == "unknown speaker":
        kw["speakers"] = NAMES + ["nobody"]
    elif kind == "no corpus":
        kw["cmu_root"] = root / "absent"
    elif kind == "corpus empty":
        kw["cmu_root"] = root / "bare"
    elif kind == "speaker missing":
        kw["speakers"] = NAMES + [bl.SPEAKERS[5]]
    elif kind in ("no transcript", "no audio", "rates differ"):
        kw["cmu_root"] = root / kind


def prepare(root, kinds):
    bl.write(root / "corpus", CORPUS)
    if "output is corpus" in kinds:
        os.symlink("corpus", root / "via root")
        (root / "via ARCTIC").mkdir()
        os.symlink(root / "corpus" / "ARCTIC", root / "via ARCTIC" / "ARCTIC")
        (root / "via speaker" / "ARCTIC").mkdir(parents=True)
        for d in (root / "corpus" / "ARCTIC").iterdir():
            os.symlink(d, root / "via speaker" / "ARCTIC" / d.name)
    if "output is corpus" in kinds:
        bl.write(root / "work" / "~" / "c", CORPUS)
    (root / "work" / "keep").mkdir(parents=True)
    (root / "work" / "keep" / "precious.txt").write_text("precious")
    (root / "work" / "scene_0000.bak").write_text("x")
    (root / "tmp").mkdir()
    (root / "bare").mkdir()
    for kind in {"no transcript", "no audio", "rates differ"} & set(kinds):
        spec = dict(CORPUS, speakers=[dict(s) for s in CORPUS["speakers"]])
        if kind == "rates differ":
            spec["speakers"][-1]["rate"] = 200
        bl.write(root / kind, spec)
        d = root / kind / "ARCTIC" / f"cmu_us_{NAMES[-1]}_arctic"
        if kind == "no transcript":
            os.remove(d / "etc" / "txt.done.data")
        elif kind == "no audio":
            for p in (d / "wav").iterdir():
                os.remove(p)


def populate(out, entries, root):
    """Whatever was in the output directory before."""
    out.mkdir(parents=True, exist_ok=True)
    for e in entries:
        if "->" in e:
            name, to = e.split("->")
            if not (out / name).is_symlink():
                os.symlink(root / to, out / name)
        elif e.endswith("/"):
            if not (out / e).parent.is_file():
                (out / e).mkdir(parents=True, exist_ok=True)
        else:
            p = out / e
            if p.is_dir() or any(q.is_file() for q in p.parents if q != out.parent):
                continue
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_bytes(b"old " + e.encode())


def outside(snap, place):
    """The snapshot without the output directory and without the directories leading to it."""
    parts = Path(os.path.normpath(place)).parts
    lead = {str(Path(*parts[:k])) for k in range(1, len(parts))}
    me = str(Path(*parts))
    return {k: v for k, v in snap.items() if not (k == me or k.startswith(me + "/")) and not (k in lead and v[0] == "dir")}


def inside(snap, place):
    me = os.path.normpath(place)
    return {k: v for k, v in snap.items() if k == me or k.startswith(me + "/")}


@st.composite
def builds(draw):
    return dict(n_scenes=draw(st.integers(1, 3)), n_sources=draw(st.integers(1, 3)), seed=draw(st.integers(0, 3)), overwrite=draw(st.booleans()),
                fault=draw(st.sampled_from([None, None, None, "f", "f"])) and draw(st.sampled_from(FAULTS)), place=draw(st.integers(0, 1)), form=draw(st.sampled_from(FORMS)),
                also=draw(st.sampled_from(["", "", "default", "", "", "default", "", "images", "", "default"])), moving=draw(st.booleans()))


@st.composite
def cases(draw):
    places = draw(st.lists(st.sampled_from(PLACES), min_size=2, max_size=2, unique=True))
    n = draw(st.integers(1, 5))
    return dict(places=places, old=[draw(st.one_of(st.none(), st.lists(st.sampled_from(OLD), max_size=6, unique=True))) for _ in range(2)],
                builds=[draw(builds()) for _ in range(n)], around=draw(st.sampled_from(INSIDE)), through=draw(st.sampled_from(["", "", "root", "ARCTIC", "speaker"])))


def valid(b):
    return dict(speakers=list(NAMES), n_scenes=b["n_scenes"], n_sources=b["n_sources"], n_moving_sources=min(b["n_sources"], int(b["moving"])), duration_sec=0.6, room_size=[8.0, 6.0, 3.0],
                mic_center=[4.0, 3.0, 1.5], octa_edge_m=0.2, source_margin=[0.5, 0.5, 0.3], trajectory_steps=3, rir_samples=12, rt60=1.0, max_order=0, seed=b["seed"],
                save_layout_mp4=False, save_layout_images=b["also"] == "images", logger=bl.quiet_logger())


class World:
    """The process as the build sees it: working directory, home and temporary directory inside the case."""

    def __init__(self, root):
        self.root = root

    def __enter__(self):
        self.saved = os.getcwd(), os.environ.get("HOME"), tempfile.tempdir, os.environ.get("TMPDIR")
        os.chdir(self.root / "work")
        os.environ["HOME"] = str(self.root)
        os.environ["TMPDIR"] = tempfile.tempdir = str(self.root / "tmp")
        self.rmtree = shutil.rmtree

        def contained(path, *a, **k):
            # a stray removal must not reach the real file system
            real = os.path.realpath(os.fspath(path))
            require(real.startswith(str(self.root) + "/"), f"the build tried to remove {path}")
            return self.rmtree(path, *a, **k)

        shutil.rmtree = contained
        return self

    def __exit__(self, *a):
        shutil.rmtree = self.rmtree
        os.chdir(self.saved[0])
        tempfile.tempdir = self.saved[2]
        for k, v in (("HOME", self.saved[1]), ("TMPDIR", self.saved[3])):
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


def spell(place, form, root):
    if form == "relative":
        return Path(os.path.relpath(root / place, root / "work"))
    if form == "dots":
        return root / "work" / ".." / place
    return root / place


def run(case, ctx):
    root = Path(os.path.realpath(ctx.scratch()))
    prepare(root, [b["fault"] for b in case["builds"]])
    for place, old in zip(case["places"], case["old"]):
        # one place may lie within the other; then what is inside belongs to both
        if old is not None:
            populate(root / place, old, root)
    kept = overwritten = 0
    with World(root), no_network() as net:
        for b in case["builds"]:
            place = case["places"][b["place"]]
            if b["form"] == "tilde":
                # a directory that is really called "~": nothing but the command expands it
                place = os.path.join("work", "~", "corpus" if b["seed"] == 3 else place)
            kw = valid(b)
            kw.update(cmu_root=root / "corpus", overwrite=b["overwrite"], dataset_root=spell(place, b["form"], root))
            if b["form"] == "tilde":
                kw["dataset_root"] = Path(place).relative_to("work")
            if b["fault"] == "output is corpus":
                place = case["around"]
                kw["dataset_root"] = root / place
                kw["overwrite"] = True
                if "~" in place:
                    kw["cmu_root"], kw["dataset_root"] = Path("~", "c"), Path(place).relative_to("work")
                elif case["through"]:
                    # the corpus is reached through a symbolic link
                    kw["cmu_root"] = root / f"via {case['through']}"
            elif b["fault"]:
                broken(b["fault"], kw, root)
            before = bl.snapshot(root)
            existed = (root / place).exists()
            entries = len(inside(before, place))
            try:
                sut(bl.build, **kw)
                error = None
            except Violation as e:
                error = e.__cause__ or e
            after = bl.snapshot(root)
            what = f"{b['fault'] or 'valid'} build, overwrite={kw['overwrite']}, output {'exists' if existed else 'new'}"
            if b["fault"] or (existed and not b["overwrite"]):
                require(error is not None, f"{what}: accepted")
                if not b["fault"]:
                    require(isinstance(error, FileExistsError), f"{what}: raised {error!r}")
                    ctx.label("existing output kept")
                else:
                    ctx.label(b["fault"])
                diff = bl.differences(before, after)
                require(not diff, lambda: f"{what}: rejected ({error!r:.80}), yet changed {diff[:6]}")
                kept += existed and entries > 1
                continue
            require(error is None, lambda: f"{what}: {error!r:.200}")
            diff = bl.differences(outside(before, place), outside(after, place))
            require(not diff, f"{what}: changed outside the output directory: {diff[:6]}")
            lead = [k for k in after if k not in before and after[k][0] == "dir" and not (k + "/").startswith(os.path.normpath(place) + "/")]
            require(all((os.path.normpath(place) + "/").startswith(k + "/") for k in lead), f"{what}: created {lead}")
            # what must be there now: the same request built in a fresh place
            fresh = Path(ctx.scratch()) / "ds"
            sut(bl.build, **dict(kw, dataset_root=fresh, cmu_root=root / "corpus", overwrite=False))
            me = os.path.normpath(place)
            got = {k[len(me) + 1:]: v for k, v in inside(after, place).items() if k != me}
            diff = bl.differences(bl.snapshot(fresh), got)
            require(not diff, f"{what}: differs from the same build in a fresh place: {diff[:6]}")
            ctx.label("overwritten" if existed else "new output")
            overwritten += existed and entries > 1
    require(not net.attempts, f"network access: {net.attempts}")
    ctx.trivial(not kept and not overwritten)


@contextlib.contextmanager
def limited_loads(limit=5000):
    """Far more loads than any of the builds here needs."""
    from torchrir.datasets import CmuArcticDataset

    load, count = CmuArcticDataset.load_audio, [0]

    def counted(self, *a, **k):
        count[0] += 1
        require(count[0] < limit, "the build loads utterances without end")
        return load(self, *a, **k)

    CmuArcticDataset.load_audio = counted
    try:
        yield
    finally:
        CmuArcticDataset.load_audio = load


@st.composite
def fault_cases(draw):
    return dict(old=draw(st.lists(st.sampled_from(OLD), min_size=1, max_size=8, unique=True)), b=draw(builds()), speaker=draw(st.integers(0, 3)), utt=draw(st.integers(1, 2)),
                how=draw(st.sampled_from(["garbage", "empty file", "missing", "cut", "other rate", "no samples", "no samples"])))


def run_fault(case, ctx):
    """A build that fails half way leaves the old data or none of it, never a mixture."""
    root = Path(os.path.realpath(ctx.scratch()))
    prepare(root, [])
    out = root / "work" / "out"
    populate(out, case["old"], root)
    d = root / "corpus" / "ARCTIC" / f"cmu_us_{NAMES[case['speaker']]}_arctic" / "wav"
    wav = sorted(d.iterdir())[case["utt"]]
    data = wav.read_bytes()
    if case["how"] == "missing":
        os.remove(wav)
        os.symlink(root / "gone.wav", wav)
    elif case["how"] == "other rate":
        sf.write(str(wav), sf.read(str(wav))[0], 200, subtype="PCM_16")
    elif case["how"] == "no samples":
        for p in d.iterdir():
            sf.write(str(p), np.zeros(0), 100, subtype="PCM_16")
    else:
        wav.write_bytes({"garbage": b"not audio at all" * 9, "empty file": b"", "cut": data[:20]}[case["how"]])
    before = bl.snapshot(root)
    old = {k for k in before if k.startswith("work/out/") and before[k][0] != "dir"}
    with World(root), no_network():
        try:
            kw = dict(valid(case["b"]), cmu_root=root / "corpus", dataset_root=out, overwrite=True)
            if case["how"] == "no samples":
                # all recordings of one speaker are silent files: the build must end
                with limited_loads():
                    bl.build(**kw)
            else:
                bl.build(**kw)
            failed = False
        except Violation:
            raise
        except Exception:
            failed = True
    after = bl.snapshot(root)
    diff = bl.differences(outside(before, "work/out"), outside(after, "work/out"))
    require(not diff, f"changed outside the output directory: {diff[:6]}")
    if not failed and case["how"] in ("other rate", "no samples"):
        who, uid = NAMES[case["speaker"]], wav.stem
        for p in out.glob("scene_*/source_info.json"):
            used = [i for i in json.loads(p.read_text()) if i["speaker"] == who]
            require(case["how"] == "other rate" or not used, f"{p.parent.name} uses {who}, whose recordings hold no samples")
            require(all(uid not in i["utterance_ids"] for i in used), f"{p.parent.name} uses {uid} of {who}, recorded at another rate")
    if bl.differences(inside(before, "work/out"), inside(after, "work/out")):
        left = [k for k in old if after.get(k) == before[k]]
        require(not left, f"old files {left[:5]} are mixed with the new dataset (build {'failed' if failed else 'succeeded'})")
        ctx.label("failed after replacing" if failed else "built")
    else:
        ctx.label("failed, nothing changed")
    ctx.trivial(not failed)


@st.composite
def cli_cases(draw):
    return dict(exists=draw(st.booleans()), overwrite=draw(st.booleans()), bad=draw(st.sampled_from([None, None, "room", "sources", "corpus", "speaker"])), old=draw(st.lists(st.sampled_from(OLD), max_size=5, unique=True)))


def run_cli(case, ctx):
    """The command line keeps the same promises."""
    import logging
    import sys

    import torchrir.datasets.dynamic_cmu_arctic as mod

    root = Path(os.path.realpath(ctx.scratch()))
    prepare(root, [])
    out = root / "work" / "out"
    if case["exists"]:
        populate(out, case["old"], root)
    argv = ["prog", "--cmu-root", str(root / ("absent" if case["bad"] == "corpus" else "corpus")), "--dataset-root", "out", "--n-scenes", "1", "--n-sources", "9" if case["bad"] == "sources" else "2",
            "--duration-sec", "0.6", "--trajectory-steps", "3", "--rir-samples", "12", "--max-order", "0", "--rt60", "1.0", "--octa-edge-m", "0.2", "--no-save-layout-mp4", "--no-save-layout-images",
            "--log-level", "ERROR", "--room-size", "2,2,2" if case["bad"] == "room" else "8,6,3", "--speakers"] + NAMES + (["nobody"] if case["bad"] == "speaker" else [])
    if case["overwrite"]:
        argv.append("--overwrite-dataset")
    before = bl.snapshot(root)
    log = logging.getLogger()
    saved = log.handlers[:], log.level, sys.argv
    log.handlers, sys.argv = [logging.NullHandler()], argv
    try:
        with World(root), no_network():
            mod.main()
        error = None
    except (Exception, SystemExit) as e:
        error = e
    finally:
        log.handlers, sys.argv = saved[0], saved[2]
        log.setLevel(saved[1])
    after = bl.snapshot(root)
    must_fail = case["bad"] or (case["exists"] and not case["overwrite"])
    ctx.label(f"{case['bad'] or 'valid'}, {'exists' if case['exists'] else 'new'}, {'overwrite' if case['overwrite'] else 'no overwrite'}")
    ctx.trivial(not case["exists"])
    if must_fail:
        require(error is not None, "accepted")
        diff = bl.differences(before, after)
        require(not diff, f"failed ({error!r:.80}), yet changed {diff[:6]}")
    else:
        require(error is None, f"failed: {error!r:.200}")
        diff = bl.differences(outside(before, "work/out"), outside(after, "work/out"))
        require(not diff, f"changed outside the output directory: {diff[:6]}")
        files = {k[len("work/out/"):] for k, v in inside(after, "work/out").items() if v[0] != "dir"}
        want = {f"scene_0000/{f}" for f in ("mixture.wav", "source_00.wav", "source_01.wav", "metadata.json", "source_info.json")}
        require(files == want, f"files {sorted(files ^ want)} other than the dataset's")


CHECK = Check(
    "C26",
    [
        Law("histories", cases, run, quick=700, thorough=28000, rule="sequences of valid and invalid builds over two output directories with prior contents; every path in the sandbox compared before and after"),
        Law("faults", fault_cases, run_fault, quick=320, thorough=12000, rule="overwriting builds with an unreadable utterance"),
        Law("cli", cli_cases, run_cli, quick=320, thorough=6400, rule="the command line with existing output, overwriting and bad settings"),
    ],
    rule="a directory with content was kept or replaced; the faulty build failed",
    assumptions=["the output path is a real directory, not a link"],
)
