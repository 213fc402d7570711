"""C28: saving plots writes exactly the promised files and never breaks the caller."""

import contextlib
import copy
import logging
import os
from pathlib import Path

from hypothesis import strategies as st
import numpy as np
import torch

from .. import vizlib as vl
from ..core import ROOTS, Check, Law, Violation, require, sut

FFMPEG = """#!/bin/sh
# stands in for the encoder: copies its input, or fails as told
for last; do :; done
case "$*" in
  *rawvideo*)
    cat > "{dir}/stdin.raw"
    if [ "{encode}" = fail ]; then echo "no encoder" >&2; exit 1; fi
    printf 'VIDEO' > "$last" || exit 1
    if [ "{mux}" = gone ]; then printf '\\001\\002' > "$0.new"; chmod 755 "$0.new"; mv "$0.new" "$0"; fi
    exit 0;;
  *-map*)
    echo "$*" >> "{dir}/mux.log"
    if [ "{words}" = bytes ]; then printf 'caf\\351 \\377\\n' >&2; fi
    if [ "{mux}" = fail ]; then printf 'partial' > "$last"; echo "no muxer" >&2; exit 1; fi
    n=$(wc -l < "{dir}/mux.log")
    prev=""; ins=""
    for a; do if [ "$prev" = "-i" ]; then ins="$ins|$a"; fi; prev="$a"; done
    audio="${{ins##*|}}"; rest="${{ins%|*}}"; video="${{rest##*|}}"
    cp "$audio" "{dir}/audio$n.wav"
    {{ cat "$video"; printf '+AUDIO'; }} > "$last" || exit 1; exit 0;;
esac
exit 0
"""


class Records(logging.Handler):
    def __init__(self):
        super().__init__()
        self.records = []

    def emit(self, record):
        self.records.append(record)

    def saved(self):
        return [r.getMessage() for r in self.records if r.levelno == logging.INFO]

    def warnings(self):
        return [r.getMessage() for r in self.records if r.levelno >= logging.WARNING]


def capture(name="verif.c28"):
    log = logging.getLogger(name)
    h = Records()
    log.handlers, log.propagate = [h], False
    log.setLevel(logging.DEBUG)
    return log, h


@contextlib.contextmanager
def figures(user):
    """A caller with ``user`` figures of their own; they, and nothing else, stay open."""
    vl.setup()
    import matplotlib.pyplot as plt

    plt.close("all")
    mine = [plt.figure() for _ in range(user)]
    for f in mine:
        f.add_subplot(111).plot([0, 1], [0, 1])
    nums = plt.get_fignums()
    try:
        yield lambda what: require(plt.get_fignums() == nums and all(len(f.axes) == 1 and len(f.axes[0].lines) == 1 for f in mine),
                                   lambda: f"{what}: figures {plt.get_fignums()} open afterwards, the caller had {nums}")
    finally:
        plt.close("all")


@contextlib.contextmanager
def cheap_rendering(dpi=25):
    """Real images, at a low resolution."""
    from matplotlib.figure import Figure

    real = Figure.savefig

    def savefig(self, fname, *a, **k):
        if isinstance(fname, (str, Path)):
            k["dpi"] = dpi
        return real(self, fname, *a, **k)

    Figure.savefig = savefig
    try:
        yield
    finally:
        Figure.savefig = real


def frozen(kw):
    return {k: (v.clone() if torch.is_tensor(v) else copy.deepcopy(v)) for k, v in kw.items() if k in ("room", "sources", "mics", "src_traj", "mic_traj", "annotation_lines")}


def unchanged(kw, before, what):
    for k, v in before.items():
        a, b = kw[k], v
        if hasattr(a, "positions"):
            a, b = a.positions, b.positions
        same = torch.equal(a, b) and a.dtype == b.dtype if torch.is_tensor(a) else a == b
        require(same, f"{what}: the argument {k} was changed")


def valid_image(p):
    from PIL import Image

    try:
        with Image.open(p) as im:
            im.load()
            return im.format, im.size
    except Exception as e:
        raise Violation(f"{p.name} is no valid image: {e}")


def tree(root):
    return {str(p.relative_to(root)): (None if p.is_dir() else p.read_bytes()) for p in root.rglob("*")}


def prior(out, kind, names):
    if kind == "absent":
        return
    out.mkdir(parents=True)
    (out / "mine.txt").write_text("mine")
    if kind == "old":
        for n in names:
            (out / n).write_bytes(b"old")


@st.composite
def image_cases(draw):
    return dict(root=draw(st.sampled_from(ROOTS)), scene=draw(vl.scene(max_steps=4, hi=3)), how=draw(st.sampled_from(["render", "plots", "layout"])), traj=draw(st.sampled_from(["both", "source", "mic", "none"])), two=draw(st.booleans()),
                three=draw(st.booleans()), both=draw(st.booleans()), annotate=draw(st.booleans()), lines=draw(st.sampled_from([None, [], ["a: 1", "b"]])), prefix=draw(st.sampled_from(["scene", "x y", "a.b", "é"])),
                prior=draw(st.sampled_from(["absent", "absent", "empty", "old"])), show=draw(st.booleans()), user=draw(st.integers(0, 2)), step=draw(st.sampled_from([1, 2])), sub=draw(st.sampled_from(["out", "a/b/c"])))


def image_files(case):
    sc = case["scene"]
    dims = [d for d, on in ((2, case["two"] or case["both"]), (3, (case["three"] or case["both"]) and sc["dim"] == 3)) if on]
    if case["how"] == "layout":
        return [f"room_layout_{d}d.png" for d in dims], []
    static = [f"{case['prefix']}_static_{d}d.png" for d in dims]
    return static, [f"{case['prefix']}_dynamic_{d}d.png" for d in dims] if case["traj"] != "none" else []


def scene_kw(case):
    kw, ts, tm = vl.inputs(case["scene"], allow_room_model=False)
    if case["traj"] in ("both", "source"):
        kw["src_traj"] = ts
    if case["traj"] in ("both", "mic"):
        kw["mic_traj"] = tm
    kw["annotate_sources"], kw["annotation_lines"] = case["annotate"], case["lines"]
    return kw


def call_images(case, kw, out, log):
    import torchrir.viz as viz

    on = dict(zip(("two", "three"), (case["two"] or case["both"], case["three"] or case["both"])))
    if case["how"] == "render":
        return viz.render_scene_plots(out_dir=out, prefix=case["prefix"], step=case["step"], show=case["show"], plot_2d=on["two"], plot_3d=on["three"], **kw)
    if case["how"] == "plots":
        return viz.save_scene_plots(out_dir=out, prefix=case["prefix"], show=case["show"], logger=log, plot_2d=on["two"], plot_3d=on["three"], **kw)
    return viz.save_scene_layout_images(out_dir=out, logger=log, show=case["show"], save_2d=on["two"], save_3d=on["three"], **kw)


def check_log(h, paths, what):
    require(not h.warnings(), lambda: f"{what}: warnings {h.warnings()}")
    got = h.saved()
    require(len(got) == len(paths) and all(any(str(p) in m for m in got) for p in paths), lambda: f"{what}: logged {got}, saved {[str(p) for p in paths]}")


def run_images(case, ctx, render=cheap_rendering):
    import matplotlib.pyplot as plt

    root = Path(ctx.scratch(case["root"]))
    out = root / case["sub"]
    static, dynamic = image_files(case)
    prior(out, case["prior"], static + dynamic)
    keep = tree(root)
    log, h = capture()
    kw = scene_kw(case)
    before = frozen(kw)
    what = f"{case['how']}"
    shown = []
    with figures(case["user"]) as check, render():
        real, plt.show = plt.show, lambda *a, **k: shown.append(1)
        try:
            result = sut(call_images, case, kw, out, log)
        finally:
            plt.show = real
        check(what)
    unchanged(kw, before, what)
    after = tree(root)
    want = {f"{case['sub']}/{n}" for n in static + dynamic}
    lead = {str(p) for p in [Path(case["sub"]), *Path(case["sub"]).parents]}
    require(out.is_dir(), f"{what}: the output directory was not created")
    extra = set(after) - set(keep) - want - lead
    require(want <= set(after) and not extra, lambda: f"{what}: missing {sorted(want - set(after))}, unexpected {sorted(extra)}")
    require(all(after.get(k) == v for k, v in keep.items() if k not in want), f"{what}: other files changed")
    for n in static + dynamic:
        require(valid_image(out / n)[0] == "PNG", f"{n} is no PNG")
    if case["how"] == "render":
        require([list(map(Path, r)) for r in result] == [[out / n for n in static], [out / n for n in dynamic]], f"returned {result}")
    else:
        check_log(h, [out / n for n in static + dynamic], what)
    require(len(shown) == (len(static + dynamic) if case["show"] else 0), f"{what}: shown {len(shown)} times, show={case['show']}")
    ctx.label(case["how"], f"{len(static)} static, {len(dynamic)} moving", f"{case['scene']['dim']}D")
    ctx.trivial(not static)


def run_full(case, ctx):
    """At the resolution the library chooses."""
    run_images(case, ctx, render=contextlib.nullcontext)


@st.composite
def movie_cases(draw):
    sc = draw(vl.scene(max_steps=3, hi=2))
    sc["steps"] = min(sc["steps"], 3)
    case = dict(root=draw(st.sampled_from(ROOTS)), scene=sc, how=draw(st.sampled_from(["gifs", "videos", "videos", "gif", "mp4", "mp4", "mp4"])), traj=draw(st.sampled_from(["both", "both", "source", "mic"])), annotate=draw(st.booleans()), lines=draw(st.sampled_from([None, ["a: 1", "b"]])),
                three=draw(st.booleans()), ffmpeg=draw(st.sampled_from(["ok", "ok", "ok", "mux fails", "encode fails", "missing"])), mixture=draw(st.sampled_from(["none", "file", "file", "absent", "mono", "garbage", "three"])), words=draw(st.sampled_from(["plain", "bytes"])),
                mux=draw(st.sampled_from([True, True, False])), channels=draw(st.sampled_from([None, [0, 1], [1, 0], [2, 2], [0, 9], [-1, 0]])), fps=draw(st.sampled_from([0, 3, 9])), user=draw(st.integers(0, 1)),
                prior=draw(st.sampled_from(["absent", "empty", "old"])), view=draw(st.sampled_from(["2d", "3d", "both"])), n=draw(st.integers(100, 4000)), seed=draw(st.integers(0, 999)))
    if case["how"] in ("mp4", "videos") and draw(st.booleans()):  # a movie with sound
        case.update(mux=True, ffmpeg=draw(st.sampled_from(["ok", "ok", "mux fails", "mux gone"])), mixture=draw(st.sampled_from(["file", "three", "mono"])), channels=draw(st.sampled_from([[1, 0], [2, 2], [1, 1], [0, 1], [2, 0], None, [0, 9]])))
    return case


@contextlib.contextmanager
def encoder(kind, folder, words="plain"):
    """A stand-in ffmpeg as the only program of that name."""
    folder.mkdir()
    if kind != "missing":
        p = folder / "ffmpeg"
        p.write_text(FFMPEG.format(dir=folder, encode="fail" if kind == "encode fails" else "ok", mux={"mux fails": "fail", "mux gone": "gone"}.get(kind, "ok"), words=words))
        p.chmod(0o755)
    saved = os.environ.get("PATH", "")
    others = [d for d in saved.split(os.pathsep) if d and not (Path(d) / "ffmpeg").exists()]
    os.environ["PATH"] = os.pathsep.join([str(folder), *others])
    try:
        yield folder
    finally:
        os.environ["PATH"] = saved


def run_movies(case, ctx):
    import soundfile as sf
    import torchrir.viz as viz

    sc, how = case["scene"], case["how"]
    root = Path(ctx.scratch(case["root"]))
    out = root / "out"
    video = how in ("videos", "mp4")
    views = [2, 3] if sc["dim"] == 3 and (how == "gifs" or (how == "videos" and case["three"])) else [2]
    names = {"gifs": ["p.gif", "p_3d.gif"], "videos": ["room_layout_2d.mp4", "room_layout_3d.mp4"], "gif": ["one.gif"], "mp4": ["one.mp4"]}[how][: len(views)]
    if case["ffmpeg"] == "mux gone" and len(views) > 1:
        case = dict(case, ffmpeg="mux fails")  # the second movie could not be encoded
    prior(out, case["prior"], names)
    mixture, mix = None, None
    if case["mixture"] != "none":
        mixture = root / "mix.wav"
        if case["mixture"] == "garbage":
            mixture.write_bytes(b"no audio")
        elif case["mixture"] != "absent":
            k = {"file": 6, "mono": 1, "three": 3}[case["mixture"]]
            mix = np.round(np.random.default_rng(case["seed"]).uniform(-0.9, 0.9, (200, k)) * 32768) / 32768
            sf.write(str(mixture), mix, 8000, subtype="PCM_16")
    keep = tree(root)
    log, h = capture()
    lib = Records()
    liblog = logging.getLogger("torchrir")
    liblog.addHandler(lib)
    kw = scene_kw(case)
    if how in ("gifs", "videos"):
        kw.setdefault("src_traj", None)
        kw.setdefault("mic_traj", None)
    before = frozen(kw)
    kw.update(signal_len=case["n"], fs=1000)
    what = f"{how} (ffmpeg {case['ffmpeg']}, mixture {case['mixture']})"
    error = None
    try:
        with figures(case["user"]) as check, encoder(case["ffmpeg"], root / "bin", case["words"]) as bin_:
            try:
                if how == "gifs":
                    viz.save_scene_gifs(out_dir=out, prefix="p", gif_fps=case["fps"], logger=log, **kw)
                elif how == "videos":
                    viz.save_scene_videos(out_dir=out, logger=log, mp4_fps=case["fps"] or None, save_3d=case["three"], mixture_path=mixture, mux_audio=case["mux"], **kw)
                elif how == "gif":
                    viz.animate_scene_gif(out_path=out / names[0], fps=case["fps"], plot_2d=case["view"] != "3d", plot_3d=case["view"] != "2d", **kw)
                else:
                    extra = {} if case["channels"] is None else dict(audio_channels=tuple(case["channels"]))
                    viz.animate_scene_mp4(out_path=out / names[0], fps=case["fps"], plot_2d=case["view"] != "3d", plot_3d=case["view"] != "2d", mixture_path=mixture, mux_audio=case["mux"], **extra, **kw)
            except Exception as e:
                error = e
            check(what)
    finally:
        liblog.removeHandler(lib)
    unchanged(kw, before, what)
    after = {k: v for k, v in tree(root).items() if not (k == "bin" or k.startswith("bin/"))}
    want = {f"out/{n}" for n in names}
    fails = video and (case["ffmpeg"] in ("encode fails", "missing") or (case["mixture"] == "garbage" and case["mux"]))
    ctx.label(how, f"ffmpeg {case['ffmpeg']}" if video else "gif", "fails" if fails else "succeeds")
    extra = set(after) - set(keep) - want - {"out"}
    require(not extra, f"{what}: left {sorted(extra)}")
    require(all(after.get(k) == v for k, v in keep.items() if k not in want), f"{what}: other files changed")
    if how in ("gifs", "videos"):
        require(error is None, lambda: f"{what}: raised {error!r:.200}")
    if fails:
        if how == "videos":
            require(h.warnings(), f"{what}: the failure was not logged as a warning (logged {h.saved()})")
        return
    require(error is None, lambda: f"{what}: raised {error!r:.200}")
    require(want <= set(after), f"{what}: missing {sorted(want - set(after))}")
    if how in ("gifs", "videos"):
        check_log(h, [out / n for n in names], what)
    if not video:
        for n in names:
            require(valid_image(out / n)[0] == "GIF", f"{n} is no GIF")
        return
    muxed = case["mux"] and case["mixture"] in ("file", "mono", "three") and case["ffmpeg"] == "ok"
    for n in names:
        require(after[f"out/{n}"] == (b"VIDEO+AUDIO" if muxed else b"VIDEO"), f"{what}: {n} holds {after[f'out/{n}'][:40]}")
    audio = sorted(bin_.glob("audio*.wav"))
    require(len(audio) == (len(names) if muxed else 0), f"{what}: {len(audio)} audio tracks")
    for p in audio:
        data, rate = sf.read(str(p), always_2d=True)
        ch = case["channels"] if how == "mp4" and case["channels"] is not None else [0, 1]
        k = mix.shape[1]
        if k == 1:
            ch = [0, 0]
        elif min(ch) < 0 or max(ch) >= k:
            ch = [0, 1]
        require(rate == 8000 and data.shape == (200, 2) and np.abs(data - mix[:, ch]).max() < 1e-4, f"{what}: the audio track is not channels {ch} of the mixture")
    if case["mux"] and (case["mixture"] == "absent" or (case["ffmpeg"] in ("mux fails", "mux gone") and case["mixture"] in ("file", "mono", "three"))):
        require(lib.warnings() or h.warnings(), f"{what}: audio left out without a warning")


BAD = ["room string", "room 1", "room none", "room object", "sources none", "sources string", "sources ragged", "sources 1d short", "mics none", "mics wide", "traj 2d", "traj 1d", "traj string", "traj steps", "traj count",
       "traj dim", "traj object", "lines number", "out file", "out below file", "target is directory", "savefig fails"]


@st.composite
def bad_cases(draw):
    case = draw(image_cases())
    case.update(how=draw(st.sampled_from(["plots", "layout", "gifs", "videos"])), bad=draw(st.sampled_from(BAD)), both=True, prior="absent", traj=draw(st.sampled_from(["both", "both", "none"])),
                ffmpeg=draw(st.sampled_from(["ok", "missing"])))
    case["scene"]["steps"] = min(case["scene"]["steps"], 3)
    return case


def spoil(kw, bad, dim):
    t = {"room string": ("room", "big"), "room 1": ("room", [3.0]), "room none": ("room", None), "room object": ("room", object()), "sources none": ("sources", None), "sources string": ("sources", "here"),
         "sources ragged": ("sources", [[1.0, 1.0, 1.0], [1.0]]), "sources 1d short": ("sources", [1.0]), "mics none": ("mics", None), "mics wide": ("mics", torch.zeros(2, 2, 2)),
         "traj 2d": ("src_traj", torch.zeros(3, dim)), "traj 1d": ("src_traj", [1.0, 2.0]), "traj string": ("src_traj", "path"), "traj steps": ("mic_traj", torch.ones(7, 1, dim)), "traj count": ("src_traj", torch.ones(3, 9, dim)),
         "traj dim": ("src_traj", torch.ones(3, 1, 1)), "traj object": ("mic_traj", object()), "lines number": ("annotation_lines", 5)}
    if bad in t:
        k, v = t[bad]
        kw[k] = v


def run_bad(case, ctx):
    """Best-effort savers: nothing raises, every failure is a warning."""
    import torchrir.viz as viz
    from matplotlib.figure import Figure

    how, bad, sc = case["how"], case["bad"], case["scene"]
    root = Path(ctx.scratch())
    out = root / "out"
    log, h = capture()
    kw = scene_kw(case)
    names = {"gifs": ["scene.gif", "scene_3d.gif"], "videos": ["room_layout_2d.mp4", "room_layout_3d.mp4"], "layout": ["room_layout_2d.png", "room_layout_3d.png"],
             "plots": [f"scene_static_{d}d.png" for d in (2, 3)]}[how]
    if how in ("gifs", "videos"):
        kw.update(signal_len=1000, fs=1000)
        kw.setdefault("src_traj", None)
        kw.setdefault("mic_traj", None)
    spoil(kw, bad, sc["dim"])
    if bad == "out file":
        out.write_text("a file")
    elif bad == "out below file":
        (root / "f").write_text("a file")
        out = root / "f" / "out"
    elif bad == "target is directory":
        for n in names:
            (out / n / "keep").mkdir(parents=True)
    environment = bad in ("out file", "out below file", "target is directory", "savefig fails")
    what = f"{how} with {bad}"
    real = Figure.savefig

    def failing(self, *a, **k):
        raise OSError("disk full")

    with figures(case["user"]) as check, encoder(case["ffmpeg"], root / "bin"), cheap_rendering():
        cheap = Figure.savefig
        if bad == "savefig fails":
            Figure.savefig = failing
        try:
            if how == "plots":
                viz.save_scene_plots(out_dir=out, prefix="scene", show=False, logger=log, **kw)
            elif how == "layout":
                viz.save_scene_layout_images(out_dir=out, logger=log, **kw)
            elif how == "gifs":
                viz.save_scene_gifs(out_dir=out, prefix="scene", gif_fps=4, logger=log, **kw)
            else:
                viz.save_scene_videos(out_dir=out, logger=log, **kw)
        except Exception as e:
            raise Violation(f"{what}: raised {e!r:.200}")
        finally:
            Figure.savefig = cheap
        if environment:
            check(what)
    Figure.savefig = real
    for m in h.saved():
        require(any(str(out / p.name) in m for p in (out.iterdir() if out.is_dir() else [])), f"{what}: logged {m!r}, which is not there")
    if environment or bad in ("room string", "room none", "room object", "sources string", "sources none", "mics none", "sources ragged") or (bad in ("traj string", "traj object", "traj 1d", "traj 2d")):
        require(h.warnings(), f"{what}: no warning (logged {h.saved()})")
    ctx.label(bad, how)


CHECK = Check(
    "C28",
    [
        Law("images", image_cases, run_images, quick=120, thorough=2500, rule="image savers over options, prior contents and the caller's own figures, rendered at a low resolution"),
        Law("full", image_cases, run_full, quick=12, thorough=150, rule="the same at the library's resolution"),
        Law("movies", movie_cases, run_movies, quick=160, thorough=1500, rule="GIF and MP4 savers with a stand-in encoder that works, fails or is missing, and audio files of all kinds"),
        Law("failures", bad_cases, run_bad, quick=160, thorough=2500, rule="malformed inputs and failing saves"),
    ],
    rule="at least one view is enabled",
    assumptions=["output directories are given as Path", "figures opened by calls rejected for malformed inputs are not counted"],
)
