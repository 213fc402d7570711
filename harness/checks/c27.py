"""C27: scene plots and animations show the scene's true geometry."""

from pathlib import Path
import re

from hypothesis import strategies as st
import numpy as np

from .. import vizlib as vl
from ..builderlib import quiet_logger
from ..core import Check, Law, require, sut

LINES = st.one_of(st.none(), st.lists(st.sampled_from(["scene:scene_0001", "speed: 0.5 m/s", "", "  padded  ", "S0", "T60 = 0.4 s", "%d $x$"]).filter(lambda s: s != "S0"), max_size=3))


def closing(fn):
    """Start and end with no figure open."""
    def run(case, ctx):
        vl.setup()
        import matplotlib.pyplot as plt

        plt.close("all")
        try:
            fn(case, ctx)
        finally:
            plt.close("all")
    return run


def make_axes(dim, kind):
    import matplotlib.pyplot as plt

    if kind == "none":
        return None
    fig = plt.figure()
    if kind == "sub":
        return fig.add_subplot(122, **({"projection": "3d"} if dim == 3 else {}))
    return fig.add_subplot(111, **({"projection": "3d"} if dim == 3 else {}))


@st.composite
def static_cases(draw):
    return dict(scene=draw(vl.scene(hi=draw(st.sampled_from([3, 5, 12])))), annotate=draw(st.booleans()), lines=draw(LINES), ax=draw(st.sampled_from(["none", "none", "own", "sub"])), title=draw(st.sampled_from([None, "A room"])))


@closing
def run_static(case, ctx):
    from torchrir.viz import plot_scene_static

    sc = case["scene"]
    kw, _, _ = vl.inputs(sc)
    s0, m0, _, _ = vl.values(sc)
    given = make_axes(sc["dim"], case["ax"])
    ax = sut(plot_scene_static, **kw, annotate_sources=case["annotate"], annotation_lines=case["lines"], title=case["title"], **({} if given is None else {"ax": given}))
    require(given is None or ax is given, "drew elsewhere than on the given axes")
    got = vl.read_axes(ax)
    rest = vl.check_outline(got, sc["size"], "static plot")
    vl.check_points(got, s0, m0, "static plot")
    vl.check_labels(got, s0, case["annotate"], "static plot")
    vl.check_annotation(got, case["lines"], "static plot")
    vl.check_paths(rest, [], "static plot")
    require(got["title"] == (case["title"] or ""), f"title {got['title']!r}")
    require(sorted(got["legend"]) == ["mics", "sources"], f"legend {got['legend']}")
    ctx.label(f"{sc['dim']}D {sc['form']}", "labelled" if case["annotate"] else "unlabelled")
    ctx.trivial(len(s0) + len(m0) < 3)


@st.composite
def dynamic_cases(draw):
    return dict(scene=draw(vl.scene(max_steps=draw(st.sampled_from([12, 12, 12, 70])), hi=draw(st.sampled_from([3, 4, 9])))), annotate=draw(st.booleans()), lines=draw(LINES), ax=draw(st.sampled_from(["none", "none", "own", "sub"])),
                title=draw(st.sampled_from([None, "A room"])), step=draw(st.sampled_from([1, 1, 2, 3, 20])), pos=draw(st.sampled_from(["omit", "give", "source", "mic"])))


def check_dynamic(got, size, s0, m0, src, mic, step, annotate, lines, what):
    rest = vl.check_outline(got, size, what)
    vl.check_points(got, s0, m0, what)
    vl.check_labels(got, s0, annotate, what)
    vl.check_annotation(got, lines, what)
    vl.check_paths(rest, [("source", src[::step], None), ("microphone", mic[::step], None)], what)
    require(sorted(got["legend"]) == ["mics", "sources"], f"{what}: legend {got['legend']}")


@closing
def run_dynamic(case, ctx):
    from torchrir.viz import plot_scene_dynamic

    sc = case["scene"]
    kw, ts, tm = vl.inputs(sc)
    s0, m0, src, mic = vl.values(sc)
    given = make_axes(sc["dim"], case["ax"])
    extra = {} if given is None else {"ax": given}
    if case["pos"] in ("give", "source"):
        extra["src_pos"] = kw["sources"]
    if case["pos"] in ("give", "mic"):
        extra["mic_pos"] = kw["mics"]
    ax = sut(plot_scene_dynamic, room=kw["room"], src_traj=ts, mic_traj=tm, step=case["step"], annotate_sources=case["annotate"], annotation_lines=case["lines"], title=case["title"], **extra)
    require(given is None or ax is given, "drew elsewhere than on the given axes")
    got = vl.read_axes(ax)
    check_dynamic(got, sc["size"], s0, m0, src, mic, case["step"], case["annotate"], case["lines"], "moving plot")
    require(got["title"] == (case["title"] or ""), f"title {got['title']!r}")
    still = all(k == "still" for k in sc["src"]["kinds"] + sc["mic"]["kinds"]) or sc["steps"] == 1
    ctx.label(f"{sc['dim']}D {sc['form']}", "static" if still else "moving", f"step {case['step']}")
    ctx.trivial(still)


@st.composite
def saved_cases(draw):
    return dict(scene=draw(vl.scene()), annotate=draw(st.booleans()), lines=draw(LINES), step=draw(st.sampled_from([1, 2, 3])), traj=draw(st.sampled_from(["both", "source", "mic", "none"])),
                how=draw(st.sampled_from(["render", "plots", "layout"])))


@closing
def run_saved(case, ctx):
    """Views of the whole scene that the saving helpers draw."""
    import torchrir.viz as viz

    sc = case["scene"]
    kw, ts, tm = vl.inputs(sc, allow_room_model=False)
    s0, m0, src, mic = vl.values(sc)
    tk = {}
    if case["traj"] in ("both", "source"):
        tk["src_traj"] = ts
    else:
        src = np.repeat(s0[None], len(src), 0)
    if case["traj"] in ("both", "mic"):
        tk["mic_traj"] = tm
    else:
        mic = np.repeat(m0[None], len(mic), 0)
    out = Path(ctx.scratch())
    common = dict(kw, out_dir=out, annotate_sources=case["annotate"], annotation_lines=case["lines"], **tk)
    with vl.saved_figures() as figs:
        if case["how"] == "render":
            sut(viz.render_scene_plots, step=case["step"], **common)
        elif case["how"] == "plots":
            sut(viz.save_scene_plots, prefix="p", show=False, logger=quiet_logger(), **common)
        else:
            sut(viz.save_scene_layout_images, logger=quiet_logger(), **common)
    step = case["step"] if case["how"] == "render" else 1
    shown = {p.name: axes for p, axes in figs}
    dims = [2, 3] if sc["dim"] == 3 else [2]
    count = 0
    for d in dims:
        cut = [a[..., :d] for a in (s0, m0, src, mic)]
        for name, axes in shown.items():
            if not name.endswith(f"_{d}d.png"):
                continue
            require(len(axes) == 1, f"{name}: {len(axes)} axes")
            count += 1
            dynamic = "_dynamic_" in name or (case["how"] == "layout" and case["traj"] != "none")
            if dynamic:
                check_dynamic(axes[0], sc["size"][:d], *cut, step, case["annotate"], case["lines"], name)
            else:
                rest = vl.check_outline(axes[0], sc["size"][:d], name)
                vl.check_points(axes[0], cut[0], cut[1], name)
                vl.check_labels(axes[0], cut[0], case["annotate"], name)
                vl.check_annotation(axes[0], case["lines"], name)
                vl.check_paths(rest, [], name)
    require(count == len(shown) == len(dims) * (2 if case["how"] != "layout" and case["traj"] != "none" else 1), f"figures {sorted(shown)}")
    ctx.label(case["how"], f"{sc['dim']}D", f"trajectory: {case['traj']}")
    ctx.trivial(case["traj"] == "none")


@st.composite
def anim_cases(draw):
    return dict(scene=draw(vl.scene(max_steps=draw(st.sampled_from([11, 11, 19, 34])), hi=3)), annotate=draw(st.booleans()), lines=draw(LINES), step=draw(st.sampled_from([1, 1, 2, 3, 20])),
                traj=draw(st.sampled_from(["both", "both", "source", "mic"])), how=draw(st.sampled_from(["gif", "mp4", "gifs", "videos"])),
                view=draw(st.sampled_from(["2d", "3d", "both"])), fps=draw(st.sampled_from([None, None, 0, 5, 12.4, 30, 1])), duration=draw(st.sampled_from(["none", "samples", "seconds", "both"])),
                fs=draw(st.sampled_from([8000, 16000, 100])), n=draw(st.integers(1, 200000)), seconds=draw(st.sampled_from([0.5, 1.0, 3.7, 20.0])))


@st.composite
def long_cases(draw):
    """Trajectories of many steps, shown a few frames apart."""
    case = draw(anim_cases())
    steps = draw(st.sampled_from([0, 100, 257, 513, 1025])) or draw(st.integers(60, 1500))
    case["scene"]["steps"] = steps
    for k in ("src", "mic"):
        e = case["scene"][k]
        e["kinds"] = [draw(st.sampled_from(["walk", "loop", "line", "walk"])) for _ in e["kinds"]]
        e["seed"] = draw(st.integers(0, 10**6))
    case["how"] = draw(st.sampled_from(["gif", "mp4"]))
    case["step"] = max(1, steps // draw(st.integers(2, 8)) + draw(st.integers(-1, 1)))
    return case


@closing
def run_anim(case, ctx):
    import torchrir.viz as viz

    sc, how = case["scene"], case["how"]
    kw, ts, tm = vl.inputs(sc, allow_room_model=False)
    s0, m0, src, mic = vl.values(sc)
    tk = {}
    if case["traj"] in ("both", "source") or how in ("gifs", "videos"):
        tk["src_traj"] = ts
    else:
        src = np.repeat(s0[None], len(src), 0)
    if case["traj"] in ("both", "mic") or how in ("gifs", "videos"):
        tk["mic_traj"] = tm
    else:
        mic = np.repeat(m0[None], len(mic), 0)
    out = Path(ctx.scratch())
    common = dict(kw, annotate_sources=case["annotate"], annotation_lines=case["lines"], **tk)
    step = 1
    views = [2, 3] if sc["dim"] == 3 else [2]
    signal = dict(signal_len=case["n"], fs=case["fs"])
    duration = case["n"] / case["fs"]
    fps = case["fps"]
    with vl.captured_movies() as movies:
        if how == "gifs":
            fps = 0 if fps is None else int(fps)
            sut(viz.save_scene_gifs, out_dir=out, prefix="p", gif_fps=fps, logger=quiet_logger(), **signal, **common)
        elif how == "videos":
            sut(viz.save_scene_videos, out_dir=out, mp4_fps=fps, logger=quiet_logger(), mux_audio=False, **signal, **common)
        else:
            step = case["step"]
            extra = {}
            if case["duration"] in ("samples", "both"):
                extra.update(signal)
            else:
                duration = None
            if case["duration"] in ("seconds", "both"):
                duration = extra["duration_s"] = case["seconds"]
            p3 = case["view"] == "3d" or (case["view"] == "both" and sc["dim"] == 3)
            views = [3 if p3 and sc["dim"] == 3 else 2]
            sut(viz.animate_scene_gif if how == "gif" else viz.animate_scene_mp4, out_path=out / "sub" / "m.x", step=step, fps=fps, plot_2d=case["view"] != "3d", plot_3d=case["view"] != "2d",
                **extra, **common)
    require(len(movies) == len(views), f"{len(movies)} animations, expected {len(views)}")
    steps = sc["steps"]
    want = [min(k, steps - 1) for k in range(0, steps, step)]
    for d, m in zip(views, movies):
        what = f"{d}D animation ({how})"
        require(len(m.frames) == len(want), f"{what}: {len(m.frames)} frames for {steps} steps taken by {step}")
        if fps:
            require(abs(m.fps - fps) <= 0.5 + 1e-6 or (fps < 1 and m.fps == 1), f"{what}: {m.fps} frames a second, {fps} requested")
        elif duration:
            rate = len(want) / duration
            require(abs(m.fps - rate) <= 0.5 + 1e-6 or (rate < 1 and m.fps <= 1), f"{what}: {len(want)} frames at {m.fps} a second for {duration} s")
        for i, (idx, axes) in enumerate(zip(want, m.frames)):
            w = f"{what}, frame {i}"
            require(len(axes) == 1, f"{w}: {len(axes)} axes")
            got = axes[0]
            vl.check_limits(got, sc["size"][:d], w)
            a, b = src[..., :d], mic[..., :d]
            vl.check_points(got, a[idx], b[idx], w)
            vl.check_labels(got, a[idx], case["annotate"], w)
            vl.check_annotation(got, case["lines"], w)
            vl.check_paths(got["lines"], [("source", a[: idx + 1], None), ("microphone", b[: idx + 1], None)], w)
            if duration is not None and steps > 1:
                t = idx / (steps - 1) * duration
                shown = [float(x) for x in re.findall(r"-?\d+(?:\.\d+)?", got["title"])]
                require(any(abs(x - t) <= 0.0051 for x in shown), f"{w}: title {got['title']!r} at {t:.4f} s")
    ctx.label(how, f"{sc['dim']}D", f"step {step}", "auto rate" if not fps else "given rate", f"trajectory: {case['traj']}")
    ctx.trivial(steps == 1)


@st.composite
def gif_cases(draw):
    sc = draw(vl.scene(max_steps=6, hi=2))
    sc["steps"] = draw(st.integers(2, 6))
    sc["src"]["kinds"][0] = "walk"
    return dict(scene=sc, n=draw(st.integers(8000, 64000)), step=draw(st.sampled_from([1, 2])), fps=draw(st.sampled_from([None, 4, 10])), view=draw(st.sampled_from(["2d", "3d"])))


@closing
def run_gif(case, ctx):
    """The file itself: one picture per sampled step, as long as the signal."""
    from PIL import Image

    import torchrir.viz as viz

    sc = case["scene"]
    kw, ts, tm = vl.inputs(sc, allow_room_model=False)
    p = Path(ctx.scratch()) / "a.gif"
    got = sut(viz.animate_scene_gif, out_path=p, src_traj=ts, mic_traj=tm, step=case["step"], fps=case["fps"], signal_len=case["n"], fs=16000, plot_2d=case["view"] == "2d", plot_3d=case["view"] == "3d", **kw)
    require(Path(got) == p, f"returned {got}")
    with Image.open(p) as im:
        require(im.format == "GIF", f"wrote {im.format}")
        frames = im.n_frames
        ms = []
        for k in range(frames):
            im.seek(k)
            ms.append(im.info.get("duration", 0))
    want = (sc["steps"] + case["step"] - 1) // case["step"]
    require(frames == want or (frames < want and case["step"] > 1), f"{frames} pictures for {want} sampled steps")
    rate = case["fps"] or max(1, round(want / (case["n"] / 16000)))
    require(abs(sum(ms) - want * 1000 / rate) <= 10 * want + 1 or (not case["fps"] and abs(sum(ms) - case["n"] / 16) <= 0.6 * case["n"] / 16), f"plays {sum(ms)} ms: {want} pictures at {rate} a second")
    ctx.label(case["view"])


CHECK = Check(
    "C27",
    [
        Law("static", static_cases, run_static, quick=150, thorough=3000, rule="artists of static plots"),
        Law("dynamic", dynamic_cases, run_dynamic, quick=250, thorough=4000, rule="artists of trajectory plots"),
        Law("saved", saved_cases, run_saved, quick=60, thorough=1500, rule="artists of every figure the saving helpers save"),
        Law("animation", anim_cases, run_anim, quick=120, thorough=2500, rule="artists of every frame handed to the encoder, frame count and rate"),
        Law("long", long_cases, run_anim, quick=40, thorough=800, shards=5, rule="the same for trajectories of up to 1500 steps shown a few frames apart"),
        Law("gif", gif_cases, run_gif, quick=16, thorough=300, rule="pictures and playing time of written GIF files"),
    ],
    rule="something moves over several steps; at least three entities in a static plot",
    assumptions=["sources are drawn as triangles and microphones as circles", "an animation's axes frame is its room outline"],
)
