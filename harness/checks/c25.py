"""C25: built dynamic scenes obey the documented geometry and motion profile."""

import math
from pathlib import Path

from hypothesis import strategies as st
import numpy as np

from .. import builderlib as bl
from ..core import Check, Law, expect_raises, require, sut
from ..corpora import no_network

CORPUS = dict(rate=100, speakers=[dict(name=s, utts=[dict(id="arctic_a0001", n=300, kind="noise", seed=1), dict(id="arctic_a0002", n=170, kind="tone", seed=2)])
                                  for s in bl.SPEAKERS])


def corpus(ctx, n=8):
    root = Path(ctx.scratch())
    bl.write(root, dict(CORPUS, speakers=CORPUS["speakers"][:n]))
    return root


def request(req, root, out):
    kw = dict(cmu_root=root, dataset_root=out, speakers=[s["name"] for s in CORPUS["speakers"]], rir_samples=12, max_order=0, rt60=1.0,
              save_layout_mp4=False, save_layout_images=False, logger=bl.quiet_logger())
    kw.update(req)
    return kw


def check_all(out, req, ctx):
    scenes = sorted(p.name for p in out.iterdir())
    require(scenes == [f"scene_{i:04d}" for i in range(req["n_scenes"])], f"{scenes}, {req['n_scenes']} requested")
    centers = []
    for name in scenes:
        meta, info = bl.load_scene(out / name)
        require(len(info) == req["n_sources"] and len({i["source_index"] for i in info}) == len(info), "sources of the source information")
        src, mic, moving, center = bl.check_motion(meta, info, req)
        centers.append(center)
        extra = meta["extra"]
        require(extra["moving_source_indices"] == moving, f"moving sources {extra['moving_source_indices']} and {moving}")
    return centers


@st.composite
def cases(draw):
    req = draw(bl.feasible(max_scenes=6, max_steps=24))
    req["duration_sec"] = draw(st.sampled_from([20.0, 10.0, 2.5, 0.5, None]))
    if req["duration_sec"] is None:
        req["duration_sec"] = draw(st.integers(20, 3000)) / 100
    return dict(req=req)


def run(case, ctx):
    req = case["req"]
    out = Path(ctx.scratch()) / "ds"
    with no_network():
        sut(bl.build, **request(req, corpus(ctx), out))
    check_all(out, req, ctx)
    ctx.label("random centre" if req["randomize_mic_center"] else "given centre", f"{req['n_moving_sources']} of {req['n_sources']} move")
    ctx.trivial(req["n_moving_sources"] == 0 and max(req["room_size"]) < 15)


@st.composite
def hall_cases(draw):
    """Rooms much longer than wide, and rooms much larger than the array."""
    req = draw(bl.feasible(max_scenes=12, max_steps=3))
    size, center = list(req["room_size"]), list(req["mic_center"])
    for k in draw(st.sampled_from([[0], [1], [1], [0, 1], [0, 1, 2]])):
        more = draw(st.sampled_from([400.0, 60.0, 15.0, 2000.0]))
        size[k] += more
        center[k] += more * draw(st.integers(0, 8)) / 8
    n = req["n_sources"]
    req.update(room_size=size, mic_center=center, duration_sec=0.5, n_moving_sources=min(req["n_moving_sources"], draw(st.integers(0, n))))
    return dict(req=req)


@st.composite
def any_cases(draw):
    """Unconstrained rooms, margins, arrays and motions, feasible or not."""
    size = [draw(st.integers(4, 90)) / 10 for _ in range(2)] + [draw(st.integers(4, 50)) / 10]
    margin = [draw(st.sampled_from([0.0, 0.5, 0.3, 1.0, 2.0, 3.0])) for _ in range(3)]
    if draw(st.integers(0, 2)) < 2:
        size = [3.2 + s / 2 for s in size[:2]] + [2.0 + size[2] / 2]
        margin = [m / 2 for m in margin[:2]] + [margin[2] / 3]
    f = [draw(st.one_of(st.integers(7, 13), st.integers(1, 19))) / 20 for _ in range(3)]
    n = draw(st.integers(1, 6))
    a = draw(st.integers(0, 95)) / 100
    v = draw(st.integers(1, 40)) / 20
    return dict(req=dict(n_scenes=draw(st.integers(1, 3)), n_sources=n, n_moving_sources=draw(st.integers(0, n)), room_size=size, mic_center=[x * y for x, y in zip(f, size)],
                         octa_edge_m=draw(st.sampled_from([0.1, 0.5, 1.0, 0.3, 1.4, 3.0])), source_margin=margin, trajectory_steps=draw(st.sampled_from([65, 200])) if draw(st.integers(0, 19)) == 9 else draw(st.integers(2, 10)), move_start_ratio=a,
                         move_end_ratio=min(1.0, a + draw(st.integers(1, 100)) / 100), moving_speed_min=v, moving_speed_max=v + draw(st.sampled_from([0.0, 1.0])),
                         randomize_mic_center=draw(st.booleans()), seed=draw(st.integers(0, 10**6)), duration_sec=draw(st.integers(20, 1000)) / 100))


def reach(center, lo, hi, az):
    """Horizontal distance from ``center`` to the border of the box in a direction (center inside)."""
    c, s = math.cos(az), math.sin(az)
    r = math.inf
    for p, d, a, b in ((center[0], c, lo[0], hi[0]), (center[1], s, lo[1], hi[1])):
        if d > 1e-12:
            r = min(r, (b - p) / d)
        elif d < -1e-12:
            r = min(r, (a - p) / d)
    return r


def impossible(req, slack=0.02):
    """Why no placement exists, or None when one may exist."""
    size, margin = np.asarray(req["room_size"], float), np.asarray(req["source_margin"], float)
    lo, hi = margin, size - margin
    r = req["octa_edge_m"] / math.sqrt(2)
    if ((hi - lo) < -1e-9).any():
        return "no room within the margins"
    if req["randomize_mic_center"]:
        if (size < 2 * r - 1e-9).any():
            return "the array is larger than the room"
        diag = math.hypot(*(hi - lo)[:2])
        # the centre may lie anywhere in the room
        if req["n_sources"] == 1:
            far = math.hypot(*[max(h, s - l) for h, s, l in zip(hi[:2], size[:2], lo[:2])])
            return "no source position is far enough" if far < bl.MIN_DIST - slack else None
        if req["n_sources"] % 2 == 0 and diag < 2 * bl.MIN_DIST - slack:
            return "two opposite sources do not fit"
        return None
    c = np.asarray(req["mic_center"], float)
    if (c - r < -1e-6).any() or (c + r > size + 1e-6).any():
        return "the array leaves the room"
    if (c[:2] < lo[:2]).any() or (c[:2] > hi[:2]).any():
        return None
    n = req["n_sources"]
    for k in range(1440):
        base = 2 * math.pi / n * k / 1440
        if all(reach(c, lo, hi, base + 2 * math.pi * j / n) >= bl.MIN_DIST - slack for j in range(n)):
            return None
    return "no rotation of the azimuths leaves room for all sources"


def run_any(case, ctx):
    req = case["req"]
    why = impossible(req)
    root, out = corpus(ctx), Path(ctx.scratch()) / "ds"
    if why:
        ctx.label(why)
        expect_raises(ValueError, bl.build, what=why, **request(req, root, out))
        require(not out.exists(), "a rejected request left an output directory")
        return
    try:
        bl.build(**request(req, root, out))
    except ValueError:
        ctx.label("rejected")
        ctx.trivial()
        require(not out.exists(), "a rejected request left an output directory")
        return
    ctx.label("built")
    check_all(out, req, ctx)


BAD = [
    ("n_scenes", [0, -1, -5]), ("n_sources", [0, -1, 7, 9, 100]), ("n_moving_sources", [-1, "n+1", "n+4"]), ("trajectory_steps", [0, -3]), ("duration_sec", [0.0, -1.0, 1e-9]),
    ("rir_samples", [0, -4]), ("move", [(0.5, 0.5), (0.6, 0.4), (-0.1, 0.5), (0.2, 1.1), (1.0, 1.0), (float("nan"), 0.5), (0.1, float("nan"))]),
    ("speed", [(0.0, 0.5), (-1.0, 0.5), (0.8, 0.3), (-2.0, -1.0)]), ("room_size", [[5.0, 4.0], [5.0, 4.0, 3.0, 2.0], [], [5.0]]), ("mic_center", [[2.0, 2.0], [1.0, 2.0, 3.0, 4.0], []]),
    ("source_margin", [[0.5, 0.5], [0.1] * 4, []]), ("octa_edge_m", [0.0, -1.0]), ("margins", ["x", "y", "z"]), ("speakers", ["few"]),
]


@st.composite
def bad_cases(draw):
    req = draw(bl.feasible(max_scenes=2, max_steps=6))
    req["duration_sec"] = draw(st.integers(20, 500)) / 100
    name, values = draw(st.sampled_from(BAD))
    return dict(req=req, bad=name, value=draw(st.sampled_from([list(v) if isinstance(v, tuple) else v for v in values])))


def run_bad(case, ctx):
    req, name, v = dict(case["req"]), case["bad"], case["value"]
    ctx.label(name)
    if name == "move":
        req["move_start_ratio"], req["move_end_ratio"] = v
    elif name == "speed":
        req["moving_speed_min"], req["moving_speed_max"] = v
    elif name == "n_moving_sources":
        req[name] = v if isinstance(v, int) else req["n_sources"] + int(v[2:])
    elif name == "margins":
        k = "xyz".index(v)
        m = list(req["source_margin"])
        m[k] = req["room_size"][k] / 2 + 0.05
        req["source_margin"] = m
    elif name == "speakers":
        req["speakers"] = [s["name"] for s in CORPUS["speakers"]][: req["n_sources"] - 1]
    else:
        req[name] = v
    out = Path(ctx.scratch()) / "ds"
    expect_raises(ValueError, bl.build, what=f"{name} = {v!r}", **request(req, corpus(ctx), out))
    require(not out.exists(), "a rejected request left an output directory")


CHECK = Check(
    "C25",
    [
        Law("motion", cases, run, quick=1000, thorough=16000, rule="requests with a placement: every step of every scene against the documented geometry and motion"),
        Law("halls", hall_cases, run, quick=240, thorough=4000, shards=6, rule="the same in rooms of up to 2000 m, often long and narrow"),
        Law("any", any_cases, run_any, quick=1000, thorough=16000, rule="arbitrary rooms, margins and arrays: impossible requests raise, everything built obeys the geometry"),
        Law("rejects", bad_cases, run_bad, quick=400, thorough=8000, rule="invalid counts, ranges and shapes"),
    ],
    rule="at least one source moves; or the request is not rejected while possibly feasible",
    assumptions=["step i of T is time i/(T-1) of the scene", "a request that is possible only off the beaten track (an off-centre array with static sources only) may be rejected"],
)
