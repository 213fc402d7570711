"""C15: sampling, clamping and linear trajectories."""

import math
import random

from hypothesis import strategies as st
import numpy as np
import torch

from .. import gens
from ..core import Check, Law, expect_raises, require, sut
from ..simlib import as_np, same

REPS = ["float32", "float64"]


@st.composite
def sample_cases(draw):
    dim = draw(st.sampled_from([2, 3]))
    integral = draw(st.booleans())
    # representable in single precision, so that limits met exactly are met in every number type
    size = draw(st.lists(st.integers(2, 9) if integral else gens.uniform(1.0, 9.0).map(lambda v: round(v * 64) / 64), min_size=dim, max_size=dim))
    low = min(size)
    margin = draw(st.one_of(st.none(), gens.uniform(0.0, 1.0).map(lambda f: f * low / 2), st.just(0), st.just(low / 2)))
    if margin is None and low < 1.0:
        margin = 0.1
    h = size[-1]
    zk = draw(st.sampled_from(["default", "inside", "partly", "outside", "point", "ends", "wide"]))
    if zk == "default":
        z = None
    elif zk == "point":
        z = [draw(gens.frac()) * h] * 2
    elif zk == "ends":
        m = 0.5 if margin is None else margin
        z = draw(st.sampled_from([[0.0, m], [h - m, h + 1]]))
    elif zk == "wide":
        z = [-1.0, h + 1]
    else:
        a, b = sorted([draw(gens.frac()) * h, draw(gens.frac()) * h])
        off = {"inside": 0.0, "partly": -0.5 * h if draw(st.booleans()) else 0.5 * h, "outside": h if draw(st.booleans()) else -h}[zk]
        z = [a + off, b + off]
    return dict(size=size, rep=draw(st.sampled_from(REPS + (["int64"] if integral else []))), margin=margin, z=z, zkind=zk,
                num=draw(st.integers(0, 19).flatmap(lambda k: st.sampled_from([50, 300, 17]) if k == 13 else st.integers(1, 8))), seed=draw(st.integers(0, 10**6)), other=draw(st.integers(0, 5)),
                fn=draw(st.sampled_from(["plain", "z", "dist", "dist"])), no_z=draw(st.integers(0, 3)) == 0,
                center=[draw(gens.uniform(0.0, 1.0)) for _ in range(dim)], crep=draw(st.sampled_from(["float32", "float64"])),
                far=draw(st.one_of(gens.uniform(0.0, 0.6), gens.uniform(0.0, 3.0))), attempts=draw(st.sampled_from([None, None, None, 1, 10])))


def z_interval(case, m):
    """Height interval the samples must lie in (None: only the margin)."""
    if len(case["size"]) < 3 or case["fn"] == "plain":
        return None
    z = case["z"]
    if z is None:
        if case["fn"] == "dist" and case["no_z"]:
            return None
        z = [1.5, 1.8]
    lo, hi = max(m, z[0]), min(case["size"][2] - m, z[1])
    return (lo, hi) if lo <= hi else None


def call(case, rng):
    from torchrir.geometry import sampling

    size = torch.tensor(case["size"], dtype=torch.float64).to(getattr(torch, case["rep"]))
    kw = dict(num=case["num"], room_size=size, rng=rng)
    if case["margin"] is not None:
        kw["margin"] = case["margin"]
    if case["fn"] == "plain":
        return lambda: sampling.sample_positions(**kw)
    if case["z"] is not None:
        kw["z_range"] = tuple(case["z"])
    if case["fn"] == "z":
        return lambda: sampling.sample_positions_with_z_range(**kw)
    if case["z"] is None and case["no_z"]:
        kw["z_range"] = None
    if case["attempts"] is not None:
        kw["max_attempts"] = case["attempts"]
    c = torch.tensor([f * s for f, s in zip(case["center"], case["size"])], dtype=getattr(torch, case["crep"]))
    return lambda: sampling.sample_positions_min_distance(center=c, min_distance=min_dist(case), **kw)


def min_dist(case):
    return case["far"] * max(case["size"])


def run_sample(case, ctx):
    size = case["size"]
    dim = len(size)
    m = 0.5 if case["margin"] is None else float(case["margin"])
    if any(s < 2 * m for s in size):
        ctx.trivial()
        return
    zi = z_interval(case, m)
    ctx.label(case["fn"], f"{dim}D", "height range" if zi else "no height range")
    state = (torch.get_rng_state(), random.getstate(), np.random.get_state()[1].tolist())
    go = call(case, random.Random(case["seed"]))
    if case["fn"] == "dist":
        # how much of the allowed region is far enough, by the check's own sampling
        g = np.random.default_rng(5)
        lo, hi = np.full(dim, m), np.array(size, float) - m
        if zi:
            lo[2], hi[2] = zi
        pts = lo + (hi - lo) * g.random((400, dim))
        c = np.array([f * s for f, s in zip(case["center"], size)])
        share = float((np.linalg.norm(pts - c, axis=1) >= min_dist(case)).mean())
        try:
            got = go()
        except (RuntimeError, ValueError):
            ctx.label("failed")
            require(not (share > 0.25 and case["attempts"] is None and case["num"] <= 8),
                    f"sampling failed although {share:.0%} of the allowed region is far enough")
            expect_raises((RuntimeError, ValueError), call(case, random.Random(case["seed"])), what="same generator state, other outcome")
            return
        corner = np.maximum(np.abs(lo - c), np.abs(hi - c))
        require(np.linalg.norm(corner) >= min_dist(case) - 1e-4, "positions returned although no allowed position is far enough")
    else:
        got = sut(go)
    require(torch.is_tensor(got) and got.is_floating_point() and tuple(got.shape) == (case["num"], dim),
            f"shape {tuple(got.shape)}, expected {(case['num'], dim)}")
    p = as_np(got)
    require(bool(np.isfinite(p).all()), "non-finite positions")
    eps = 2e-6 * max(size)
    require(bool((p >= m - eps).all() and (p <= np.array(size) - m + eps).all()), lambda: f"positions {p.tolist()} violate the margin {m} in {size}")
    if zi:
        require(bool((p[:, 2] >= zi[0] - eps).all() and (p[:, 2] <= zi[1] + eps).all()),
                lambda: f"heights {p[:, 2].tolist()} outside the requested range {zi}")
    if case["fn"] == "dist":
        d = np.linalg.norm(p - np.array([f * s for f, s in zip(case["center"], size)]), axis=1)
        require(bool((d >= min_dist(case) - 5 * eps).all()), lambda: f"distances {d.tolist()} below {min_dist(case)}")
    after = (torch.get_rng_state(), random.getstate(), np.random.get_state()[1].tolist())
    require(torch.equal(state[0], after[0]) and state[1] == after[1] and state[2] == after[2], "a global random state was used or changed")
    torch.manual_seed(case["other"])
    random.seed(case["other"])
    np.random.seed(case["other"])
    again = sut(call(case, random.Random(case["seed"])))
    require(torch.equal(again, got), "equal generators give different positions")
    if all(s > 2 * m + 0.2 for s in size[:2]) and case["num"] > 1:
        require(len({tuple(r) for r in p.tolist()}) == case["num"], "repeated positions")
        ctx.label("several")


@st.composite
def bad_cases(draw):
    dim = draw(st.sampled_from([2, 3]))
    size = draw(st.lists(gens.uniform(1.0, 9.0), min_size=dim, max_size=dim))
    return dict(size=size, fn=draw(st.sampled_from(["plain", "z", "dist"])), kind=draw(st.sampled_from(["margin", "center", "far", "steps"])),
                over=draw(gens.uniform(0.01, 5.0)), seed=draw(st.integers(0, 99)), num=draw(st.integers(1, 4)), steps=draw(st.integers(-4, 0)))


def run_bad(case, ctx):
    from torchrir.geometry import linear_trajectory, sampling

    size = torch.tensor(case["size"], dtype=torch.float32)
    dim = len(case["size"])
    rng = random.Random(case["seed"])
    kind, fn = case["kind"], case["fn"]
    ctx.label(kind)
    kw = dict(num=case["num"], room_size=size, rng=rng)
    if kind == "steps":
        expect_raises(ValueError, linear_trajectory, torch.zeros(dim), size, case["steps"], what="non-positive steps")
    elif kind == "margin":
        kw["margin"] = min(case["size"]) / 2 + case["over"]
        f = {"plain": sampling.sample_positions, "z": sampling.sample_positions_with_z_range,
             "dist": lambda **k: sampling.sample_positions_min_distance(center=size * 0, min_distance=0.0, **k)}[fn]
        expect_raises((ValueError, RuntimeError), lambda: f(**kw), what=f"margin {kw['margin']} in a room of {case['size']}")
    elif kind == "center":
        expect_raises(ValueError, lambda: sampling.sample_positions_min_distance(center=torch.zeros(5 - dim), min_distance=0.1, margin=0.1, **kw),
                      what="centre of another dimension")
    else:
        d = math.dist(case["size"], [0] * dim) + case["over"]
        expect_raises((RuntimeError, ValueError), lambda: sampling.sample_positions_min_distance(
            center=size / 2, min_distance=d, margin=0.1, max_attempts=50, **kw), what=f"unreachable minimum distance {d}")


@st.composite
def clamp_cases(draw):
    dim = draw(st.sampled_from([2, 3]))
    integral = draw(st.booleans())
    size = draw(st.lists(st.integers(1, 9) if integral else gens.uniform(0.5, 9.0), min_size=dim, max_size=dim))
    lead = draw(st.sampled_from([[], [3], [2, 3], [1], [4, 1]]))
    n = math.prod(lead)
    ipos = draw(st.integers(0, 4)) == 0
    pts = [[draw(st.integers(-3, 12)) if ipos else draw(st.one_of(gens.uniform(-2.0, 12.0), gens.frac().map(lambda f, s=s: f * s), st.sampled_from([0.0, s])))
            for s in size] for _ in range(n)]
    return dict(size=size, srep=draw(st.sampled_from(REPS + (["int64"] if integral else []))), lead=lead, pts=pts,
                prep=draw(st.sampled_from(["int64"] if ipos else REPS)), margin=draw(st.one_of(st.none(), gens.uniform(0.0, 1.0).map(lambda f: f * min(size) / 2))))


def run_clamp(case, ctx):
    from torchrir.geometry import clamp_positions

    dim = len(case["size"])
    pos = torch.tensor(case["pts"], dtype=torch.float64).to(getattr(torch, case["prep"])).reshape(*case["lead"], dim)
    size = torch.tensor(case["size"], dtype=torch.float64).to(getattr(torch, case["srep"]))
    m = 0.1 if case["margin"] is None else case["margin"]
    keep = pos.clone()
    got = sut(clamp_positions, pos, size, *(() if case["margin"] is None else (m,)))
    require(torch.equal(pos, keep), "positions were modified in place")
    p = as_np(pos)
    want = np.clip(p, m, np.maximum(np.array(case["size"]) - m, m))
    low = "float64" not in (case["prep"], case["srep"]) or case["srep"] != "float64"
    same(as_np(got), want, 2e-6 * max(case["size"]) if low else 1e-12, "clamped positions")
    inside = (p == want) & (p >= m + 1e-5) & (p <= np.array(case["size"]) - m - 1e-5)
    require(bool((as_np(got)[inside] == p[inside]).all()), "allowed coordinates were changed")
    ctx.trivial(bool(inside.all()))
    ctx.label("some moved" if not inside.all() else "all allowed", case["srep"], case["prep"])
    again = sut(clamp_positions, got, size, m)
    same(as_np(again), as_np(got), 1e-6 * max(case["size"]), "clamping twice")


@st.composite
def line_cases(draw):
    dim = draw(st.sampled_from([2, 3]))
    lead = draw(st.sampled_from([[], [], [3], [2, 2]]))
    integral = draw(st.booleans())
    n = math.prod(lead) * dim
    num = st.integers(-5, 9) if integral else gens.uniform(-5.0, 9.0)
    a, b = draw(st.lists(num, min_size=n, max_size=n)), draw(st.lists(num, min_size=n, max_size=n))
    return dict(dim=dim, lead=lead, a=a, b=draw(st.sampled_from([b, b, b, a])), steps=draw(st.one_of(st.integers(1, 4), st.integers(1, 60), st.integers(1, 60), st.sampled_from([129, 1000, 4097]))),
                rep=draw(st.sampled_from(REPS + (["int64"] if integral else []))), kw=draw(st.booleans()))


def run_line(case, ctx):
    from torchrir.geometry import linear_trajectory

    shape = tuple(case["lead"]) + (case["dim"],)
    mk = lambda v: torch.tensor(v, dtype=torch.float64).to(getattr(torch, case["rep"])).reshape(shape)  # noqa: E731
    a, b, n = mk(case["a"]), mk(case["b"]), case["steps"]
    got = sut(linear_trajectory, start=a, end=b, steps=n) if case["kw"] else sut(linear_trajectory, a, b, n)
    require(got.is_floating_point(), f"dtype {got.dtype}")
    if case["rep"] != "int64":
        require(got.dtype == a.dtype, f"dtype {got.dtype} from {a.dtype}")
    A, B = as_np(a), as_np(b)
    f = np.arange(n) / max(1, n - 1)
    want = A[None] + (B - A)[None] * f.reshape((n,) + (1,) * A.ndim)
    same(as_np(got), want, 1e-12 if case["rep"] == "float64" else 3e-6 * 10, f"trajectory of {n} steps")
    require(bool((as_np(got)[0] == A).all()), "does not start at the start point")
    ctx.trivial(n < 2 or bool((A == B).all()))
    ctx.label("single step" if n == 1 else "several steps", case["rep"])


CHECK = Check(
    id="C15",
    technique="property-based testing: validity predicates over seeds and parameters, closed-form oracle for clamping and trajectories",
    rule=("Cases are rooms in every number type, margins from zero to half the room, height ranges inside, across, touching and outside the "
          "allowed interval, minimum distances from easy to impossible and generator seeds; non-trivial when the parameters bind."),
    laws=[
        Law("sampling", sample_cases, run_sample, quick=5000, thorough=100000),
        Law("clamping", clamp_cases, run_clamp, quick=2000, thorough=32000),
        Law("linear_trajectory", line_cases, run_line, quick=1600, thorough=24000),
        Law("impossible_rejected", bad_cases, run_bad, quick=800, thorough=12000),
    ],
    assumptions=["Sampling may fail when less than a quarter of the allowed region is far enough or attempts are limited."],
    note="A returned set of positions must satisfy every promise; a failure must be impossible to avoid with reasonable effort.",
)
