"""C14: microphone array helpers."""

import math

from hypothesis import strategies as st
import numpy as np
import torch

from .. import eigenmike, gens
from ..core import Check, Law, expect_raises, require, sut
from ..simlib import as_np, same

REPS_F = ["list", "tuple", "float32", "float64"]
REPS_I = ["list", "tuple", "float32", "float64", "int64", "int32"]
KINDS = ["tetrahedron", "cube", "octahedron", "dodecahedron", "icosahedron"]


def give(v, rep):
    if rep == "list":
        return list(v)
    if rep == "tuple":
        return tuple(v)
    return torch.tensor(v, dtype=torch.float64).to(getattr(torch, rep))


@st.composite
def centre(draw, dims=(2, 3)):
    dim = draw(st.sampled_from(list(dims)))
    integral = draw(st.booleans())
    v = draw(st.lists(st.integers(-4, 9) if integral else gens.uniform(-3.0, 9.0), min_size=dim, max_size=dim))
    return dict(center=v, rep=draw(st.sampled_from(REPS_I if integral else REPS_F)),
                dtype=draw(st.sampled_from([None, None, "float32", "float64"])), dev=draw(st.sampled_from([None, "cpu"])))


@st.composite
def direction(draw, dim):
    kind = draw(st.sampled_from(["axis", "near", "any", "any", "int"]))
    axis, sign = draw(st.integers(0, dim - 1)), draw(st.sampled_from([1.0, -1.0]))
    if kind == "axis":
        v = [0.0] * dim
        v[axis] = sign
    elif kind == "near":
        v = [0.0] * dim
        v[axis] = sign
        v[(axis + 1) % dim] = draw(st.sampled_from([1e-3, -1e-3, 1e-2, 1e-5, 1e-4]))
    elif kind == "int":
        v = draw(st.lists(st.integers(-3, 3), min_size=dim, max_size=dim))
        if not any(v):
            v[axis] = 1
        return v
    else:
        v = gens.azel_vec(draw(gens.uniform(-math.pi, math.pi)), draw(gens.uniform(-1.5, 1.5)), dim)
    r = draw(st.sampled_from([1.0, 1.0, 0.01, 50.0, 2.5, 1e-5, 1e-3, 1e4]))
    return [r * x for x in v]


def kw_of(case):
    kw = {}
    if case["dtype"]:
        kw["dtype"] = getattr(torch, case["dtype"])
    if case["dev"]:
        kw["device"] = case["dev"]
    return kw


def keeping(fn, c, **kw):
    """Call twice with the same arguments: nothing given may change, and the result must not either."""
    given = [v for v in [c, *kw.values()] if torch.is_tensor(v)]
    before = [v.clone() for v in given]
    a = sut(fn, c, **kw)
    kept = a.clone() if torch.is_tensor(a) else a
    require(all(torch.equal(u, v) for u, v in zip(given, before)), "the centre or direction given was modified")
    b = sut(fn, c, **kw)
    require(torch.is_tensor(a) and torch.equal(a, kept) and torch.equal(a, b), "a second call with the same arguments gives another array")
    return a


def settle(case, got, n, extent):
    """Common promises; returns (offsets from the centre, tolerance)."""
    want = torch.float32
    if case["dtype"]:
        want = getattr(torch, case["dtype"])
    elif case["rep"] in ("float32", "float64"):
        want = getattr(torch, case["rep"])
    require(torch.is_tensor(got) and got.dtype == want, f"dtype {getattr(got, 'dtype', type(got))}, expected {want}")
    p = as_np(got)
    dim = len(case["center"])
    require(p.shape == (n, dim), f"shape {p.shape}, expected {(n, dim)}")
    require(bool(np.isfinite(p).all()), "positions are not finite")
    scale = 1.0 + max(abs(x) for x in case["center"]) + extent
    tol = scale * (1e-13 if want == torch.float64 and case["rep"] not in ("float32",) else 1e-6)
    return p - np.asarray(case["center"], float), max(tol, scale * 2e-7 if want == torch.float32 else 0.0)


def moved(case, fn, offsets, tol):
    """Moving the centre translates the array."""
    c2 = [x + d for x, d in zip(case["center"], case["shift"])]
    p = as_np(sut(fn, torch.tensor(c2, dtype=torch.float64)))
    same(p - np.asarray(c2), offsets, tol * 3 + 1e-6 * max(map(abs, case["shift"])) * (tol > 1e-9), "array at a moved centre")


def shift(dim):
    return st.lists(gens.uniform(-5.0, 5.0), min_size=dim, max_size=dim)


def some(hi):
    """Mostly small counts, now and then large ones."""
    return st.integers(0, 24).flatmap(lambda k: st.sampled_from([64, 100, 257, 1000]) if k == 13 else st.integers(1, hi))


@st.composite
def linear_cases(draw):
    c = draw(centre())
    dim = len(c["center"])
    use_dir = draw(st.booleans())
    c.update(kind=draw(st.sampled_from(["linear", "linear", "binaural"])), num=draw(some(12)), spacing=draw(gens.uniform(0.005, 1.0)),
             axis=draw(st.one_of(st.none(), st.integers(0, dim - 1))), direction=draw(direction(dim)) if use_dir else None,
             dir_rep=draw(st.sampled_from(["list", "float64", "float32"])), offset=draw(st.one_of(st.none(), gens.uniform(0.01, 0.5))),
             shift=draw(shift(dim)), k=draw(gens.uniform(0.2, 4.0)))
    return c


def run_linear(case, ctx):
    from torchrir.geometry import binaural_array, linear_array

    c = give(case["center"], case["rep"])
    kw = kw_of(case)
    dim = len(case["center"])
    ctx.label(case["kind"], f"{dim}D", case["rep"])
    if case["kind"] == "binaural":
        off = 0.08 if case["offset"] is None else case["offset"]
        ok = {} if case["offset"] is None else dict(offset=off)
        d, tol = settle(case, keeping(binaural_array, c, **ok, **kw), 2, off)
        want = np.zeros((2, dim))
        want[0, 0], want[1, 0] = -off, off
        same(d, want, tol, "binaural positions about the centre")
        moved(case, lambda x: binaural_array(x, **ok), want, tol)
        return
    unit = np.zeros(dim)
    if case["direction"] is not None:
        v = np.asarray(case["direction"], float)
        unit = v / np.linalg.norm(v)
        kw["direction"] = give(case["direction"], case["dir_rep"])
    else:
        unit[case["axis"] or 0] = 1.0
    if case["axis"] is not None:
        kw["axis"] = case["axis"]
    num, sp = case["num"], case["spacing"]
    d, tol = settle(case, keeping(linear_array, c, num=num, spacing=sp, **kw), num, num * sp)
    tol += 2e-7 * num * sp if case["dir_rep"] == "float32" and case["direction"] is not None else 0.0
    want = ((np.arange(num) - (num - 1) / 2) * sp)[:, None] * unit[None, :]
    same(d, want, tol, "linear array about its centre")
    ctx.trivial(num == 1)
    extra = {k: v for k, v in kw.items() if k in ("direction", "axis")}
    moved(case, lambda x: linear_array(x, num=num, spacing=sp, **extra), want, tol)
    p = as_np(sut(linear_array, torch.tensor(case["center"], dtype=torch.float64), num=num, spacing=sp * case["k"], **extra))
    same(p - np.asarray(case["center"], float), want * case["k"], tol * (1 + case["k"]), "array with scaled spacing")


@st.composite
def circular_cases(draw):
    c = draw(centre())
    dim = len(c["center"])
    c.update(num=draw(some(16)), radius=draw(gens.uniform(0.01, 2.0)),
             plane=draw(st.sampled_from([None, "xy", "xz", "yz", "XZ", "Yz"])), normal=draw(direction(3)) if dim == 3 and draw(st.booleans()) else None,
             n_rep=draw(st.sampled_from(["list", "float64", "float32"])), shift=draw(shift(dim)), k=draw(gens.uniform(0.2, 4.0)))
    return c


def run_circular(case, ctx):
    from torchrir.geometry import circular_array

    c, kw, num, r = give(case["center"], case["rep"]), kw_of(case), case["num"], case["radius"]
    extra = {}
    dim = len(case["center"])
    if case["plane"]:
        extra["plane"] = case["plane"]
    normal = {"xy": [0, 0, 1], "xz": [0, 1, 0], "yz": [1, 0, 0]}[(case["plane"] or "xy").lower()]
    if case["normal"] is not None:
        extra["normal"] = give(case["normal"], case["n_rep"])
        normal = case["normal"]
    d, tol = settle(case, keeping(circular_array, c, num=num, radius=r, **extra, **kw), num, r)
    if case["normal"] is not None:
        # directions within 1e-5 of an axis lose digits when a basis is built in single precision
        v = np.abs(np.asarray(normal, float))
        tilt = 1.0 if np.count_nonzero(v) == 1 else float(np.sort(v / v.max())[-2])
        low = tol > 1e-9 or case["n_rep"] == "float32"
        tol = tol + r * (1e-6 / max(tilt, 1e-5) * (1.0 if tilt < 0.1 else 4.0) if low else 1e-10)
        tol = min(tol, 0.15 * r + tol * 1e-3) if low else tol
    tol = tol * 2
    ctx.label(f"{dim}D", "normal" if case["normal"] is not None else f"plane {case['plane']}", case["rep"])
    ctx.trivial(num < 3)
    same(np.linalg.norm(d, axis=1), np.full(num, r), tol, "distance to the centre")
    if num > 1:
        same(d.mean(axis=0), np.zeros(dim), tol, "centroid")
        step = np.linalg.norm(np.roll(d, -1, axis=0) - d, axis=1)
        same(step, np.full(num, 2 * r * math.sin(math.pi / num)), 2 * tol, "distance between neighbouring microphones")
        dist = np.linalg.norm(d[:, None] - d[None], axis=-1)
        want = np.array([[2 * r * abs(math.sin(math.pi * (i - j) / num)) for j in range(num)] for i in range(num)])
        same(dist, want, 2 * tol, "mutual distances of a regular polygon")
    if dim == 3:
        n = np.asarray(normal, float) / np.linalg.norm(normal)
        same(d @ n, np.zeros(num), tol, f"distance from the plane with normal {normal}")
    moved(case, lambda x: circular_array(x, num=num, radius=r, **extra), d, 2 * tol)
    p = as_np(sut(circular_array, torch.tensor(case["center"], dtype=torch.float64), num=num, radius=r * case["k"], **extra))
    same(p - np.asarray(case["center"], float), d * case["k"], 2 * tol * (1 + case["k"]), "array with scaled radius")


def solid(kind):
    """Vertices on the unit sphere, built from textbook coordinates."""
    g = (1 + 5**0.5) / 2
    if kind == "tetrahedron":
        v = [(1, 1, 1), (1, -1, -1), (-1, 1, -1), (-1, -1, 1)]
    elif kind == "cube":
        v = [(x, y, z) for x in (1, -1) for y in (1, -1) for z in (1, -1)]
    elif kind == "octahedron":
        v = [tuple(s if i == k else 0 for i in range(3)) for k in range(3) for s in (1, -1)]
    elif kind == "icosahedron":
        v = []
        for a in (1, -1):
            for b in (g, -g):
                v += [(0, a, b), (a, b, 0), (b, 0, a)]
    else:
        v = [(x, y, z) for x in (1, -1) for y in (1, -1) for z in (1, -1)]
        for a in (1 / g, -1 / g):
            for b in (g, -g):
                v += [(0, a, b), (a, b, 0), (b, 0, a)]
    a = np.array(v, float)
    return a / np.linalg.norm(a, axis=1, keepdims=True)


def profile(p):
    """Rotation- and order-independent description: sorted distance rows, sorted."""
    d = np.sort(np.linalg.norm(p[:, None] - p[None], axis=-1), axis=1)
    return d


@st.composite
def poly_cases(draw):
    c = draw(centre(dims=(3,)))
    c.update(kind=draw(st.sampled_from(KINDS + ["em32", "em64"])), case=draw(st.sampled_from(["lower", "upper", "title"])),
             radius=draw(st.one_of(st.none(), gens.uniform(0.005, 1.5))), default_kind=draw(st.integers(0, 9)) == 0,
             az=draw(st.one_of(st.none(), gens.uniform(-400.0, 400.0), st.sampled_from([90, 180, -90, 360]))), shift=draw(shift(3)),
             k=draw(gens.uniform(0.2, 4.0)))
    return c


def run_poly(case, ctx):
    from torchrir import geometry

    c, kw, kind = give(case["center"], case["rep"]), kw_of(case), case["kind"]
    ctx.label(kind, case["rep"])
    extra = {}
    if kind.startswith("em"):
        fn = getattr(geometry, f"eigenmike_{kind}")
        theta, phi = (np.radians(np.asarray(a)) for a in getattr(eigenmike, f"EIGENMIKE_{kind.upper()}"))
        r = 0.042 if case["radius"] is None else case["radius"]
        if case["az"] is not None:
            extra["azimuth_offset_deg"] = case["az"]
            phi = phi + math.radians(case["az"])
        want = r * np.stack([np.sin(theta) * np.cos(phi), np.sin(theta) * np.sin(phi), np.cos(theta)], axis=-1)
        n = len(theta)
    else:
        fn = geometry.polyhedron_array
        r = 0.1 if case["radius"] is None else case["radius"]
        if case["default_kind"]:
            kind = "tetrahedron"
        else:
            extra["kind"] = getattr(kind, case["case"])() if case["case"] != "lower" else kind
        want = None
        n = len(solid(kind))
    rk = {} if case["radius"] is None else dict(radius=r)
    d, tol = settle(case, keeping(fn, c, **rk, **extra, **kw), n, r)
    if tol > 1e-9 and kind.startswith("em"):
        tol += r * 3e-6 * (1 + abs(case["az"] or 0) / 100)
    same(np.linalg.norm(d, axis=1), np.full(n, r), tol, "distance to the centre")
    if want is not None:
        same(d, want, tol, f"{kind} capsule positions")
    else:
        same(d.mean(axis=0), np.zeros(3), tol, "centroid")
        same(profile(d), np.broadcast_to(profile(solid(kind) * r)[0], (n, n)), 3 * tol, f"mutual distances of a regular {kind}")
    moved(case, lambda x: fn(x, **rk, **extra), d, 2 * tol)
    p = as_np(sut(fn, torch.tensor(case["center"], dtype=torch.float64), radius=r * case["k"], **extra))
    same(p - np.asarray(case["center"], float), d * case["k"], 3 * tol * (1 + case["k"]), "array with scaled radius")


@st.composite
def bad_cases(draw):
    return dict(kind=draw(st.sampled_from(["lin_num", "lin_spacing", "lin_axis", "lin_dir", "circ_num", "circ_radius", "circ_plane", "circ_dim",
                                           "circ_normal", "poly_kind", "poly_radius", "poly_dim", "em_radius", "em_dim"])),
                nonpos=draw(st.integers(-5, 0)), neg=draw(st.one_of(st.sampled_from([0, 0.0, -0.1]), gens.uniform(-3.0, 0.0))),
                dim=draw(st.sampled_from([2, 3])), off=draw(st.sampled_from([-1, -2, 0, 1, 5])), em=draw(st.sampled_from(["em32", "em64"])),
                word=draw(st.sampled_from(["", "yx", "x", "xyz", "cubes", "prism", "sphere", "zx"])), odd=draw(st.sampled_from([1, 4, 5])),
                rep=draw(st.sampled_from(["list", "float32"])))


def run_bad(case, ctx):
    from torchrir import geometry as g

    k, dim = case["kind"], case["dim"]
    c = give([1.0] * dim, case["rep"])
    c3 = give([1.0] * 3, case["rep"])
    em = getattr(g, f"eigenmike_{case['em']}")
    ctx.label(k)
    odd = give([1.0] * case["odd"], case["rep"])
    calls = dict(
        lin_num=lambda: g.linear_array(c, num=case["nonpos"], spacing=0.1),
        lin_spacing=lambda: g.linear_array(c, num=3, spacing=case["neg"]),
        lin_axis=lambda: g.linear_array(c, num=3, spacing=0.1, axis=case["off"] if case["off"] < 0 else dim + case["off"]),
        lin_dir=lambda: g.linear_array(c, num=3, spacing=0.1, direction=[1.0] * (5 - dim)),
        circ_num=lambda: g.circular_array(c, num=case["nonpos"], radius=0.1),
        circ_radius=lambda: g.circular_array(c, num=3, radius=case["neg"]),
        circ_plane=lambda: g.circular_array(c3, num=3, radius=0.1, plane=case["word"]),
        circ_dim=lambda: g.circular_array(odd, num=3, radius=0.1),
        circ_normal=lambda: g.circular_array(c3, num=3, radius=0.1, normal=[1.0] * (2 if dim == 2 else 4)),
        poly_kind=lambda: g.polyhedron_array(c3, kind=case["word"]),
        poly_radius=lambda: g.polyhedron_array(c3, radius=case["neg"]),
        poly_dim=lambda: g.polyhedron_array(give([1.0, 1.0], case["rep"]) if dim == 2 else odd),
        em_radius=lambda: em(c3, radius=case["neg"]),
        em_dim=lambda: em(give([1.0, 1.0], case["rep"]) if dim == 2 else odd),
    )
    expect_raises(ValueError, calls[k], what=f"{k} {case}")


CHECK = Check(
    id="C14",
    technique="property-based testing: geometric invariants and independent coordinates, translation and scaling relations",
    rule=("Cases are centres (integer and floating lists, tuples, tensors), counts, spacings, radii, axes, planes, directions and normals "
          "(axis-aligned of both signs, nearly aligned, arbitrary length), kinds in any case, azimuth offsets; non-trivial with several microphones."),
    laws=[
        Law("linear_and_binaural", linear_cases, run_linear, quick=4800, thorough=80000),
        Law("circular", circular_cases, run_circular, quick=6000, thorough=96000),
        Law("polyhedra_and_eigenmike", poly_cases, run_poly, quick=4800, thorough=80000),
        Law("invalid_rejected", bad_cases, run_bad, quick=2000, thorough=24000),
    ],
    assumptions=["The capsule tables of the Eigenmike arrays are those in the repository at the pinned commit."],
    note="Regular solids are recognised by their mutual-distance profile; Eigenmike capsules by a table embedded in the check.",
)
