"""C04: symmetries of shoebox acoustics (metamorphic relations between two simulations)."""

import math

from hypothesis import strategies as st
import numpy as np
import torch

from .. import gens, ism_model, scenes
from ..core import Check, Law, require, sut
from ..simlib import as_np, config, same, tens


def base(max_n=2, with_dir=True, surfaces=("beta", "beta", "none", "t60"), lens=None):
    return scenes.static(max_n=max_n, walls=True, with_dir=with_dir, surfaces=surfaces, lens=lens)


def no_step(case):
    """Half-omni is a step function: side-on images may go either way between two equivalent scenes."""
    if case["dir"]:
        for k in ("src", "mic"):
            if case["dir"][k] == "homni":
                case["dir"][k] = "subcardioid"
    return case


def tol_of(case, srcs=None, mics=None):
    """Both scenes round independently: allow the reference model's rounding tolerance twice."""
    _, tol = scenes.reference(case, srcs=srcs, mics=mics)
    return 2 * tol


def labels(case, ctx, *more):
    ctx.label("directional" if case["dir"] else "omni", f"{len(case['room']['size'])}D",
              "box" if case["limit"]["nb_img"] else "order", *more)
    ctx.trivial(not (case["limit"]["max_order"] or any(case["limit"]["nb_img"] or [])))


def moved(case, pos, vec, room, limit):
    """The transformed case; pos/vec map positions and direction vectors."""
    out = dict(case, room=room, limit=limit, srcs=[pos(p) for p in case["srcs"]], mics=[pos(p) for p in case["mics"]])
    if case["dir"]:
        out["dir"] = dict(case["dir"], src_dir=[vec(v) for v in case["dir"]["src_dir"]],
                          mic_dir=[vec(v) for v in case["dir"]["mic_dir"]])
    return out


# ------------------------------------------------------------------ reciprocity


@st.composite
def recip_cases(draw):
    c = no_step(draw(base(max_n=3)))
    c["dynamic"] = draw(st.booleans())
    return c


def _sim(case, dynamic=False):
    if dynamic:
        return as_np(scenes.run_dynamic(case, [case["srcs"]], [case["mics"]]))[0]
    return as_np(scenes.run_static(case))


def run_recip(case, ctx):
    d = case["dir"]
    swapped = dict(case, srcs=case["mics"], mics=case["srcs"])
    if d:
        swapped["dir"] = dict(src=d["mic"], mic=d["src"], src_dir=d["mic_dir"], mic_dir=d["src_dir"])
    labels(case, ctx, "dynamic" if case["dynamic"] else "static")
    a = _sim(case, case["dynamic"])
    b = _sim(swapped, case["dynamic"])
    same(np.swapaxes(b, 0, 1), a, tol_of(case), "responses with sources and microphones exchanged")


# ------------------------------------------------------------------ mirror / permutation


@st.composite
def mirror_cases(draw):
    c = no_step(draw(base()))
    c["axis"] = draw(st.integers(0, len(c["room"]["size"]) - 1))
    c["dynamic"] = draw(st.booleans())
    return c


def run_mirror(case, ctx):
    ax, room = case["axis"], dict(case["room"])
    length = room["size"][ax]
    if room["beta"]:
        b = list(room["beta"])
        b[2 * ax], b[2 * ax + 1] = b[2 * ax + 1], b[2 * ax]
        room["beta"] = b
    pos = lambda p: [length - x if i == ax else x for i, x in enumerate(p)]  # noqa: E731
    vec = lambda v: [-x if i == ax else x for i, x in enumerate(v)]  # noqa: E731
    other = moved(case, pos, vec, room, case["limit"])
    labels(case, ctx, f"axis{ax}")
    same(_sim(other, case["dynamic"]), _sim(case, case["dynamic"]), tol_of(case) + tol_of(other), f"scene mirrored along axis {ax}")


@st.composite
def perm_cases(draw):
    c = no_step(draw(base()))
    c["perm"] = draw(st.permutations(range(len(c["room"]["size"]))))
    c["dynamic"] = draw(st.booleans())
    return c


def run_perm(case, ctx):
    p, room = case["perm"], dict(case["room"])
    take = lambda v: [v[i] for i in p]  # noqa: E731
    room["size"] = take(room["size"])
    if room["beta"]:
        room["beta"] = [room["beta"][2 * i + k] for i in p for k in (0, 1)]
    limit = dict(case["limit"])
    if limit["nb_img"]:
        limit["nb_img"] = take(limit["nb_img"])
    other = moved(case, take, take, room, limit)
    labels(case, ctx)
    ctx.trivial(list(p) == sorted(p))
    same(_sim(other, case["dynamic"]), _sim(case, case["dynamic"]), tol_of(case) + tol_of(other), f"scene with axes permuted {p}")


# ------------------------------------------------------------------ scaling


@st.composite
def scale_cases(draw):
    c = no_step(draw(base(surfaces=("beta", "none"))))
    # the distance floor near zero does not scale
    c["srcs"] = [p for p in c["srcs"] if all(math.dist(p, m) > 1e-3 for m in c["mics"])] or None
    if c["srcs"] is None:
        c["srcs"] = [[0.5 * x + 0.01 for x in c["mics"][0]]]
        if any(math.dist(c["srcs"][0], m) <= 1e-3 for m in c["mics"]):
            c["mics"] = c["mics"][:1]
    if c["dir"]:
        c["dir"]["src_dir"] = [c["dir"]["src_dir"][0]] * len(c["srcs"])
        c["dir"]["mic_dir"] = [c["dir"]["mic_dir"][0]] * len(c["mics"])
    c["k"] = draw(st.one_of(gens.uniform(0.3, 4.0), st.sampled_from([2.0, 0.5])))
    return c


def run_scale(case, ctx):
    k, room = case["k"], dict(case["room"])
    room["size"] = [k * x for x in room["size"]]
    room["c"] = k * room["c"]
    other = moved(case, lambda p: [k * x for x in p], lambda v: v, room, case["limit"])
    labels(case, ctx)
    ctx.trivial(k == 1.0)
    same(k * _sim(other), _sim(case), tol_of(case) + k * tol_of(other), f"scene scaled by {k}")


# ------------------------------------------------------------------ limits


@st.composite
def limit_cases(draw):
    c = draw(base(lens=st.integers(200, 1200)))
    dim = len(c["room"]["size"])
    c["more"] = draw(st.lists(st.integers(0, 2), min_size=dim, max_size=dim))
    if not any(c["more"]):
        c["more"][draw(st.integers(0, dim - 1))] = 1
    if draw(st.booleans()):
        # include long responses of high-order limits
        c["limit"] = dict(max_order=draw(st.integers(0, 4)), nb_img=None)
    c["dynamic"] = draw(st.booleans())
    return c


def run_limit(case, ctx):
    room, dim = case["room"], len(case["room"]["size"])
    lim = case["limit"]
    if lim["nb_img"]:
        bigger = dict(max_order=lim["max_order"], nb_img=[a + b for a, b in zip(lim["nb_img"], case["more"])])
    else:
        bigger = dict(max_order=lim["max_order"] + max(case["more"]), nb_img=None)
    small, large = _sim(case, case["dynamic"]), _sim(dict(case, limit=bigger), case["dynamic"])
    extra = sorted(set(map(tuple, ism_model.indices(dim, **bigger))) - set(map(tuple, ism_model.indices(dim, **lim))))
    fdl2 = (case["fdl"] - 1) // 2
    peak = max(1.0, np.abs(large).max())
    seen = False
    for i, s in enumerate(case["srcs"]):
        for j, m in enumerate(case["mics"]):
            dist, _, _ = ism_model.contributions(room["size"], [1.0] * (2 * dim), extra, s, m)
            first = int(math.floor(dist.min() / room["c"] * room["fs"])) - fdl2 - 1
            n = max(0, min(case["nsample"], first))
            seen |= n > fdl2
            same(large[i, j, :n], small[i, j, :n], 1e-9 * peak, f"pair {i},{j}: samples before the first additional image")
    ctx.trivial(not seen)
    ctx.label("directional" if case["dir"] else "omni", "box" if lim["nb_img"] else "order")


@st.composite
def cover_cases(draw):
    room = draw(gens.rooms(surfaces=("beta", "none"), fs=st.sampled_from([4000.0, 8000.0, 16000.0])))
    if draw(st.booleans()):
        room["size"] = [float(round(x)) for x in room["size"]]  # commensurate sizes reach the ceiling exactly
        room["c"] = 343.0
    dim = len(room["size"])
    top = (8 if dim == 2 else 4) * min(room["size"]) / room["c"]
    t = draw(gens.uniform(0.15, 1.0)) * top
    if draw(st.integers(0, 3)) == 0:
        t = draw(st.integers(1, 4)) * draw(st.sampled_from(room["size"])) / room["c"]
    src, mic = draw(gens.point(room["size"], walls=True)), draw(gens.point(room["size"], walls=True))
    if draw(st.booleans()):  # the worst case along one axis: the first image beyond the counts is as near as it gets
        k = draw(st.integers(0, dim - 1))
        low = draw(st.booleans())
        eps = draw(st.sampled_from([0.0, 0.001, 0.03]))
        src = [m if i != k else (eps if low else 1 - eps) * room["size"][k] for i, m in enumerate(mic)]
        mic = [m if i != k else (1 - eps if low else eps) * room["size"][k] for i, m in enumerate(mic)]
        t = max(0.1, draw(st.integers(1, 3)) + draw(gens.uniform(-0.4, 0.6))) * room["size"][k] / room["c"]
    return dict(room=room, tmax=t, src=src, mic=mic,
                f32=draw(st.booleans()))


def run_cover(case, ctx):
    from torchrir.util.acoustics import estimate_image_counts_from_tmax

    room = case["room"]
    dtype = torch.float32 if case["f32"] else torch.float64
    nb = sut(estimate_image_counts_from_tmax, case["tmax"], tens(room["size"], dtype), room["c"])
    n = max(20, math.ceil(case["tmax"] * room["fs"]))
    c = dict(room=room, srcs=[case["src"]], mics=[case["mic"]], dir=None, nsample=n, fdl=21)

    def go(k):
        return as_np(scenes.run_static(dict(c, limit=dict(max_order=0, nb_img=k))))[0, 0]

    counts = [int(v) for v in nb]
    a, b = go(counts), go([v + 2 for v in counts])
    keep = max(0, int(math.floor(case["tmax"] * room["fs"])) - 1)  # an excluded image starts no earlier than tmax
    ctx.trivial(keep < 10)
    ctx.label(f"{len(room['size'])}D")
    # single-precision counts may lose the last image when the ratio is integral
    same(a[:keep], b[:keep], 1e-9 * max(1.0, np.abs(b).max()), "response of the estimated image counts within the duration")


CHECK = Check(
    id="C04",
    technique="property-based testing: metamorphic relations (reciprocity, mirror, permutation, scaling, limit monotonicity)",
    rule=("Cases are scenes (2D/3D, asymmetric walls, order/box limits, directivity, static or one-step dynamic) with a "
          "transformation; non-trivial when reflections are included and the transformation is not the identity; limit "
          "cases when an excluded image arrives after the start of the response."),
    note="No expected values: each relation compares two simulations; half-omni (a step function) is left to C05.",
    laws=[
        Law("reciprocity", recip_cases, run_recip, quick=1000, thorough=24000),
        Law("mirror", mirror_cases, run_mirror, quick=800, thorough=20000),
        Law("axis_permutation", perm_cases, run_perm, quick=800, thorough=20000),
        Law("scaling", scale_cases, run_scale, quick=600, thorough=16000),
        Law("limit_monotone", limit_cases, run_limit, quick=600, thorough=16000),
        Law("estimated_counts_cover", cover_cases, run_cover, quick=600, thorough=16000),
    ],
)
