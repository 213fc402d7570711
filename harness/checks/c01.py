"""C01: static RIR against the reference image-source model."""

import math

from hypothesis import strategies as st
import numpy as np

from .. import gens, ism_model
from ..core import Check, Law, require, sut
from ..simlib import as_np, config, dt, eps_for, make_room, same, tens


@st.composite
def cases(draw, lut=False, dtype="float64"):
    room = draw(gens.rooms())
    dim = len(room["size"])
    lim = draw(gens.limits(dim))
    fdl = draw(st.one_of(st.just(81), st.integers(0, 60).map(lambda k: 2 * k + 1)))
    if lut and fdl < 5:
        fdl = 5
    return dict(
        room=room, limit=lim,
        srcs=draw(gens.entities(room["size"], walls=True)),
        mics=draw(gens.entities(room["size"], walls=True)),
        nsample=draw(st.one_of(st.integers(200, 1500), st.integers(200, 1500), st.integers(600, 2500), st.integers(1, 60))),
        fdl=fdl, lut=draw(st.sampled_from([20, 20, 7, 1, 64, 200])) if lut else None,
        dtype=dtype,
        raw=draw(st.booleans()),
        img_chunk=draw(st.sampled_from([2048, 2048, 1, 17])),
        acc_chunk=draw(st.sampled_from([4096, 4096, 1, 13])),
    )


def run(case, ctx):
    from torchrir import MicrophoneArray, Source
    from torchrir.sim import simulate_rir

    room = case["room"]
    dtype = dt(case["dtype"])
    srcs, mics = tens(case["srcs"], dtype), tens(case["mics"], dtype)
    if not case["raw"]:
        srcs, mics = Source.from_positions(srcs), MicrophoneArray.from_positions(mics)
    cfg = config(frac_delay_length=case["fdl"], use_lut=case["lut"] is not None,
                 sinc_lut_granularity=case["lut"] or 20,
                 image_chunk_size=case["img_chunk"], accumulate_chunk_size=case["acc_chunk"])
    got = sut(simulate_rir, room=make_room(room, dtype), sources=srcs, mics=mics, config=cfg,
              nsample=case["nsample"], max_order=case["limit"]["max_order"], nb_img=case["limit"]["nb_img"])
    require(got.dtype == dtype, f"dtype {got.dtype}, inputs {dtype}")
    ref, tol = ism_model.rir(
        room["size"], case["srcs"], case["mics"], beta=room["beta"], t60=room["t60"], fs=room["fs"], c=room["c"],
        nsample=case["nsample"], fdl=case["fdl"], lut_gran=case["lut"], **case["limit"], **eps_for(case["dtype"]))
    ctx.label("2D" if len(room["size"]) == 2 else "3D", "box" if case["limit"]["nb_img"] else "order",
              "beta" if room["beta"] else "t60" if room["t60"] else "rigid")
    # non-trivial: at least one reflected image reaches the response
    ctx.trivial(not (abs(ref) > 0).any() or not (case["limit"]["max_order"] or any(case["limit"]["nb_img"] or [])))
    same(as_np(got), ref, tol, "static response")


@st.composite
def single_wall(draw):
    """One reflecting wall in an otherwise anechoic room: isolates each coefficient."""
    dim = draw(st.sampled_from([2, 3]))
    size = draw(gens.sizes(dim, hi=5.0))
    src = draw(gens.point(size))
    mic = draw(gens.point(size).filter(lambda m: math.dist(m, src) > 0.01))
    wall = draw(st.integers(0, 2 * dim - 1))
    return dict(size=size, wall=wall, b=draw(gens.uniform(0.05, 1.0)), src=src, mic=mic,
                order=draw(st.integers(1, 3)), fs=draw(st.sampled_from([8000.0, 16000.0])))


def run_wall(case, ctx):
    from torchrir.sim import simulate_rir

    size, fs = case["size"], case["fs"]
    beta = [0.0] * (2 * len(size))
    beta[case["wall"]] = case["b"]
    room = dict(size=size, fs=fs, c=343.0, beta=beta, t60=None)
    n = int(fs * 3.2 * sum(size) / 343.0) + 100
    got = sut(simulate_rir, room=make_room(room), sources=tens([case["src"]]), mics=tens([case["mic"]]),
              max_order=case["order"], nsample=n, config=config(use_lut=False))
    # direct computation: only the direct path and the single mirror image exist
    ax, hi = divmod(case["wall"], 2)
    image = list(case["src"])
    image[ax] = 2 * size[ax] * hi - image[ax]
    ref = np.zeros(n)
    for pos, g in ((case["src"], 1.0), (image, case["b"])):
        d = math.dist(pos, case["mic"])
        s = d / 343.0 * fs + 40
        i0 = math.floor(s)
        for k in range(81):
            t = i0 - 40 + k
            if 0 <= t < n:
                ref[t] += g / d * np.sinc(k - 40 - (s - i0)) * (0.5 - 0.5 * math.cos(2 * math.pi * k / 80))
    ctx.label(f"{len(size)}D-wall{case['wall']}")
    same(as_np(got)[0, 0], ref, 1e-7 + _near(case, image, fs), "single reflecting wall")


def _near(case, image, fs):
    tol = 0.0
    for pos in (case["src"], image):
        d = math.dist(pos, case["mic"])
        f = (d / 343.0 * fs) % 1.0
        if min(f, 1 - f) < 1e-8:
            tol += 0.05 / d
    return tol


@st.composite
def t60_cases(draw):
    room = draw(gens.rooms(surfaces=("t60", "none")))
    return dict(room=room, src=draw(gens.point(room["size"])), mic=draw(gens.point(room["size"])),
                order=draw(st.integers(0, 4)))


def run_t60(case, ctx):
    """A T60 room equals the room with the Sabine coefficients; no coefficients equals all ones."""
    from torchrir.sim import simulate_rir

    room = case["room"]
    explicit = dict(room, t60=None, beta=ism_model.resolve_beta(room["size"], None, room["t60"]))
    kw = dict(sources=tens([case["src"]]), mics=tens([case["mic"]]), max_order=case["order"], nsample=700, config=config())
    a = as_np(sut(simulate_rir, room=make_room(room), **kw))
    b = as_np(sut(simulate_rir, room=make_room(explicit), **kw))
    ctx.label("t60" if room["t60"] else "none")
    same(a, b, 1e-9 * max(1.0, abs(b).max()), "response with derived wall coefficients")


@st.composite
def far_cases(draw):
    """Arrivals many thousands of samples away: large rooms, high rates, slow sound, long responses."""
    dim = draw(st.sampled_from([2, 3]))
    fs = draw(st.sampled_from([8000.0, 44100.0, 48000.0, 96000.0, 192000.0]))
    c = draw(st.sampled_from([343.0, 343.0, 1480.0, 30.0]))
    arrival = draw(st.sampled_from([33000, 66500, 40000, 132000, 17000, 70001]))
    length = arrival * c / fs  # the direct path is about this long
    size = [length * 1.15] + [length * draw(gens.uniform(0.2, 0.9)) for _ in range(dim - 1)]
    near, far = draw(gens.uniform(0.01, 0.08)), draw(gens.uniform(0.9, 0.99))
    src = [size[0] * near] + [v * draw(gens.frac()) for v in size[1:]]
    mics = [[size[0] * far] + [v * draw(gens.frac()) for v in size[1:]], draw(gens.point(size))]
    if draw(st.booleans()):
        mics.reverse()
    return dict(room=dict(size=size, fs=fs, c=c, beta=[draw(gens.uniform(0.2, 1.0)) for _ in range(2 * dim)], t60=None),
                limit=dict(max_order=draw(st.sampled_from([1, 1, 2, 0])), nb_img=None), srcs=[src], mics=mics, dtype="float64", raw=True,
                nsample=int(arrival * draw(gens.uniform(1.05, 1.6))), fdl=draw(st.sampled_from([81, 41, 161])),
                lut=draw(st.sampled_from([None, None, 20])), img_chunk=2048, acc_chunk=draw(st.sampled_from([4096, 13])))


@st.composite
def high_cases(draw):
    """Thousands of images, dozens of reflections along one axis."""
    dim = draw(st.sampled_from([2, 2, 3]))
    size = [draw(gens.uniform(0.4, 3.0)) for _ in range(dim)]
    kind = draw(st.sampled_from(["order", "order", "long box", "box"]))
    if kind == "order":
        lim = dict(max_order=draw(st.sampled_from([20, 33, 46, 50] if dim == 2 else [9, 13, 16])), nb_img=None)
    elif kind == "long box":
        nb = [0] * dim
        nb[draw(st.integers(0, dim - 1))] = draw(st.sampled_from([17, 40, 70, 130, 300]))
        lim = dict(max_order=0, nb_img=nb)
    else:
        lim = dict(max_order=0, nb_img=[33, 36] if dim == 2 else [8, 7, 9])
    room = dict(size=size, fs=draw(st.sampled_from([2000.0, 8000.0, 16000.0])), c=343.0, t60=None, beta=None)
    room["beta"] = [draw(st.one_of(gens.uniform(0.9, 1.0), gens.uniform(0.3, 1.0))) for _ in range(2 * dim)]
    return dict(room=room, limit=lim, srcs=[draw(gens.point(size))], mics=[draw(gens.point(size))], dtype="float64", raw=True,
                nsample=draw(st.sampled_from([500, 1500, 3000])), fdl=draw(st.sampled_from([81, 21])),
                lut=draw(st.sampled_from([None, None, 20])), img_chunk=draw(st.sampled_from([2048, 2048, 100])), acc_chunk=draw(st.sampled_from([4096, 4096, 300])))


@st.composite
def many_cases(draw):
    """Dozens of sources and microphones: every pair has its own response."""
    room = draw(gens.rooms())
    dim = len(room["size"])
    n_src, n_mic = draw(st.sampled_from([(1, 33), (17, 5), (3, 70), (40, 2), (9, 9), (1, 129), (130, 1), (20, 33), (5, 51)]))
    g = np.random.default_rng(draw(st.integers(0, 10**6)))
    return dict(room=room, limit=dict(max_order=draw(st.sampled_from([1, 1, 2 if n_src * n_mic < 200 else 1, 0])), nb_img=None),
                srcs=(np.array(room["size"]) * g.uniform(0.02, 0.98, (n_src, dim))).tolist(),
                mics=(np.array(room["size"]) * g.uniform(0.02, 0.98, (n_mic, dim))).tolist(),
                nsample=draw(st.integers(150, 900)), fdl=draw(st.sampled_from([81, 21])), lut=None, dtype="float64",
                raw=draw(st.booleans()), img_chunk=draw(st.sampled_from([2048, 2048, 3])), acc_chunk=draw(st.sampled_from([4096, 4096, 5])))


RULE = ("Cases are rooms (2D/3D, prime-grid sizes, asymmetric/zero/one coefficients, T60, rigid), source and microphone "
        "sets (some on walls), image limits (order or box), lengths, filter lengths, table granularity, dtype; "
        "non-trivial when at least one reflected image contributes inside the response.")

CHECK = Check(
    id="C01", rule=RULE,
    technique="property-based testing: differential against an independent image-source reference model",
    note=("Thousands of generated scenes per run compared sample by sample with a separately written reference, with a "
          "computed rounding/interpolation tolerance. Trusts numpy and the reference model in harness/ism_model.py."),
    laws=[
        Law("direct_f64", lambda: cases(), run, quick=3200, thorough=80000),
        Law("lut_f64", lambda: cases(lut=True), run, quick=1600, thorough=40000),
        Law("direct_f32", lambda: cases(dtype="float32"), run, quick=1000, thorough=24000),
        Law("lut_f32", lambda: cases(lut=True, dtype="float32"), run, quick=600, thorough=16000),
        Law("single_wall", single_wall, run_wall, quick=1200, thorough=20000),
        Law("far_arrivals", far_cases, run, quick=72, thorough=1600, shards=6,
            rule="a sound arrives 17 000 to 130 000 samples into the response and reflections follow it"),
        Law("many_images", high_cases, run, quick=60, thorough=1200, shards=6,
            rule="17 to 300 reflections along an axis or 1000 to 5600 images, of which some arrive inside the response"),
        Law("many_pairs", many_cases, run, quick=90, thorough=1600, shards=6, rule="33 to 660 source-microphone pairs, at least one with a reflection"),
        Law("derived_coefficients", t60_cases, run_t60, quick=600, thorough=12000),
    ],
    assumptions=["Image delays within rounding of an integer sample may be placed on either side (the tolerance covers both).",
                 "Sources and microphones lie inside the room or on its walls; GPU back ends are not present here."],
)
