"""C12: trajectory-mode dynamic convolution."""

from fractions import Fraction
import math

from hypothesis import strategies as st
import numpy as np
import torch

from .. import convlib, gens
from ..convlib import check_result, make, segmented, tol_for
from ..core import Check, Law, Violation, expect_raises, require, sut
from ..simlib import as_np, dt


@st.composite
def shapes(draw, max_t=12, many=False):
    n_src, n_mic = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    t = draw(st.one_of(st.integers(1, max_t), st.integers(1, 40)))
    n, rl = draw(st.one_of(st.integers(1, 12), convlib.lengths(60))), draw(st.one_of(st.integers(1, 6), convlib.lengths(30)))
    if many:
        kind = draw(st.sampled_from(["steps", "steps", "pairs", "both"]))
        if kind != "pairs":
            t = draw(st.sampled_from([65, 129, 200, 257, 513, 700] if kind == "both" else [65, 129, 257, 513, 1025, 2049, 4097, 5000]))
            n = draw(st.sampled_from([t // 2, t, t + 1, 2 * t, 3 * t + 5]))
            n_src, n_mic = (draw(st.sampled_from([(2, 3), (1, 5), (4, 1)])) if kind == "both" else (1, 1))
        else:
            n_src, n_mic = draw(st.sampled_from([(1, 20), (9, 9), (20, 1), (1, 70), (33, 3), (3, 33), (17, 17), (70, 1), (130, 1)]))
            t = draw(st.integers(1, 4))
    shared = draw(st.integers(0, 3)) == 0
    rdim = draw(st.sampled_from([4, 4, 3, 2]))
    if rdim <= 3:
        n_src = 1
    if rdim == 2:
        n_mic = 1
    sshape = [n] if (shared or n_src == 1) and draw(st.booleans()) else [1 if shared else n_src, n]
    rshape = {4: [t, n_src, n_mic, rl], 3: [t, n_mic, rl], 2: [t, rl]}[rdim]
    return dict(signal=draw(convlib.array(sshape)), rirs=draw(convlib.array(rshape)), n=n, t=t, rl=rl, n_src=n_src, n_mic=n_mic,
                sdt=draw(st.sampled_from(["float32", "float64"])), rdt=draw(st.sampled_from(["same", "same", "same", "float32", "float64"])),
                layout=[draw(st.sampled_from(convlib.LAYOUTS)) for _ in range(2)], constant=draw(st.integers(0, 4)) == 0,
                call=draw(st.booleans()))


@st.composite
def cases(draw, many=False):
    c = draw(shapes(many=many))
    n, t = c["n"], c["t"]
    ts = None
    if draw(st.booleans()):
        fs = draw(st.sampled_from([1.0, 10.0, 8000, 16000.0, 44100.0, 7919.0, 0.1]))
        kind = draw(st.sampled_from(["even", "random", "samples", "repeat"]))
        if kind == "even":
            times = [i * (n / fs) / max(1, t) for i in range(t)]
        elif kind == "random":
            times = sorted(np.random.default_rng(c["signal"]["seed"]).random(t - 1).tolist() if many else draw(st.lists(gens.frac(), min_size=t - 1, max_size=t - 1)))
            times = [0.0] + [x * n / fs for x in times]
        elif kind == "samples":
            times = [0.0] + sorted(k / fs for k in (np.random.default_rng(t).integers(0, n + 1, t - 1).tolist() if many else draw(st.lists(st.integers(0, n), min_size=t - 1, max_size=t - 1))))
        else:
            v = draw(gens.frac()) * n / fs
            times = [0.0] + [v] * (t - 1)
        ts = dict(times=times, fs=fs, rep=draw(st.sampled_from(["float64", "float64", "float32", "list"])))
    c["ts"] = ts
    return c


def operands(case):
    sdt = dt(case["sdt"])
    rdt = sdt if case["rdt"] == "same" else dt(case["rdt"])
    x = make(case["signal"], sdt, case["layout"][0])
    h = make(case["rirs"], rdt, case["layout"][1])
    if case["constant"]:
        h = h[:1].expand(h.shape)
    low = torch.float32 if torch.float32 in (sdt, rdt) else torch.float64
    xs = np.broadcast_to(as_np(x).reshape(-1, case["n"]), (case["n_src"], case["n"]))
    hs = as_np(h).reshape(case["t"], case["n_src"], case["n_mic"], case["rl"])
    tol = 4 * case["n_src"] * sum(tol_for(xs, hs[t], low) for t in range(case["t"]))
    return x, h, xs, hs, sdt, tol


def boundary_choices(case):
    """Segment starts: exact arithmetic or its floating-point evaluations."""
    n, t = case["n"], case["t"]
    if case["ts"] is None:
        opts = [[k * n // t for k in range(t)], [int(k * (n / t)) for k in range(t)], [int((k * n) / t) for k in range(t)]]
    else:
        times = stamps(case)
        fs = case["ts"]["fs"]
        vals = [float(v) for v in times] if torch.is_tensor(times) else times
        opts = [[math.floor(Fraction(v) * Fraction(fs)) for v in vals], [int(v * fs) for v in vals]]
    out = []
    for o in opts:
        o = o + [n]
        if o not in out:
            out.append(o)
    return out


def stamps(case):
    ts = case["ts"]
    return list(ts["times"]) if ts["rep"] == "list" else torch.tensor(ts["times"], dtype=torch.float64).to(dt(ts["rep"]))


def match_any(got, wants, sdt, tol, what):
    err = None
    for w in wants:
        try:
            check_result(got, w, sdt, tol, what)
            return
        except Violation as exc:
            err = err or exc
    raise err


def run(case, ctx):
    from torchrir.signal import DynamicConvolver, convolve_rir

    x, h, xs, hs, sdt, tol = operands(case)
    bounds = boundary_choices(case)
    kw = {}
    if case["ts"] is not None:
        if bounds[0][-2] > case["n"]:  # rounded to single precision past the end
            ctx.trivial()
            return
        kw = dict(timestamps=stamps(case), fs=case["ts"]["fs"])
    kx, kh = x.clone(), h.clone()
    conv = sut(DynamicConvolver, mode="trajectory", **kw) if case["ts"] or case["call"] else sut(DynamicConvolver)
    got = sut(conv if case["call"] else conv.convolve, x, h)
    require(torch.equal(x, kx) and torch.equal(h, kh), "inputs were modified")
    out_len = case["n"] + case["rl"] - 1
    wants = [segmented(xs, hs, b, out_len) for b in bounds]
    match_any(got, wants, sdt, tol, f"trajectory convolution, {case['t']} steps over {case['n']} samples")
    ctx.trivial(case["t"] == 1 or not np.abs(wants[0]).max() > 0)
    ctx.label("timestamps" if case["ts"] else "even steps", "more steps than samples" if case["t"] > case["n"] else "fewer steps",
              f"responses {h.ndim}D")
    if case["constant"]:
        ctx.label("constant")
        ref = sut(convolve_rir, x, h[0] if h.ndim == 4 or h.ndim == 3 else h[0])
        check_result(got, as_np(ref).reshape(case["n_mic"], -1), sdt, tol * 2, "constant responses against static convolution")
    # the batched variant used on accelerators, where the library has it
    import torchrir.signal.dynamic as dyn

    batched = getattr(dyn, "_convolve_dynamic_rir_trajectory_batched", None)
    if batched is not None and case["rdt"] == "same":
        b = bounds[0]
        ini = torch.tensor(b)
        try:
            alt = batched(x.reshape(-1, case["n"]).expand(case["n_src"], -1), h.reshape(case["t"], case["n_src"], case["n_mic"], case["rl"]),
                          w_ini=ini, w_len=ini[1:] - ini[:-1])
        except (TypeError, AttributeError):  # an internal helper may take other arguments
            return
        if torch.is_tensor(alt) and alt.numel() == wants[0].size:
            alt = alt.reshape(wants[0].shape) if case["n_mic"] > 1 else alt.reshape(-1)
        check_result(alt, wants[0], sdt, 4 * tol, "batched trajectory convolution")


@st.composite
def bad_cases(draw):
    t = draw(st.integers(2, 6))
    n = draw(st.integers(20, 60))
    return dict(t=t, n=n, kind=draw(st.sampled_from(["no_fs", "ndim", "count", "first", "decreasing", "beyond", "nan", "sources", "sources3d",
                                                     "mode", "rirs_ndim", "signal_ndim"])),
                fs=draw(st.sampled_from([1.0, 10.0, 8000.0])), extra=draw(st.sampled_from([-1, 1, 3])), n_src=draw(st.integers(2, 4)),
                i=draw(st.integers(1, t - 1)), which=draw(st.booleans()), far=draw(gens.uniform(2.0, 50.0)),
                mode=draw(st.sampled_from(["", "Trajectory", "hops", "static", "trajectory ", "HOP"])), rep=draw(st.sampled_from(["tensor", "list"])))


def run_bad(case, ctx):
    from torchrir.signal import DynamicConvolver

    k, t, n, fs, s = case["kind"], case["t"], case["n"], case["fs"], case["n_src"]
    x, h = torch.ones(s, n), torch.ones(t, s, 2, 5)
    times = [i * n / fs / t for i in range(t)]
    kw = dict(fs=fs)
    ctx.label(k)
    if k == "no_fs":
        kw = {}
    elif k == "count":
        m = t + case["extra"]
        times = [i * n / fs / (m + 1) for i in range(m)]
    elif k == "first":
        times = [v + (2.0 if case["which"] else 0.4) / fs * (1 if case["i"] % 2 else -1) for v in times]
    elif k == "decreasing":
        times[case["i"]] = -case["far"] / fs if case["which"] else times[case["i"] - 1] - 2.0 / fs
    elif k == "beyond":
        times[-1] = (n + case["far"]) / fs
    elif k == "nan":
        times[case["i"]] = float("nan")
    elif k == "sources":
        x = torch.ones(s + (1 if case["which"] else 2), n)
    elif k == "sources3d":
        h = torch.ones(t, 2, 5) if case["which"] else torch.ones(t, 5)
    elif k == "mode":
        expect_raises(ValueError, lambda: DynamicConvolver(mode=case["mode"]).convolve(x, h), what=f"mode {case['mode']!r}")
        return
    elif k == "rirs_ndim":
        h = torch.ones(5) if case["which"] else torch.ones(1, t, s, 2, 5)
    elif k == "signal_ndim":
        x = x.unsqueeze(0) if case["which"] else torch.tensor(1.0)
    ts = torch.tensor(times, dtype=torch.float64) if case["rep"] == "tensor" else times
    if k == "ndim":
        ts = torch.tensor([times], dtype=torch.float64)
    if k in ("sources", "sources3d", "rirs_ndim", "signal_ndim") and case["i"] % 2:
        expect_raises(ValueError, lambda: DynamicConvolver().convolve(x, h), what=k)
    else:
        expect_raises(ValueError, lambda: DynamicConvolver(timestamps=ts, **kw).convolve(x, h), what=k)


CHECK = Check(
    id="C12",
    technique="property-based testing: differential against a direct overlap-add model",
    rule=("Cases are signals of 1 to several hundred samples with 1-40 response steps of every accepted shape, evenly spaced or with "
          "generated timestamps (repeated, on and between samples); non-trivial with more than one step and a non-zero result."),
    laws=[Law("sum_of_segments", cases, run, quick=12000, thorough=120000),
          Law("many_steps", lambda: cases(many=True), run, quick=480, thorough=9000, rule="up to five thousand steps or three hundred pairs"),
          Law("invalid_rejected", bad_cases, run_bad, quick=2000, thorough=24000)],
    assumptions=["Segment starts may be evaluated exactly or in floating point where the two differ."],
    note="The batched accelerator variant is called directly on the CPU as well where the library has it.",
)
