"""C13: hop-mode dynamic convolution."""

import math

from hypothesis import strategies as st
import numpy as np
import torch

from ..convlib import check_result, segmented
from ..core import Check, Law, expect_raises, require, sut
from ..simlib import as_np
from . import c12


@st.composite
def cases(draw, many=False):
    c = draw(c12.shapes(max_t=8, many=many))
    if many:
        c["hop"] = draw(st.sampled_from([max(1, c["n"] // c["t"]), max(1, c["n"] // c["t"]), 1, 2, max(1, -(-c["n"] // c["t"])), c["n"] // 2 + 1]))
        return c
    c["hop"] = draw(st.one_of(st.integers(1, 12), st.integers(1, 80), st.sampled_from([c["n"], max(1, c["n"] - 1), c["n"] + 1,
                                                                                         max(1, c["n"] // max(1, c["t"]))])))
    return c


def run(case, ctx):
    from torchrir.signal import DynamicConvolver, convolve_rir

    x, h, xs, hs, sdt, tol = c12.operands(case)
    n, hop, rl = case["n"], case["hop"], case["rl"]
    kx, kh = x.clone(), h.clone()
    conv = sut(DynamicConvolver, mode="hop", hop=hop)
    got = sut(conv if case["call"] else conv.convolve, x, h)
    require(torch.equal(x, kx) and torch.equal(h, kh), "inputs were modified")
    frames = min(case["t"], math.ceil(n / hop))
    bounds = [min(n, k * hop) for k in range(frames)] + [min(n, frames * hop)]
    want = segmented(xs, hs[:frames], bounds, frames * hop + rl - 1)
    check_result(got, want, sdt, tol, f"hop convolution, hop {hop}, {case['t']} steps over {n} samples")
    ctx.trivial(frames < 2 or not np.abs(want).max() > 0)
    ctx.label("too few steps" if case["t"] * hop < n else "enough steps", "partial last frame" if n % hop else "whole frames",
              f"responses {h.ndim}D")
    if case["constant"] and case["t"] * hop >= n:
        ref = as_np(sut(convolve_rir, x, h[0])).reshape(case["n_mic"], -1)
        pad = np.zeros((case["n_mic"], frames * hop + rl - 1))
        pad[:, : ref.shape[1]] = ref
        check_result(got, pad, sdt, 2 * tol, "constant responses against static convolution followed by zeros")
        ctx.label("constant")


@st.composite
def bad_cases(draw):
    return dict(kind=draw(st.sampled_from(["none", "zero", "sources", "sources3d", "mode", "rirs_ndim", "signal_ndim"])),
                hop=draw(st.integers(-50, 0)), t=draw(st.integers(1, 5)), n=draw(st.integers(1, 40)), n_src=draw(st.integers(2, 4)),
                which=draw(st.booleans()), mode=draw(st.text("hoptrajecy ", max_size=5)))


def run_bad(case, ctx):
    from torchrir.signal import DynamicConvolver

    k, t, n, s = case["kind"], case["t"], case["n"], case["n_src"]
    x, h = torch.ones(s, n), torch.ones(t, s, 2, 5)
    kw = dict(mode="hop", hop=7)
    ctx.label(k)
    if k == "none":
        kw["hop"] = None
    elif k == "zero":
        kw["hop"] = case["hop"]
    elif k == "sources":
        x = torch.ones(s + (1 if case["which"] else 2), n)
    elif k == "sources3d":
        h = torch.ones(t, 2, 5) if case["which"] else torch.ones(t, 5)
    elif k == "mode":
        if case["mode"] in ("hop", "trajectory"):
            ctx.trivial()
            return
        kw["mode"] = case["mode"]
    elif k == "rirs_ndim":
        h = torch.ones(5) if case["which"] else torch.ones(1, t, s, 2, 5)
    else:
        x = x.unsqueeze(0) if case["which"] else torch.tensor(1.0)
    expect_raises(ValueError, lambda: DynamicConvolver(**kw).convolve(x, h), what=f"{k} {kw}")


CHECK = Check(
    id="C13",
    technique="property-based testing: differential against a direct overlap-add model",
    rule=("Cases are signals of 1 to several hundred samples, hops below, at and above the signal length, 1-40 response steps of every "
          "accepted shape; non-trivial with at least two frames and a non-zero result."),
    laws=[Law("sum_of_frames", cases, run, quick=12000, thorough=120000),
          Law("many_frames", lambda: cases(many=True), run, quick=480, thorough=9000, rule="up to five thousand frames or three hundred pairs"),
          Law("invalid_rejected", bad_cases, run_bad, quick=1600, thorough=20000)],
    note="Frames are convolved in the time domain in double precision by the oracle.",
)
