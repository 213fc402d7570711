"""C11: static convolution."""

from hypothesis import strategies as st
import numpy as np
import torch

from .. import convlib, gens
from ..convlib import check_result, conv, make, tol_for
from ..core import Check, Law, expect_raises, require, sut
from ..simlib import as_np, dt, same


@st.composite
def cases(draw, many=False):
    n_src, n_mic = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    if many:
        n_src, n_mic = draw(st.sampled_from([(1, 20), (9, 9), (20, 1), (1, 70), (33, 3), (3, 33), (17, 17), (70, 1), (130, 2), (2, 130), (1, 300), (260, 1)]))
    n, rl = draw(convlib.lengths()), draw(convlib.lengths())
    shared = draw(st.integers(0, 3)) == 0
    rdim = draw(st.sampled_from([3, 3, 2, 1]))
    if rdim <= 2:
        n_src = 1
    if rdim == 1:
        n_mic = 1
    sshape = [n] if (shared or n_src == 1) and draw(st.booleans()) else [1 if shared else n_src, n]
    rshape = {3: [n_src, n_mic, rl], 2: [n_mic, rl], 1: [rl]}[rdim]
    return dict(signal=draw(convlib.array(sshape)), rirs=draw(convlib.array(rshape)), n_src=n_src, n_mic=n_mic,
                sdt=draw(st.sampled_from(["float32", "float64"])), rdt=draw(st.sampled_from(["same", "same", "same", "float32", "float64"])),
                layout=[draw(st.sampled_from(convlib.LAYOUTS)) for _ in range(2)], k=draw(gens.uniform(-2.0, 2.0)),
                other=draw(st.integers(0, 10**6)))


def run(case, ctx):
    from torchrir.signal import convolve_rir, fft_convolve

    sdt = dt(case["sdt"])
    rdt = sdt if case["rdt"] == "same" else dt(case["rdt"])
    low = torch.float32 if torch.float32 in (sdt, rdt) else torch.float64
    x = make(case["signal"], sdt, case["layout"][0])
    h = make(case["rirs"], rdt, case["layout"][1])
    kx, kh = x.clone(), h.clone()
    got = sut(convolve_rir, x, h)
    require(torch.equal(x, kx) and torch.equal(h, kh), "inputs were modified")
    xs = as_np(x).reshape(-1, x.shape[-1])
    hs = as_np(h).reshape(case["n_src"], case["n_mic"], -1)
    xs = np.broadcast_to(xs, (case["n_src"], xs.shape[1]))
    want = np.stack([sum(conv(xs[s], hs[s, m]) for s in range(case["n_src"])) for m in range(case["n_mic"])])
    tol = case["n_src"] * tol_for(xs, hs, low)
    check_result(got, want, sdt, tol, f"convolution of {tuple(x.shape)} with {tuple(h.shape)}")
    ctx.trivial(not np.abs(want).max() > 0)
    ctx.label(f"signal {x.ndim}D", f"responses {h.ndim}D", "shared signal" if xs.shape[0] > 1 and x.numel() == xs.shape[1] else "own signals",
              case["signal"]["kind"])
    # linearity in each argument
    x2 = make(dict(case["signal"], seed=case["other"], kind="noise"), sdt)
    h2 = make(dict(case["rirs"], seed=case["other"], kind="noise"), rdt)
    k = case["k"]
    big = np.linalg.norm(xs) + np.linalg.norm(as_np(x2))
    bigh = np.linalg.norm(hs) + np.linalg.norm(as_np(h2))
    ltol = 4 * case["n_src"] * (1 + abs(k)) * (tol_for(np.full(xs.shape[-1], big), np.full(hs.shape[-1], bigh), low))
    same(as_np(sut(convolve_rir, x * k + x2, h)), k * as_np(got) + as_np(sut(convolve_rir, x2, h)), ltol, "linearity in the signal")
    same(as_np(sut(convolve_rir, x, h * k + h2)), k * as_np(got) + as_np(sut(convolve_rir, x, h2)), ltol, "linearity in the responses")
    row, resp = x.reshape(-1, x.shape[-1])[0], h.reshape(-1, h.shape[-1])[-1]
    same(as_np(sut(fft_convolve, row, resp)), conv(as_np(row), as_np(resp)), tol_for(as_np(row), as_np(resp), low), "single convolution")


@st.composite
def long_cases(draw):
    lo, hi = draw(st.sampled_from([(500, 5000), (5000, 40000), (30000, 70000), (60000, 140000), (130000, 300000)]))
    n = draw(st.one_of(st.integers(lo, hi), st.sampled_from([4096, 8192, 16384, 32768, 65536, 131072]).flatmap(lambda b: st.integers(b - 3, b + 9))))
    rl = draw(st.one_of(st.integers(1, 30), st.integers(100, 3000)))
    if draw(st.booleans()) and n * rl < 3e8:
        n, rl = rl, n
    n_src = draw(st.sampled_from([1, 1, 2]))
    return dict(signal=dict(shape=[n_src, n], kind=draw(st.sampled_from(["noise", "gaps", "quiet"])), seed=draw(st.integers(0, 10**6))),
                rirs=dict(shape=[n_src, 1, rl], kind="noise", seed=draw(st.integers(0, 10**6))),
                sdt=draw(st.sampled_from(["float32", "float64"])))


def run_long(case, ctx):
    from torchrir.signal import convolve_rir

    sdt = dt(case["sdt"])
    x, h = make(case["signal"], sdt), make(case["rirs"], sdt)
    got = sut(convolve_rir, x, h)
    xs, hs = as_np(x), as_np(h)
    want = sum(conv(xs[s], hs[s, 0]) for s in range(len(xs)))[None]
    check_result(got, want, sdt, len(xs) * tol_for(xs, hs, sdt), f"convolution of {tuple(x.shape)} with {tuple(h.shape)}")
    n = max(x.shape[-1], h.shape[-1])
    ctx.label("over 65536 samples" if n > 65536 else "over 16384 samples" if n > 16384 else "shorter")


@st.composite
def bad_cases(draw):
    n_src = draw(st.integers(2, 4))
    return dict(kind=draw(st.sampled_from(["count", "count2d", "signal_ndim", "rirs_ndim", "fft_ndim"])), n_src=n_src,
                wrong=draw(st.integers(2, 6)), n=draw(st.integers(1, 9)), rl=draw(st.integers(1, 9)), which=draw(st.booleans()),
                n_mic=draw(st.integers(1, 3)))


def run_bad(case, ctx):
    from torchrir.signal import convolve_rir, fft_convolve

    n, rl, k, n_mic = case["n"], case["rl"], case["kind"], case["n_mic"]
    wrong = case["wrong"] if case["wrong"] != case["n_src"] else case["wrong"] + 1
    x, h = torch.ones(case["n_src"], n), torch.ones(case["n_src"], n_mic, rl)
    ctx.label(k)
    if k == "count":
        x = torch.ones(wrong, n)
    elif k == "count2d":  # two-dimensional responses belong to one source
        h = torch.ones(n_mic, rl) if case["which"] else torch.ones(rl)
    elif k == "signal_ndim":
        x = torch.ones(1, case["n_src"], n) if case["which"] else torch.tensor(1.0)
    elif k == "rirs_ndim":
        h = h.unsqueeze(0) if case["which"] else torch.tensor(1.0)
    else:
        a, b = torch.ones(n), torch.ones(rl)
        a, b = (a.unsqueeze(0), b) if case["which"] else (a, b.unsqueeze(0))
        expect_raises(ValueError, fft_convolve, a, b, what="two-dimensional operand")
        return
    expect_raises(ValueError, convolve_rir, x, h, what=f"{k}: signal {tuple(x.shape)}, responses {tuple(h.shape)}")


CHECK = Check(
    id="C11",
    technique="property-based testing: differential against direct time-domain convolution, plus linearity relations",
    rule=("Cases are signals and responses of every accepted shape, lengths 1 to about a thousand clustered at powers of two (one law up to 300,000 samples), levels from 1e-9 to 1e3 with silent stretches, single, double "
          "and mixed precision, contiguous and strided; non-trivial when the result is not all zero."),
    laws=[Law("equals_linear_convolution", cases, run, quick=12000, thorough=160000),
          Law("many_pairs", lambda: cases(many=True), run, quick=640, thorough=12000, rule="up to three hundred source-microphone pairs"),
          Law("long_signals", long_cases, run_long, quick=256, thorough=4800),
          Law("invalid_rejected", bad_cases, run_bad, quick=1200, thorough=16000)],
    note="The oracle convolves in the time domain in double precision; the tolerance is an FFT rounding bound.",
)
