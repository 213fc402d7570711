"""Signals and responses for the convolution checks, and a direct (non-FFT) float64 oracle."""

from __future__ import annotations

import numpy as np
import torch
from hypothesis import strategies as st

from .core import require
from .simlib import as_np, same

KINDS = ["noise", "noise", "impulse", "constant", "ramp", "zeros", "loud", "quiet", "tiny", "gaps", "dynamic range"]
SCALE = {"loud": 1000.0, "quiet": 3e-5, "tiny": 1e-9}


def lengths(hi=120):
    """Short lengths, lengths around powers of two, and occasionally long ones."""
    return st.one_of(st.integers(1, hi), st.integers(1, 8),
                     st.tuples(st.integers(3, 7), st.integers(-1, 2)).map(lambda t: 2 ** t[0] + t[1]),
                     st.integers(hi, 8 * hi) if hi > 60 else st.integers(1, hi))


@st.composite
def array(draw, shape):
    return dict(shape=list(shape), kind=draw(st.sampled_from(KINDS)), seed=draw(st.integers(0, 10**6)))


def make(spec, dtype, layout="plain"):
    """Tensor with the given contents; layout varies strides without changing values."""
    shape = tuple(spec["shape"])
    rng = np.random.default_rng(spec["seed"])
    kind = spec["kind"]
    if kind in ("noise", "loud", "quiet", "tiny"):
        a = rng.standard_normal(shape) * SCALE.get(kind, 1.0)
    elif kind == "gaps":  # stretches of silence within the signal
        a = rng.standard_normal(shape)
        for row in a.reshape(-1, shape[-1]):
            i, j = sorted(rng.integers(0, shape[-1] + 1, 2))
            row[i:j] = 0.0
    elif kind == "dynamic range":  # some rows, and some stretches, far quieter than others
        a = rng.standard_normal(shape)
        for row in a.reshape(-1, shape[-1]):
            i = int(rng.integers(shape[-1] + 1))
            row[i:] *= 10.0 ** -float(rng.integers(2, 6))
            row *= 10.0 ** -float(rng.choice([0, 0, 3]))
    elif kind == "impulse":
        a = np.zeros(shape)
        flat = a.reshape(-1, shape[-1])
        for row in flat:
            row[int(rng.integers(shape[-1]))] = 1.0 + rng.random()
    elif kind == "constant":
        a = np.full(shape, 1.0 + rng.random())
    elif kind == "ramp":
        a = np.broadcast_to(np.arange(1, shape[-1] + 1) / shape[-1], shape) * (1 + rng.random(shape[:-1] + (1,)))
    else:
        a = np.zeros(shape)
    t = torch.tensor(np.ascontiguousarray(a), dtype=torch.float64).to(dtype)
    if layout == "strided":
        wide = torch.zeros(shape[:-1] + (2 * shape[-1],), dtype=dtype)
        wide[..., ::2] = t
        return wide[..., ::2]
    if layout == "sliced":
        wide = torch.full(shape[:-1] + (shape[-1] + 5,), 7.0, dtype=dtype)
        wide[..., 3:-2] = t
        return wide[..., 3:-2]
    if layout == "transposed" and t.ndim >= 2:
        return t.transpose(-1, -2).contiguous().transpose(-1, -2)
    return t


LAYOUTS = ["plain", "plain", "strided", "sliced", "transposed"]


def conv(a, b):
    return np.convolve(np.asarray(a, float), np.asarray(b, float))


def tol_for(x, h, dtype):
    """Rounding bound of an FFT convolution of the given operands."""
    eps = 1.2e-7 if dtype == torch.float32 else 2.3e-16
    n = max(2, np.shape(x)[-1] + np.shape(h)[-1])
    return 6.0 * eps * np.log2(n) * (float(np.linalg.norm(x)) * float(np.linalg.norm(h)) + 1e-300)


def segmented(x, h, bounds, out_len):
    """Overlap-added sum of convolved segments: x (S, n), h (T, S, M, L), bounds (T + 1)."""
    t_steps, n_src, n_mic, rl = h.shape
    out = np.zeros((n_mic, out_len))
    for t in range(t_steps):
        a, b = bounds[t], bounds[t + 1]
        if b <= a:
            continue
        for s in range(n_src):
            for m in range(n_mic):
                y = conv(x[s, a:b], h[t, s, m])
                out[m, a : a + len(y)] += y
    return out


def check_result(got, want, dtype, tol, what):
    """want is (n_mic, n); one microphone must come back one-dimensional."""
    require(torch.is_tensor(got), f"{what}: result is {type(got)}")
    require(got.dtype == dtype, f"{what}: dtype {got.dtype}, the signal has {dtype}")
    w = want[0] if want.shape[0] == 1 else want
    same(as_np(got), w, tol, what)
