"""Audio signals, layouts and independent readers shared by the audio I/O checks."""

from __future__ import annotations

import io
import os
import warnings

from hypothesis import strategies as st
import numpy as np
import torch

from . import gens
from .core import HarnessError

RATES = [8000, 16000, 44100, 48000, 11025, 7919, 1, 96000, 192000]
STEP = {"PCM_16": 2.0**-15, "PCM_24": 2.0**-23, "PCM_32": 2.0**-31, "PCM_U8": 2.0**-7, "PCM_S8": 2.0**-7,
        "FLOAT": 0.0, "DOUBLE": 0.0}
WAV_SUBTYPES = ["PCM_16", "PCM_24", "PCM_32", "PCM_U8", "FLOAT", "DOUBLE"]
FORMATS = {"flac": ["PCM_16", "PCM_24", "PCM_S8"], "aiff": ["PCM_16", "PCM_24", "PCM_32", "FLOAT", "DOUBLE"],
           "au": ["PCM_16", "PCM_24", "PCM_32", "FLOAT", "DOUBLE", "PCM_S8"], "w64": ["PCM_16", "PCM_24", "PCM_32", "FLOAT", "DOUBLE"],
           "caf": ["PCM_16", "PCM_24", "PCM_32", "FLOAT", "DOUBLE"], "rf64": ["PCM_16", "PCM_24", "FLOAT"]}


@st.composite
def signals(draw, max_channels=12, layouts=("mono", "first", "last"), empty=True, huge=False):
    """Layouts whose reading is not ambiguous (see C16's statement of the domain)."""
    layout = draw(st.sampled_from(list(layouts)))
    ch = 1 if layout == "mono" else draw(st.sampled_from([1, 2, 2, 3, 4, 8, 9, max_channels]))
    n = draw(st.sampled_from([40, 40, 400, 400, 400, 400, 2, 1, 0 if empty else 3]))
    n = draw(st.integers(2, n)) if n > 2 else n
    if draw(st.integers(0, 9)) == 0:
        n = draw(st.sampled_from([1024, 4096, 4097, 5000, 8192, 20000, 32768, 40000])) // (1 if ch <= 4 else 4)
    if layout == "first" and ch > 8:
        n = max(n, ch + 1)
    if layout == "last":
        n = max(n, 9, ch + (1 if ch > 8 else 0))
    if huge and draw(st.integers(0, 30)) == 7:
        return dict(layout=layout, ch=min(ch, 2), n=draw(st.sampled_from([500000, 65537, 200001])), kind=draw(st.sampled_from(["negative", "impulse", "noise", "edges"])),
                    seed=draw(st.integers(0, 10**6)), scale=draw(gens.uniform(0.05, 1.0)))
    kind = draw(st.sampled_from(["noise", "noise", "loud", "quiet", "silence", "impulse", "negative", "edges", "one quiet channel"]))
    return dict(layout=layout, ch=ch, n=n, kind=kind, seed=draw(st.integers(0, 10**6)), scale=draw(gens.uniform(0.05, 1.0)))


def samples(sig) -> np.ndarray:
    """(channels, samples), float64."""
    g = np.random.default_rng(sig["seed"])
    ch, n, kind = sig["ch"], sig["n"], sig["kind"]
    x = g.uniform(-1, 1, (ch, n)) * sig["scale"]
    if kind == "loud":
        x *= 7.5
    elif kind == "quiet":
        x *= 1e-3
    elif kind == "silence":
        x[:] = 0
    elif kind == "impulse" and n:
        x[:] = 0
        x[g.integers(ch), g.integers(n)] = sig["scale"]
    elif kind == "negative" and n:
        x *= 0.5
        x[g.integers(ch), g.integers(n)] = -1.0 * sig["scale"]
    elif kind == "edges" and n:
        x[:, 0], x[:, -1] = 1.0, -1.0
    elif kind == "one quiet channel":
        x[0] *= 0.01
    return x


def tensor(sig, rep="float32"):
    """The signal in its layout as a tensor of the given representation."""
    x = samples(sig)
    base, _, form = rep.partition(" ")
    if base == "int16":
        x = np.round(x * 100)
    arr = torch.tensor(x, dtype=torch.float64).to(getattr(torch, base))
    if sig["layout"] == "mono":
        t = arr[0]
    elif sig["layout"] == "first":
        t = arr
    else:
        t = arr.T.contiguous()
    if form == "strided":
        wide = torch.zeros(t.shape[:-1] + (2 * t.shape[-1],), dtype=t.dtype)
        wide[..., ::2] = t
        t = wide[..., ::2]
    elif form == "grad":
        t = t.clone().requires_grad_(True)
    return t


def channels_of(t, sig) -> np.ndarray:
    a = t.detach().to(torch.float64).numpy()
    if sig["layout"] == "mono":
        return a[None]
    return a if sig["layout"] == "first" else a.T


def read_wav(path):
    """Independent of the library: scipy's RIFF reader. Returns rate, (channels, samples), subtype."""
    from scipy.io import wavfile

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rate, data = wavfile.read(str(path))
    bits = _bits(path)
    if data.ndim == 1:
        data = data[:, None]
    data = data.T
    if data.dtype == np.uint8:
        return rate, (data.astype(np.float64) - 128) / 128, "PCM_U8"
    if data.dtype == np.int16:
        return rate, data / 32768.0, "PCM_16"
    if data.dtype == np.int32:
        return rate, data / 2147483648.0, "PCM_24" if bits == 24 else "PCM_32"
    if data.dtype == np.float32:
        return rate, data.astype(np.float64), "FLOAT"
    if data.dtype == np.float64:
        return rate, data, "DOUBLE"
    raise HarnessError(f"unexpected sample type {data.dtype}")


def _bits(path):
    with open(path, "rb") as f:
        raw = f.read(400)
    i = raw.find(b"fmt ")
    return int.from_bytes(raw[i + 22:i + 24], "little")


def read_any(path):
    """Rate, (channels, samples), subtype, format by libsndfile, for formats scipy does not read."""
    import soundfile as sf

    with open(path, "rb") as f:
        snd = sf.SoundFile(io.BytesIO(f.read()))
    data = snd.read(dtype="float64", always_2d=True)
    return snd.samplerate, data.T, snd.subtype, snd.format


def is_wav(path):
    with open(path, "rb") as f:
        raw = f.read(12)
    return raw[:4] == b"RIFF" and raw[8:12] == b"WAVE"


def close(actual, expected, subtype):
    """Largest difference in units of what the subtype allows (<= 1 passes)."""
    if actual.shape != expected.shape:
        return np.inf
    if not expected.size:
        return 0.0
    exp = np.clip(expected, -1.0, 1.0) if STEP[subtype] else expected
    tol = 2 * STEP[subtype] + 4e-7 * np.maximum(np.abs(exp), 1e-6)
    return float((np.abs(actual - exp) / tol).max())


def tree(root):
    out = {}
    for d, dirs, files in os.walk(root):
        for name in dirs:
            p = os.path.join(d, name)
            out[os.path.relpath(p, root) + "/"] = os.readlink(p) if os.path.islink(p) else None
        for name in files:
            p = os.path.join(d, name)
            if os.path.islink(p):
                out[os.path.relpath(p, root)] = "-> " + os.readlink(p)
            else:
                with open(p, "rb") as f:
                    out[os.path.relpath(p, root)] = f.read()
    return out
