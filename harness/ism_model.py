"""Slow, obviously-correct reference model of the image-source method (numpy, float64).

Images per axis are enumerated by unfolding the room: image index n lies in the n-th mirrored copy of
the room, so the path from it crosses |n| walls of that axis, alternating between the low and the high
wall and starting with the wall on the side of the copy.  Nothing here is shared with the code under test.
"""

from __future__ import annotations

import itertools
import math

import numpy as np

SABINE = 0.161


def sabine_beta(size, t60):
    if len(size) == 2:
        lx, ly = size
        lz = 1.0
        surface = 2.0 * (lx + ly) * lz
        n = 4
    else:
        lx, ly, lz = size
        surface = 2.0 * (lx * ly + ly * lz + lx * lz)
        n = 6
    alpha = SABINE * lx * ly * lz / (t60 * surface)
    alpha = max(0.0, min(alpha, 0.999))
    return [math.sqrt(1.0 - alpha)] * n


def sabine_t60(size, beta):
    if len(size) == 2:
        lx, ly = size
        lz = 1.0
        areas = [ly, ly, lx, lx]
    else:
        lx, ly, lz = size
        areas = [ly * lz] * 2 + [lx * lz] * 2 + [lx * ly] * 2
    a = sum(s * (1.0 - b * b) for s, b in zip(areas, beta))
    return math.inf if a <= 0 else SABINE * lx * ly * lz / a


def axis_image(n: int, s: float, length: float, lo: float, hi: float):
    """Walk through |n| mirrorings; returns position, reflection product and orientation sign."""
    pos, gain, sign = s, 1.0, 1.0
    # mirror walls met when walking outwards from the room to copy n, nearest first
    for k in range(abs(n)):
        if n > 0:
            wall = (k + 1) * length  # far wall of copy k
            coeff = hi if k % 2 == 0 else lo
        else:
            wall = -k * length
            coeff = lo if k % 2 == 0 else hi
        pos = 2.0 * wall - pos
        gain *= coeff
        sign = -sign
    return pos, gain, sign


def indices(dim, max_order=None, nb_img=None):
    if nb_img is not None:
        ranges = [range(-int(k), int(k) + 1) for k in nb_img]
        return list(itertools.product(*ranges))
    rng = range(-max_order, max_order + 1)
    return [n for n in itertools.product(rng, repeat=dim) if sum(abs(i) for i in n) <= max_order]


PATTERNS = {
    "omni": lambda c: np.ones_like(c),
    "homni": lambda c: (c > 0).astype(float),
    "subcardioid": lambda c: 0.75 + 0.25 * c,
    "cardioid": lambda c: 0.5 + 0.5 * c,
    "hypercardioid": lambda c: 0.25 + 0.75 * c,
    "bidir": lambda c: c,
}
ALIASES = {
    "omni": ["omni", "omnidirectional"],
    "homni": ["homni", "halfomni", "half-omni"],
    "subcardioid": ["subcardioid", "subcard"],
    "cardioid": ["cardioid", "card"],
    "hypercardioid": ["hypercardioid", "hypcard"],
    "bidir": ["bidir", "bidirectional", "figure8", "figure-8"],
}


def unit(vec):
    v = np.asarray(vec, float)
    return v / np.linalg.norm(v)


def contributions(size, beta, idx, src, mic, *, src_pat="omni", mic_pat="omni", src_dir=None, mic_dir=None):
    """Distances and gains (without 1/d) of all images for one pair, plus angle cosines used."""
    dim = len(size)
    tab = []
    for d in range(dim):
        need = sorted({n[d] for n in idx})
        tab.append({n: axis_image(n, src[d], size[d], beta[2 * d], beta[2 * d + 1]) for n in need})
    pos = np.array([[tab[d][n[d]][0] for d in range(dim)] for n in idx], float)
    gain = np.array([math.prod(tab[d][n[d]][1] for d in range(dim)) for n in idx], float)
    sign = np.array([[tab[d][n[d]][2] for d in range(dim)] for n in idx], float)
    vec = np.asarray(mic, float)[None, :] - pos
    dist = np.sqrt((vec**2).sum(axis=1))
    cosines = []
    if src_pat != "omni":
        o = unit(src_dir)[None, :] * sign
        c = (vec * o).sum(axis=1) / np.maximum(dist, 1e-300)
        cosines.append((src_pat, c))
        gain = gain * PATTERNS[src_pat](c)
    if mic_pat != "omni":
        c = (-vec * unit(mic_dir)[None, :]).sum(axis=1) / np.maximum(dist, 1e-300)
        cosines.append((mic_pat, c))
        gain = gain * PATTERNS[mic_pat](c)
    return dist, gain, cosines


def hann(n):
    if n == 1:
        return np.ones(1)
    return 0.5 - 0.5 * np.cos(2 * np.pi * np.arange(n) / (n - 1))


def rir_pair(size, beta, idx, src, mic, *, fs, c, nsample, fdl, eps_delay, eps_amp=0.0, lut_gran=None, pos_eps=0.0, **dirs):
    """Reference response and a per-sample tolerance.

    eps_delay: uncertainty of each image's delay in samples (rounding of the code under test);
    the tolerance accounts for it, for the floor ambiguity at integer delays, and for the
    interpolation error of a sinc table with lut_gran steps per sample.
    """
    fdl2 = (fdl - 1) // 2
    dist, gain, cosines = contributions(size, beta, idx, src, mic, **dirs)
    out = np.zeros(nsample)
    tol = np.full(nsample, 1e-300)
    win = hann(fdl)
    lut_err = 0.0 if lut_gran is None else (np.pi**2 / 3.0) / 8.0 / lut_gran**2 * 1.05
    k = np.arange(fdl)
    slope = 1.4  # bound of the windowed sinc's derivative with respect to delay
    for j in range(len(dist)):
        d = max(dist[j], 1e-6)
        g = gain[j]
        step_unc = 0.0  # a half-omni microphone/source exactly side-on may go either way
        for pat, cs in cosines:
            if pat == "homni" and abs(cs[j]) < 1e-9 + 20 * eps_amp + 10 * pos_eps / d:
                step_unc = 1.0 / d
        if cosines and dist[j] <= 1.001e-6 + 2.0 * pos_eps:  # no direction between coinciding points
            step_unc = 2.0 / d
        if g == 0.0 and step_unc == 0.0 and not cosines:
            continue
        s = d / c * fs + fdl2
        de = eps_delay * (1.0 + abs(s)) + pos_eps / c * fs
        i0 = math.floor(s)
        frac = s - i0
        tgt = i0 - fdl2 + k
        ok = (tgt >= 0) & (tgt < nsample)
        amp = max(abs(g) / d, step_unc)
        extra = amp * (slope * de + eps_amp + 2.0 * pos_eps / d) + step_unc
        if cosines:
            extra += (4.0 * eps_amp + 4.0 * pos_eps / d) / d
        if ok.any():
            vals = np.sinc(k - fdl2 - frac) * win * g / d
            np.add.at(out, tgt[ok], vals[ok])
            np.add.at(tol, tgt[ok], (amp * lut_err * win + extra)[ok])
        if min(frac, 1.0 - frac) < 2 * de + 1e-12:
            # rounding may place this image one sample earlier or later; both placements agree
            # except for the shift of the window (and entirely differ for one- to three-tap filters)
            lo, hi = max(0, i0 - fdl2 - 2), min(nsample, i0 + fdl - fdl2 + 2)
            if lo < hi:
                tol[lo:hi] += amp * (1.2 * np.pi / (fdl - 1) + 4 * de) if fdl > 3 else 1.1 * amp
    return out, tol


def resolve_beta(size, beta, t60):
    if beta is not None:
        return list(beta)
    if t60 is not None:
        return sabine_beta(size, t60)
    return [1.0] * (2 * len(size))


def rir(size, srcs, mics, *, beta=None, t60=None, max_order=None, nb_img=None, **kw):
    """(n_src, n_mic, nsample) reference and tolerance for omni or per-entity directional pairs."""
    b = resolve_beta(size, beta, t60)
    idx = indices(len(size), max_order, nb_img)
    src_dirs = kw.pop("src_dirs", None)
    mic_dirs = kw.pop("mic_dirs", None)
    outs, tols = [], []
    for i, s in enumerate(srcs):
        row, trow = [], []
        for j, m in enumerate(mics):
            o, t = rir_pair(size, b, idx, s, m,
                            src_dir=None if src_dirs is None else src_dirs[i],
                            mic_dir=None if mic_dirs is None else mic_dirs[j], **kw)
            row.append(o)
            trow.append(t)
        outs.append(row)
        tols.append(trow)
    return np.array(outs), np.array(tols)
