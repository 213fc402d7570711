"""Adapters from JSON cases to the public simulation API."""

from __future__ import annotations

import numpy as np
import torch

from .core import Violation, require, sut


def dt(name: str) -> torch.dtype:
    return {"float32": torch.float32, "float64": torch.float64}[name]


def make_room(room, dtype=torch.float64):
    from torchrir import Room

    return sut(Room.shoebox, size=list(room["size"]), fs=room["fs"], c=room["c"], beta=room["beta"],
               t60=room["t60"], dtype=dtype)


def config(**kw):
    from torchrir.config import SimulationConfig

    kw.setdefault("rir_hpf_enable", False)
    return sut(SimulationConfig, **kw)


def tens(v, dtype=torch.float64):
    return torch.tensor(v, dtype=dtype)


def as_np(t) -> np.ndarray:
    require(torch.is_tensor(t), f"result is {type(t)}, not a tensor")
    return t.detach().cpu().to(torch.float64).numpy()


def same(actual, expected, tol, what: str):
    """Element-wise comparison; tol scalar or array."""
    a, e = np.asarray(actual, float), np.asarray(expected, float)
    require(a.shape == e.shape, f"{what}: shape {a.shape}, expected {e.shape}")
    if a.size == 0:
        return
    require(bool(np.isfinite(a).all()), f"{what}: non-finite values")
    err = np.abs(a - e)
    bad = err > tol
    if bad.any():
        i = np.unravel_index(int(np.argmax(err - np.broadcast_to(tol, err.shape))), err.shape)
        raise Violation(
            f"{what}: at {tuple(int(x) for x in i)} got {a[i]!r}, expected {e[i]!r} "
            f"(error {err[i]:.3g}, tolerance {np.broadcast_to(tol, err.shape)[i]:.3g}, {int(bad.sum())} positions differ)"
        )


def eps_for(dtype: str):
    """(relative delay, relative amplitude, absolute position) rounding allowances."""
    if dtype == "float64":
        return dict(eps_delay=2e-13, eps_amp=1e-10, pos_eps=1e-13)
    return dict(eps_delay=6e-7, eps_amp=2e-5, pos_eps=6e-6)
