"""Static and dynamic scene cases (plain JSON) and how to run them through the public API."""

from __future__ import annotations

import math

import numpy as np
import torch
from hypothesis import strategies as st

from . import gens, ism_model
from .core import sut
from .simlib import as_np, config, dt, eps_for, make_room, tens

DIRECTIONAL = ["homni", "subcardioid", "cardioid", "hypercardioid", "bidir"]


@st.composite
def direction(draw, dim):
    """A direction vector, of a length that is not one."""
    az = draw(gens.uniform(-math.pi, math.pi))
    el = draw(gens.uniform(-1.4, 1.4)) if dim == 3 else 0.0
    r = draw(st.sampled_from([1.0, 0.2, 3.0, 0.01]))
    return [r * x for x in gens.azel_vec(az, el, dim)]


@st.composite
def directivity(draw, n_src, n_mic, dim, always=False):
    """Patterns and per-entity direction vectors for sources and microphones."""
    if not always and draw(st.integers(0, 2)) == 0:
        return None
    sp = draw(st.sampled_from(["omni"] + DIRECTIONAL))
    mp = draw(st.sampled_from(["omni"] + DIRECTIONAL))
    return dict(src=sp, mic=mp,
                src_dir=[draw(direction(dim)) for _ in range(n_src)],
                mic_dir=[draw(direction(dim)) for _ in range(n_mic)])


@st.composite
def static(draw, max_n=3, walls=True, with_dir=True, dims=(2, 3), fdl=None, min_n=1, surfaces=("beta", "t60", "none"), lens=None):
    room = draw(gens.rooms(dims=dims, surfaces=surfaces))
    dim = len(room["size"])
    srcs = draw(gens.entities(room["size"], max_n=max_n, min_n=min_n, walls=walls))
    mics = draw(gens.entities(room["size"], max_n=max_n, min_n=min_n, walls=walls))
    return dict(
        room=room, limit=draw(gens.limits(dim)), srcs=srcs, mics=mics,
        dir=draw(directivity(len(srcs), len(mics), dim)) if with_dir else None,
        nsample=draw(lens if lens is not None else st.one_of(st.integers(60, 700), st.integers(300, 1500))),
        fdl=draw(fdl if fdl is not None else st.one_of(st.just(81), st.integers(10, 50).map(lambda k: 2 * k + 1))),
    )


def dir_args(d, dtype=torch.float64, share=False):
    """directivity= and orientation= arguments for a generated pattern set."""
    if d is None:
        return {}
    return dict(directivity=(d["src"], d["mic"]),
                orientation=(tens(d["src_dir"], dtype), tens(d["mic_dir"], dtype)))


def run_static(case, cfg=None, dtype=torch.float64, **over):
    from torchrir.sim import simulate_rir

    kw = dict(room=make_room(case["room"], dtype), sources=tens(case["srcs"], dtype), mics=tens(case["mics"], dtype),
              config=cfg if cfg is not None else config(frac_delay_length=case["fdl"], use_lut=False),
              nsample=case["nsample"], max_order=case["limit"]["max_order"], nb_img=case["limit"]["nb_img"],
              **dir_args(case["dir"], dtype))
    kw.update(over)
    return sut(simulate_rir, **kw)


def run_dynamic(case, src_traj, mic_traj, cfg=None, dtype=torch.float64, **over):
    from torchrir.sim import simulate_dynamic_rir

    kw = dict(room=make_room(case["room"], dtype), src_traj=src_traj if torch.is_tensor(src_traj) else tens(src_traj, dtype),
              mic_traj=mic_traj if torch.is_tensor(mic_traj) else tens(mic_traj, dtype),
              config=cfg if cfg is not None else config(frac_delay_length=case["fdl"], use_lut=False),
              nsample=case["nsample"], max_order=case["limit"]["max_order"], nb_img=case["limit"]["nb_img"],
              **dir_args(case["dir"], dtype))
    kw.update(over)
    return sut(simulate_dynamic_rir, **kw)


def reference(case, dtype="float64", lut=None, srcs=None, mics=None, **over):
    """Model response and tolerance."""
    d = case["dir"]
    room = case["room"]
    kw = dict(nsample=case["nsample"], fdl=case["fdl"], lut_gran=lut, **case["limit"], **eps_for(dtype))
    if d is not None:
        kw.update(src_pat=d["src"], mic_pat=d["mic"], src_dirs=d["src_dir"], mic_dirs=d["mic_dir"])
    kw.update(over)
    return ism_model.rir(room["size"], srcs or case["srcs"], mics or case["mics"], beta=room["beta"], t60=room["t60"],
                         fs=room["fs"], c=room["c"], **kw)


def round_tol(case, a, dtype="float64", srcs=None, mics=None):
    """Tolerance between two evaluations of one scene that may round differently."""
    peak = max(1e-12, float(np.abs(a).max()) if np.size(a) else 0.0)
    # a half-omni pattern seen exactly side-on may go either way
    return (1e-9 if dtype == "float64" else 3e-4) * peak


__all__ = ["static", "directivity", "direction", "dir_args", "run_static", "run_dynamic", "reference", "round_tol", "as_np", "dt"]
