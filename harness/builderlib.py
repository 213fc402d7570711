"""Small speaker corpora, build requests and readers for the dynamic dataset builder."""

from __future__ import annotations

import json
import logging
import math
from pathlib import Path

from hypothesis import strategies as st
import numpy as np

from .core import require

SPEAKERS = ["aew", "awb", "bdl", "clb", "jmk", "ksp", "rms", "slt"]
KINDS = ["noise", "noise", "quiet", "loud", "dc", "pulse", "tone"]
N_MICS = 6
MIN_DIST = 1.8


@st.composite
def corpus(draw, n, hi=900, rates=(8000, 8000, 4000, 16000), kinds=KINDS):
    return dict(rate=draw(st.sampled_from(list(rates))),
                speakers=[dict(name=s, utts=[dict(id=f"arctic_{draw(st.sampled_from('ab'))}{k:04d}", n=draw(st.integers(1, hi)), kind=draw(st.sampled_from(list(kinds))),
                                                  seed=draw(st.integers(0, 10**6)))
                                             for k in range(1, 1 + draw(st.integers(1, 5)))]) for s in draw(st.permutations(SPEAKERS))[:n]])


def samples(u):
    """int16 samples of an utterance."""
    n, kind = u["n"], u["kind"]
    rng = np.random.default_rng(u["seed"])
    if kind == "noise":
        a = rng.uniform(-0.6, 0.6, n)
    elif kind == "quiet":
        a = rng.uniform(-0.01, 0.01, n)
    elif kind == "loud":
        a = np.sign(rng.standard_normal(n)) * 0.999
    elif kind == "dc":
        a = np.full(n, 0.999)
    elif kind == "pulse":
        a = np.zeros(n)
        a[rng.integers(0, n)] = 0.999
    else:
        a = 0.8 * np.sin(np.arange(n) * rng.uniform(0.01, 2.0))
    return np.round(a * 32767).astype(np.int16)


def write(root: Path, spec):
    import soundfile as sf

    for s in spec["speakers"]:
        d = root / "ARCTIC" / f"cmu_us_{s['name']}_arctic"
        (d / "wav").mkdir(parents=True, exist_ok=True)
        (d / "etc").mkdir(exist_ok=True)
        for u in s["utts"]:
            sf.write(str(d / "wav" / f"{u['id']}.wav"), samples(u), s.get("rate", spec["rate"]), subtype="PCM_16")
        (d / "etc" / "txt.done.data").write_text("".join(f'( {u["id"]} "words" )\n' for u in s["utts"]), encoding="utf-8")


def quiet_logger():
    log = logging.getLogger("verif.builder")
    log.propagate = False
    if not log.handlers:
        log.addHandler(logging.NullHandler())
    return log


def snapshot(root: Path):
    """Every path below ``root`` with its type and contents."""
    out = {}
    for p in sorted(root.rglob("*")):
        r = str(p.relative_to(root))
        if p.is_symlink():
            out[r] = ("link", str(p.readlink()))
        elif p.is_dir():
            out[r] = ("dir", p.stat().st_mode & 0o777)
        else:
            out[r] = ("file", p.stat().st_mode & 0o777, p.read_bytes())
    return out


def differences(a, b):
    return sorted([f"-{k}" for k in a if k not in b] + [f"+{k}" for k in b if k not in a] + [f"~{k}" for k in a if k in b and a[k] != b[k]])


def load_scene(d: Path):
    with (d / "metadata.json").open(encoding="utf-8") as f:
        meta = json.load(f)
    with (d / "source_info.json").open(encoding="utf-8") as f:
        info = json.load(f)
    return meta, info


def paths(meta, steps):
    """Source (T, S, 3) and microphone (T, M, 3) positions recorded for a scene."""
    src, mic = meta["trajectories"]["sources"], meta["trajectories"]["mics"]
    if steps == 1:
        if src is None:
            src = [meta["sources"]["positions"]]
        if mic is None:
            mic = [meta["mics"]["positions"]]
    require(src is not None and mic is not None, "the metadata has no trajectories")
    src, mic = np.asarray(src, float), np.asarray(mic, float)
    require(src.ndim == 3 and mic.ndim == 3 and src.shape[0] == mic.shape[0] == steps, lambda: f"trajectories of shapes {src.shape}, {mic.shape} for {steps} steps")
    return src, mic


def wrap(a):
    return (np.asarray(a) + math.pi) % (2 * math.pi) - math.pi


def check_motion(meta, info, req, tol=2e-6):
    """The documented geometry and motion profile, from the metadata alone."""
    n, steps = req["n_sources"], req["trajectory_steps"]
    src, mic = paths(meta, steps)
    size = np.asarray(meta["room"]["size"], float)
    require(np.allclose(size, req["room_size"], rtol=0, atol=tol), f"room {size.tolist()}, requested {req['room_size']}")
    require(src.shape[1:] == (n, 3) and mic.shape[1:] == (N_MICS, 3), f"{src.shape[1]} sources and {mic.shape[1]} microphones")
    require(np.isfinite(src).all() and np.isfinite(mic).all(), "non-finite positions")
    # microphones: a still octahedron of the requested edge around the centre, inside the room
    center = mic[0].mean(0)
    require(np.abs(mic - mic[0]).max() <= tol, "the microphones move")
    r = req["octa_edge_m"] / math.sqrt(2)
    require(np.allclose(np.linalg.norm(mic[0] - center, axis=1), r, rtol=1e-6, atol=tol), lambda: f"microphones at {np.linalg.norm(mic[0] - center, axis=1)} from their centre, edge {req['octa_edge_m']}")
    require((mic >= -tol).all() and (mic <= size + tol).all(), lambda: f"microphone outside the room {size.tolist()}: {mic[0].tolist()}")
    if not req["randomize_mic_center"]:
        require(np.allclose(center, req["mic_center"], rtol=0, atol=tol), f"array centre {center.tolist()}, requested {req['mic_center']}")
    margin = np.asarray(req["source_margin"], float)
    require((src >= margin - tol).all() and (src <= size - margin + tol).all(),
            lambda: f"source outside the room less margins {margin.tolist()}: {src.min((0, 1)).tolist()} .. {src.max((0, 1)).tolist()} in {size.tolist()}")
    rel = src - center
    rad = np.hypot(rel[..., 0], rel[..., 1])
    require((rad[0] >= MIN_DIST - tol).all(), lambda: f"sources start {rad[0].tolist()} m from the array centre")
    az = np.arctan2(rel[0, :, 1], rel[0, :, 0])
    gaps = np.diff(np.concatenate([np.sort(az), [np.sort(az)[0] + 2 * math.pi]]))
    require(np.abs(gaps - 2 * math.pi / n).max() <= 1e-5, lambda: f"azimuth gaps {np.rad2deg(gaps).tolist()} for {n} sources")
    # motion
    still = np.abs(src - src[0]).max((0, 2)) <= tol
    moving = sorted(i["source_index"] for i in info if i["is_moving"])
    require(len(moving) == req["n_moving_sources"], f"{len(moving)} moving sources, {req['n_moving_sources']} requested")
    t = np.linspace(0.0, 1.0, steps) if steps > 1 else np.zeros(1)
    a, b = req["move_start_ratio"], req["move_end_ratio"]
    progress = np.clip((t - a) / (b - a), 0.0, 1.0)
    by = {i["source_index"]: i for i in info}
    for s in range(n):
        if s not in moving:
            require(still[s], lambda: f"source {s} is not moving but travels {np.abs(src[:, s] - src[0, s]).max():.4g} m")
            continue
        require(np.abs(rad[:, s] - rad[0, s]).max() <= tol and np.abs(src[:, s, 2] - src[0, s, 2]).max() <= tol,
                lambda: f"moving source {s}: radius {rad[:, s].min()}..{rad[:, s].max()}, height {src[:, s, 2].min()}..{src[:, s, 2].max()}")
        w = by[s]["angular_velocity_rad_s"]
        want = az[s] + w * progress * (b - a) * req["duration_sec"]
        got = np.arctan2(rel[:, s, 1], rel[:, s, 0])
        off = np.abs(wrap(got - want))
        require(off.max() <= 1e-5, lambda: f"moving source {s}: azimuth {np.rad2deg(got).round(3).tolist()}, expected {np.rad2deg(wrap(want)).round(3).tolist()} at {w:.4g} rad/s "
                f"between {a} and {b} of {req['duration_sec']} s")
        v = abs(w) * rad[0, s]
        lo, hi = req["moving_speed_min"], req["moving_speed_max"]
        require(lo * (1 - 1e-6) <= v <= hi * (1 + 1e-6), f"moving source {s}: {v} m/s, range {lo}..{hi}")
        require(abs(by[s]["velocity_mps"] - v) <= 1e-6 * max(1, v), f"moving source {s}: recorded speed {by[s]['velocity_mps']}, {v} from its path")
    return src, mic, moving, center


@st.composite
def feasible(draw, max_scenes=3, max_steps=8, fixed_center=True, big_motion=False):
    """A request whose placement certainly exists."""
    margin = [draw(st.integers(0, 30)) / 20 for _ in range(2)] + [draw(st.integers(0, 16)) / 20]
    edge = draw(st.integers(1, 30)) / 20
    r = edge / math.sqrt(2)
    base = [max(m + MIN_DIST, r + 0.01) for m in margin[:2]]
    size = [2 * x + 0.1 + draw(st.integers(0, 40)) / 10 for x in base] + [2 * max(margin[2], r) + 0.2 + draw(st.integers(0, 40)) / 10]
    random_center = draw(st.booleans())
    frac = [draw(st.integers(0, 20)) / 20 for _ in range(3)]
    lo = [b + 0.02 for b in base] + [r + 0.01]
    center = [a + f * (s - 2 * a) for a, f, s in zip(lo, frac, size)]
    n = draw(st.sampled_from([3, 2, 4, 1, 5, 6]))
    steps = draw(st.integers(2, max_steps))
    moving = draw(st.sampled_from([1, *range(n, 0, -1), 0]))
    if draw(st.integers(0, 9)) == 7:
        steps, moving = 1, 0
    a = draw(st.sampled_from([0.35, 0.0, 0.1, 0.5, 0.999, None]))
    a = draw(st.integers(0, 99)) / 100 if a is None else a
    b = draw(st.sampled_from([1.0, None, None]))
    b = min(1.0, a + max(0.001, draw(st.integers(1, 100)) / 100 * (1 - a))) if b is None else b
    v = draw(st.integers(1, 40)) / 20
    return dict(n_scenes=draw(st.integers(1, max_scenes)), n_sources=n, n_moving_sources=moving, room_size=size, mic_center=center, octa_edge_m=edge, source_margin=margin,
                trajectory_steps=steps, move_start_ratio=a, move_end_ratio=b, moving_speed_min=v, moving_speed_max=v + draw(st.sampled_from([0.0, 0.5, 3.0])),
                randomize_mic_center=random_center if fixed_center else True, seed=draw(st.integers(0, 10**6)))


def build(**kw):
    from torchrir.datasets import build_dynamic_cmu_arctic_dataset

    return build_dynamic_cmu_arctic_dataset(**kw)
