"""Scenes to draw, and readers of what matplotlib was made to draw."""

from __future__ import annotations

import contextlib
import re

from hypothesis import strategies as st
import numpy as np
import torch

from .core import HarnessError, require

TOL = 1e-4


def setup():
    import logging
    import warnings

    import matplotlib

    logging.getLogger("matplotlib").setLevel(logging.CRITICAL)
    logging.getLogger("torchrir").addHandler(logging.NullHandler()) if not logging.getLogger("torchrir").handlers else None

    matplotlib.use("Agg")
    warnings.simplefilter("ignore")


# ---------------------------------------------------------------- scenes
GRID = st.integers(1, 39).map(lambda k: k / 40)


@st.composite
def entity(draw, dim, size, steps, hi=5):
    """Positions (N, dim) and a path (T, N, dim) in which some entities stand still and others move."""
    n = draw(st.integers(1, hi))
    pos = [[draw(GRID) * s for s in size] for _ in range(n)]
    kinds = [draw(st.sampled_from(["still", "line", "walk", "loop", "creep", "visits"])) for _ in range(n)] if draw(st.integers(0, 3)) else ["still"] * n
    goal = [[draw(GRID) * s for s in size] for _ in range(n)]
    return dict(pos=pos, kinds=kinds, goal=goal, seed=draw(st.integers(0, 10**6)))


def path(e, steps, size):
    pos, goal = np.asarray(e["pos"], float), np.asarray(e["goal"], float)
    out = np.repeat(pos[None], steps, 0)
    rng = np.random.default_rng(e["seed"])
    for k, kind in enumerate(e["kinds"]):
        t = np.arange(steps) / max(1, steps - 1)
        if kind == "line":
            out[:, k] = pos[k] + t[:, None] * (goal[k] - pos[k])
        elif kind == "walk":
            out[1:, k] = rng.uniform(0.05, 0.95, (steps - 1, len(size))) * np.asarray(size)
        elif kind == "creep":  # by less than a centimetre in all
            out[1:, k] += rng.integers(1, 20, (steps - 1, len(size))) / 4096
        elif kind == "visits":  # away from its position for single steps only
            for j in rng.permutation(np.arange(1, steps))[: max(1, steps // 4)]:
                out[j, k] = goal[k]
        elif kind == "loop":
            w = np.sin(np.pi * t)[:, None]
            out[:, k] = pos[k] + w * (goal[k] - pos[k])
    # multiples of 1/4096 are exact in single precision
    return np.round(out * 4096) / 4096


@st.composite
def scene(draw, max_steps=9, hi=5):
    dim = draw(st.sampled_from([2, 3, 3]))
    size = [draw(st.integers(8, 200)) / 8 for _ in range(dim)]
    steps = draw(st.sampled_from([2, 3, 5, 1, 4, max_steps, 7]))
    return dict(dim=dim, size=size, steps=steps, src=draw(entity(dim, size, steps, hi)), mic=draw(entity(dim, size, steps, hi)),
                form=draw(st.sampled_from(["model", "f32", "f64", "list", "mixed"])), single=draw(st.booleans()))


def values(sc):
    """Positions and paths, as the plots must show them."""
    src, mic = (path(sc[k], sc["steps"], sc["size"]) for k in ("src", "mic"))
    return src[0], mic[0], src, mic


def room_of(sc, allow_model=True):
    from torchrir import Room

    f = sc["form"]
    if f == "model" and allow_model:
        return Room.shoebox(size=sc["size"], fs=16000.0)
    if f in ("list", "mixed"):
        return list(sc["size"])
    return torch.tensor(sc["size"], dtype=torch.float64 if f == "f64" else torch.float32)


def entity_of(sc, pos, cls):
    f = sc["form"]
    if f == "model":
        return cls.from_positions(pos.tolist())
    if sc["single"] and len(pos) == 1:
        pos = pos[0]
    if f == "list":
        return pos.tolist()
    return torch.tensor(pos, dtype=torch.float64 if f == "f64" else torch.float32)


def traj_of(sc, tr, which=0):
    if sc["form"] == "list" or (sc["form"] == "mixed" and which):
        return tr.tolist()
    return torch.tensor(tr, dtype=torch.float64 if sc["form"] == "f64" else torch.float32)


def inputs(sc, allow_room_model=True):
    from torchrir import MicrophoneArray, Source

    s0, m0, src, mic = values(sc)
    return dict(room=room_of(sc, allow_room_model), sources=entity_of(sc, s0, Source), mics=entity_of(sc, m0, MicrophoneArray)), traj_of(sc, src), traj_of(sc, mic, 1)


# ---------------------------------------------------------------- readers
def read_axes(ax):
    """What one axes object shows."""
    dim = 3 if hasattr(ax, "get_zlim") else 2
    limits = [tuple(map(float, ax.get_xlim())), tuple(map(float, ax.get_ylim()))] + ([tuple(map(float, ax.get_zlim()))] if dim == 3 else [])
    lines = []
    for ln in ax.lines:
        d = ln.get_data_3d() if dim == 3 else ln.get_data()
        a = np.stack([np.asarray(v, float).reshape(-1) for v in d], -1) if len(d[0]) else np.zeros((0, dim))
        lines.append((a, ln.get_marker(), ln.get_label()))
    points = []
    for c in ax.collections:
        if dim == 3:
            if not hasattr(c, "_offsets3d"):
                raise HarnessError("3D collection without offsets")
            a = np.stack([np.ma.filled(np.ma.asarray(v, float), np.nan).reshape(-1) for v in c._offsets3d], -1)
        else:
            a = np.ma.filled(np.ma.asarray(c.get_offsets(), float), np.nan).reshape(-1, 2)
        n = len(c.get_paths()[0].vertices) if len(c.get_paths()) else 0
        points.append((a, "tri" if n <= 5 else "round", c.get_label()))
    labels, others = [], []
    for t in ax.texts:
        p = t.get_position_3d() if hasattr(t, "get_position_3d") else t.get_position()
        m = re.fullmatch(r"S(\d+)", t.get_text())
        if m and t.get_visible():
            labels.append((int(m.group(1)), np.asarray(p, float)))
        elif t.get_text():
            others.append(t.get_text())
    patches = [(p.get_x(), p.get_y(), p.get_width(), p.get_height()) for p in ax.patches if hasattr(p, "get_width")]
    legend = ax.get_legend()
    return dict(dim=dim, limits=limits, lines=lines, points=points, labels=labels, others=others, patches=patches, title=ax.get_title(),
                legend=[t.get_text() for t in legend.get_texts()] if legend else [])


def close(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and (a.size == 0 or float(np.abs(a - b).max()) <= TOL)


def edges(size):
    x, y, z = size
    c = [(0, 0, 0), (x, 0, 0), (x, y, 0), (0, y, 0), (0, 0, z), (x, 0, z), (x, y, z), (0, y, z)]
    return [(c[a], c[b]) for a, b in [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)]]


def check_limits(got, size, what):
    require(got["dim"] == len(size), f"{what}: {got['dim']}D axes for a {len(size)}D view")
    for (lo, hi), s, ax in zip(got["limits"], size, "xyz"):
        require(abs(lo) <= TOL and abs(hi - s) <= TOL, f"{what}: {ax} axis from {lo} to {hi}, the room measures {s}")


def check_outline(got, size, what):
    """Room outline; returns the remaining lines."""
    check_limits(got, size, what)
    if len(size) == 2:
        require(any(close(p, (0, 0, *size)) for p in got["patches"]), lambda: f"{what}: no outline of {size}, patches {got['patches']}")
        return list(got["lines"])
    rest = list(got["lines"])
    for a, b in edges(size):
        hit = [k for k, ln in enumerate(rest) if close(ln[0], [a, b]) or close(ln[0], [b, a])]
        require(hit, f"{what}: edge {a} - {b} of the room is missing")
        rest.pop(hit[0])
    return rest


def same_set(got, want, what):
    """Every wanted point is shown and nothing else."""
    for w in want:
        require(any(close(g, w) for g in got), lambda: f"{what}: none at {np.round(w, 4).tolist()}; shown at {np.round(got, 4).tolist()}")
    for g in got:
        require(any(close(g, w) for w in want), lambda: f"{what}: one shown at {np.round(g, 4).tolist()}; they are at {np.round(want, 4).tolist()}")


def check_points(got, src, mic, what):
    for kind, want, name in (("tri", src, "sources"), ("round", mic, "microphones")):
        pts = [p for a, k, _ in got["points"] if k == kind for p in a]
        same_set(pts, want, f"{what}, {name}")
        require(len(pts) >= len(want), f"{what}: {len(pts)} {name} drawn, {len(want)} exist")


def check_labels(got, src, wanted, what):
    if not wanted:
        require(not got["labels"], f"{what}: labels {[k for k, _ in got['labels']]} although not requested")
        return
    require(sorted(k for k, _ in got["labels"]) == list(range(len(src))), f"{what}: labels {sorted(k for k, _ in got['labels'])} for {len(src)} sources")
    for k, p in got["labels"]:
        require(close(p, src[k]), lambda: f"{what}: label S{k} at {np.round(p, 4).tolist()}, source at {np.round(src[k], 4).tolist()}")


def check_annotation(got, lines, what):
    shown = [str(x).strip() for x in (lines or []) if str(x).strip()]
    want = ["\n".join(shown)] if shown else []
    require(got["others"] == want, f"{what}: annotation {got['others']}, requested {want}")


def check_paths(rest, groups, what):
    """``groups`` lists (name, paths (T', N, dim), marker); moving paths must be there, nothing but paths may be."""
    rest = list(rest)
    for name, tr, marker in groups:
        for k in range(tr.shape[1]):
            p = tr[:, k]
            hit = [i for i, (a, m, _) in enumerate(rest) if close(a, p) and (marker is None or m == marker)]
            if hit:
                rest.pop(hit[0])
                continue
            require(len(p) and np.abs(p - p[0]).max() <= TOL, lambda: f"{what}: no path of {name} {k} through {np.round(p, 3).tolist()}; drawn {[np.round(a, 3).tolist() for a, _, _ in rest][:4]}")
    left = [a for a, _, _ in rest if len(a)]
    require(not left, lambda: f"{what}: lines along {[np.round(a, 3).tolist() for a in left][:3]} belong to nothing")


# ---------------------------------------------------------------- capturing
@contextlib.contextmanager
def saved_figures():
    """Record figures instead of rendering them: (path, [axes contents])."""
    from pathlib import Path

    from matplotlib.figure import Figure

    out = []
    real = Figure.savefig

    def savefig(self, fname, *a, **k):
        if not isinstance(fname, (str, Path)):
            return real(self, fname, *a, **k)
        out.append((Path(fname), [read_axes(ax) for ax in self.axes]))
        Path(fname).write_bytes(b"captured")

    Figure.savefig = savefig
    try:
        yield out
    finally:
        Figure.savefig = real


class Movie:
    def __init__(self, writer):
        self.fps = float(writer.fps)
        self.outfile = None
        self.frames = []


@contextlib.contextmanager
def captured_movies():
    """Record what every frame shows instead of encoding it; returns a list of Movies."""
    from pathlib import Path

    from matplotlib.animation import FFMpegWriter, PillowWriter

    movies, current = [], {}
    classes = (PillowWriter, FFMpegWriter)
    saved = {c: {n: c.__dict__.get(n) for n in ("setup", "grab_frame", "finish", "isAvailable")} for c in classes}

    def setup(self, fig, outfile, dpi=None):
        self.fig, self.outfile, self.dpi = fig, outfile, dpi
        m = Movie(self)
        m.outfile = Path(outfile)
        current[id(self)] = m
        movies.append(m)

    def grab_frame(self, **k):
        current[id(self)].frames.append([read_axes(ax) for ax in self.fig.axes])

    def finish(self):
        current[id(self)].outfile.write_bytes(b"captured")

    try:
        for c in classes:
            c.setup, c.grab_frame, c.finish = setup, grab_frame, finish
        FFMpegWriter.isAvailable = classmethod(lambda cls: True)
        yield movies
    finally:
        for c, names in saved.items():
            for n, v in names.items():
                if v is None:
                    if n in c.__dict__:
                        delattr(c, n)
                else:
                    setattr(c, n, v)
