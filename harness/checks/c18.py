"""C18: scene metadata is a faithful, JSON-serialisable record of the scene."""

import json
import logging
import math
from pathlib import Path

from hypothesis import strategies as st
import numpy as np
import torch

from .. import gens
from ..core import Check, Law, expect_raises, require, sut
from ..simlib import same

KEYS = st.text(st.characters(codec="utf-8", categories=("L", "N", "P", "Zs")), min_size=1, max_size=6)


def leaf():
    return st.one_of(st.none(), st.booleans(), st.integers(-10**9, 10**9), gens.uniform(-5, 5), st.text(max_size=8),
                     st.fixed_dictionaries({"__tensor__": st.lists(gens.uniform(-5, 5), max_size=4), "dt": st.sampled_from(["float32", "float64", "int64"])}),
                     st.fixed_dictionaries({"__path__": st.sampled_from(["a/b.wav", "/x/y z", "ü.txt"])}))


def payload():
    return st.recursive(leaf(), lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(KEYS, c, max_size=3),
                                                    st.fixed_dictionaries({"__tuple__": st.lists(c, max_size=3)})), max_leaves=8)


def build(v):
    """Payload description -> (value passed in, value expected in the JSON)."""
    if isinstance(v, list):
        pairs = [build(x) for x in v]
        return [p[0] for p in pairs], [p[1] for p in pairs]
    if isinstance(v, dict):
        if "__tensor__" in v:
            t = torch.tensor(v["__tensor__"], dtype=torch.float64).to(getattr(torch, v["dt"]))
            return t, t.tolist()
        if "__path__" in v:
            return Path(v["__path__"]), v["__path__"]
        if "__tuple__" in v:
            pairs = [build(x) for x in v["__tuple__"]]
            return tuple(p[0] for p in pairs), [p[1] for p in pairs]
        pairs = {k: build(x) for k, x in v.items()}
        return {k: p[0] for k, p in pairs.items()}, {k: p[1] for k, p in pairs.items()}
    return v, v


@st.composite
def traj(draw, size, n, steps):
    if steps > 6:
        g = np.random.default_rng(draw(st.integers(0, 10**6)))
        return (np.array(size) * g.uniform(0.0, 1.0, (steps, n, len(size)))).tolist()
    return [[draw(gens.point(size)) for _ in range(n)] for _ in range(steps)]


@st.composite
def cases(draw):
    room = draw(gens.rooms(fs=st.sampled_from([8000, 16000, 44100.0, 12345.678, 22050, 1.0, 11025, 44100.5, 7999.25, 333.3])))
    dim = len(room["size"])
    n_src = draw(st.sampled_from([9, 12, 33])) if draw(st.integers(0, 14)) == 9 else draw(st.integers(1, 3))
    srcs = [draw(gens.point(room["size"])) for _ in range(n_src)]
    kind = draw(st.sampled_from(["few", "few", "few", "same height", "cluster", "many", "above"]))
    if kind == "cluster":
        c = draw(gens.point(room["size"], edge=0.3))
        step = draw(gens.uniform(0.005, 0.1))
        mics = [[v + (step * i * 1.5 if k == 0 else step * j if k == 1 else 0.0) for k, v in enumerate(c)] for i in range(2) for j in range(2)]
    else:
        mics = [draw(gens.point(room["size"])) for _ in range(draw(st.integers(26, 40)) if kind == "many" else draw(st.integers(1, 4)))]
        if kind == "above":
            mics[0] = list(srcs[0][:-1]) + [draw(gens.frac()) * room["size"][-1]]
        if kind == "same height":
            for m in mics:
                m[-1] = srcs[0][-1]
    which = draw(st.sampled_from(["none", "src", "mic", "both", "one step", "both, one single"]))
    steps = draw(st.sampled_from([1100, 130, 257, 513])) if draw(st.integers(0, 19)) == 9 else draw(st.integers(2, 6))
    st_, mt = None, None
    if which in ("src", "both", "both, one single"):
        st_ = draw(traj(room["size"], n_src, steps))
    if which in ("mic", "both"):
        mt = draw(traj(room["size"], len(mics), steps))
    if which == "both, one single":
        mt = draw(traj(room["size"], len(mics), 1))
    if which == "one step":
        st_ = draw(traj(room["size"], n_src, 1))
    oris = {}
    for k, n in (("src", n_src), ("mic", len(mics))):
        oris[k] = [gens.azel_vec(draw(gens.uniform(-3, 3)), draw(gens.uniform(-1, 1)), dim) for _ in range(n)] if draw(st.booleans()) else None
    return dict(room=room, srcs=srcs, mics=mics, ori=oris, src_traj=st_, mic_traj=mt, flat=draw(st.booleans()),
                dtype=draw(st.sampled_from(["float32", "float64"])), tdtype=draw(st.sampled_from(["same", "float64"])), nsample=draw(st.sampled_from([1025, 5000, 70000, 4033])) if draw(st.integers(0, 19)) == 9 else draw(st.one_of(st.integers(1, 50), st.integers(50, 1200))),
                time=draw(st.sampled_from(["none", "len", "len", "given", "both"])), signal_len=draw(st.sampled_from([0, 1, 2, 100, 16000, 123457])),
                stamps=draw(st.lists(gens.uniform(0, 3), min_size=steps, max_size=steps)) if steps <= 6 else np.random.default_rng(steps).uniform(0, 3, steps).tolist(),
                info=draw(st.one_of(st.none(), payload())), extra=draw(st.one_of(st.none(), st.dictionaries(KEYS, payload(), max_size=3))),
                via=draw(st.sampled_from(["build", "save", "save"])), log=draw(st.booleans()))


def make(case):
    from torchrir import MicrophoneArray, Room, Source

    d = getattr(torch, case["dtype"])
    td = d if case["tdtype"] == "same" else torch.float64
    r = case["room"]
    room = Room.shoebox(size=r["size"], fs=r["fs"], c=r["c"], beta=r["beta"], t60=r["t60"], dtype=d)
    src = Source.from_positions(case["srcs"], orientation=case["ori"]["src"], dtype=d)
    mic = MicrophoneArray.from_positions(case["mics"], orientation=case["ori"]["mic"], dtype=d)
    trajs = []
    for v in (case["src_traj"], case["mic_traj"]):
        t = None if v is None else torch.tensor(v, dtype=td)
        if t is not None and t.shape[1] == 1 and case["flat"]:
            t = t[:, 0]
        trajs.append(t)
    steps = max([len(v) for v in (case["src_traj"], case["mic_traj"]) if v is not None] + [1])
    shape = (len(case["srcs"]), len(case["mics"]), case["nsample"])
    rirs = torch.zeros((steps, *shape) if steps > 1 else shape)
    return room, src, mic, trajs, steps, rirs


def run(case, ctx):
    import torchrir.io as tio

    room, src, mic, (stj, mtj), steps, rirs = make(case)
    kw = dict(room=room, sources=src, mics=mic, rirs=rirs)
    if stj is not None:
        kw["src_traj"] = stj
    if mtj is not None:
        kw["mic_traj"] = mtj
    info, info_json = build(case["info"])
    extra, extra_json = (None, None) if case["extra"] is None else build(case["extra"])
    if info is not None:
        kw["source_info"] = info
    if extra is not None:
        kw["extra"] = extra
    given = None
    if case["time"] in ("given", "both") and steps > 1:
        given = torch.tensor(case["stamps"][:steps], dtype=torch.float32)
        kw["timestamps"] = given
    if case["time"] in ("len", "both"):
        kw["signal_len"] = case["signal_len"]
    ctx.label(f"{len(case['room']['size'])}D", "moving" if steps > 1 else "static", case["via"], f"time {case['time']}")
    keep = {k: v.clone() for k, v in kw.items() if torch.is_tensor(v)}
    if case["via"] == "build":
        meta = sut(tio.build_metadata, **kw)
        path = Path(ctx.scratch()) / "new dir" / "m.json"
        sut(tio.save_metadata_json, path, meta)
    else:
        out = Path(ctx.scratch()) / "a/b"
        log = None
        records = []
        if case["log"]:
            log = logging.getLogger("verif.c18")
            log.handlers, log.propagate = [], False
            log.setLevel(logging.DEBUG)
            h = logging.Handler()
            h.emit = records.append
            log.addHandler(h)
        meta = sut(tio.save_scene_metadata, out_dir=out, metadata_name="scène.json", logger=log, **kw)
        path = out / "scène.json"
        require(len(records) == (1 if log else 0) and all(str(path) in r.getMessage() for r in records), "saved file not logged exactly once")
    require([p.name for p in path.parent.iterdir()] == [path.name], "unexpected files beside the metadata")
    for k, v in keep.items():
        require(torch.equal(kw[k], v), f"{k} was modified")
    disk = json.loads(path.read_text(encoding="utf-8"))
    require(json.loads(json.dumps(meta)) == meta, "metadata does not survive a JSON round trip unchanged")
    require(disk == meta, "the file differs from the returned metadata")

    r = case["room"]
    require(meta["room"]["size"] == room.size.tolist() and meta["room"]["c"] == float(r["c"]) and meta["room"]["fs"] == float(r["fs"]), f"room {meta['room']}")
    require(meta["room"]["beta"] == (None if r["beta"] is None else room.beta.tolist()) and meta["room"]["t60"] == r["t60"], f"room surfaces {meta['room']}")
    for key, ent, pos, ori in (("sources", src, case["srcs"], case["ori"]["src"]), ("mics", mic, case["mics"], case["ori"]["mic"])):
        e = 0 if case["dtype"] == "float64" else 1e-6
        same(meta[key]["positions"], pos, e * 10, f"{key} positions")
        require((meta[key]["orientation"] is None) == (ori is None), f"{key} orientation presence")
        if ori is not None:
            same(meta[key]["orientation"], ori, e, f"{key} orientation")
    require(meta["rirs_shape"] == list(rirs.shape), f"rirs_shape {meta['rirs_shape']}")
    require(meta["dynamic"] is (steps > 1), f"dynamic {meta['dynamic']} with {steps} steps")
    ta = meta["time_axis"]
    require(ta["fs"] == float(r["fs"]) and ta["nsample"] == case["nsample"], f"time axis {ta}")
    same(ta["t"], np.arange(case["nsample"]) / r["fs"], 1e-6 * case["nsample"] / r["fs"], "time axis")

    # positions per step
    def per_step(v, pos):
        a = np.array(pos, float)[None] if v is None else np.array(v, float)
        return np.broadcast_to(a, (steps, *a.shape[1:])) if a.shape[0] == 1 else a

    s, m = per_step(case["src_traj"], case["srcs"]), per_step(case["mic_traj"], case["mics"])
    f32 = case["dtype"] == "float32"
    for key, want in (("sources", s), ("mics", m)):
        got = meta["trajectories"][key]
        if steps > 1:
            same(got, want, 1e-5 if f32 else 0, f"trajectory of the {key}")
        else:
            require(got is None, "trajectory recorded for a static scene")
    vec = s[:, :, None, :] - m[:, None, :, :]
    flat = np.hypot(vec[..., 0], vec[..., 1])
    z = vec[..., 2] if vec.shape[-1] == 3 else np.zeros_like(flat)
    far = np.hypot(flat, z)
    err = 5e-6 if f32 or case["tdtype"] == "same" and f32 else 1e-12
    az, el = np.array(meta["doa"]["azimuth"], float), np.array(meta["doa"]["elevation"], float)
    require(meta["doa"]["unit"] == "radians" and meta["doa"]["frame"] == "world", f"doa {meta['doa']['unit']} {meta['doa']['frame']}")
    require(az.shape == el.shape == flat.shape, f"directions of arrival {az.shape}, expected {flat.shape}")
    diff = np.angle(np.exp(1j * (az - np.arctan2(vec[..., 1], vec[..., 0]))))
    tol = err / np.maximum(flat, 1e-12) + err
    bad = (np.abs(diff) > tol) & (flat > 1e-3)
    require(not bad.any() and np.abs(az).max() <= math.pi + 1e-6, lambda: f"azimuth off by {np.abs(diff[bad]).max():.3g} rad at {np.argwhere(bad)[0].tolist()}")
    diff = el - np.arctan2(z, flat)
    bad = (np.abs(diff) > err / np.maximum(far, 1e-12) + err) & (far > 1e-3)
    require(not bad.any(), lambda: f"elevation off by {np.abs(diff[bad]).max():.3g} rad at {np.argwhere(bad)[0].tolist()}")

    ts = meta["timestamps"]
    if given is not None:
        require(ts == given.tolist(), "given timestamps not recorded as given")
    elif steps > 1 and case["time"] in ("len", "both"):
        end = max(0.0, (case["signal_len"] - 1) / r["fs"])
        same(ts, np.linspace(0, end, steps), 1e-6 * end, "timestamps")
    else:
        require(ts is None, f"timestamps {ts} without a signal or steps")

    arr = meta["array"]
    require(arr["positions"] == meta["mics"]["positions"] and arr["orientation"] == meta["mics"]["orientation"], "array attributes disagree with the microphones")
    same(arr["center"], np.mean(case["mics"], axis=0), 1e-5 if f32 else 1e-12, "array centre")
    p = np.array(case["mics"], float)
    if len(p) < 2:
        require(arr["spacing"] is None, f"spacing {arr['spacing']} of one microphone")
    else:
        d = np.linalg.norm(p[:, None] - p[None], axis=-1)
        np.fill_diagonal(d, np.inf)
        if d.min() > 1e-4:
            same(arr["spacing"], d.min(), 2e-6 if f32 else 1e-12, "smallest microphone spacing")
    require(("source_info" in meta) == (info is not None) and (info is None or meta["source_info"] == info_json), "source_info not recorded as given")
    if extra:
        require(meta.get("extra") == extra_json, f"extra recorded as {meta.get('extra')}")


@st.composite
def bad_cases(draw):
    base = draw(cases())
    return dict(base=base, kind=draw(st.sampled_from(["dim", "dim flat", "steps", "ndim1", "ndim4", "type"])), who=draw(st.sampled_from(["src", "mic"])),
                a=draw(st.integers(2, 5)), b=draw(st.integers(2, 5)))


def run_bad(case, ctx):
    import torchrir.io as tio

    base = dict(case["base"], src_traj=None, mic_traj=None)
    room, src, mic, _, _, rirs = make(base)
    dim = room.size.numel()
    kind, who = case["kind"], case["who"]
    n = len(base["srcs"] if who == "src" else base["mics"])
    kw = dict(room=room, sources=src, mics=mic, rirs=rirs)
    errs = ValueError
    if kind == "steps":
        if case["a"] == case["b"]:
            ctx.trivial()
            return
        kw["src_traj"] = torch.ones(case["a"], len(base["srcs"]), dim)
        kw["mic_traj"] = torch.ones(case["b"], len(base["mics"]), dim)
    else:
        shape = dict(dim=(case["a"], n, 5 - dim), ndim1=(dim,), ndim4=(1, case["a"], n, dim), type=(case["a"], n, dim))
        shape["dim flat"] = (case["a"], 5 - dim)
        t = torch.ones(shape[kind])
        if kind == "type":
            t, errs = t.tolist(), (TypeError, ValueError)
        kw[f"{who}_traj"] = t
    ctx.label(kind, who)
    expect_raises(errs, tio.build_metadata, what=f"{kind} ({who})", **kw)
    out = Path(ctx.scratch()) / "o"
    expect_raises(errs, tio.save_scene_metadata, out_dir=out, metadata_name="m.json", what=f"{kind} ({who})", **kw)
    require(not (out / "m.json").exists(), "rejected, but a metadata file was written")


CHECK = Check(
    "C18",
    [
        Law("record", cases, run, quick=500, thorough=10000, rule="every field against the generated scene, by the check's own float64 geometry"),
        Law("rejects", bad_cases, run_bad, quick=120, thorough=2000, rule="trajectories that disagree in length or dimension"),
    ],
    rule="distinct cases",
    assumptions=["extra and source information are JSON-like values with string keys (tensors, paths and tuples allowed)",
                 "directions of arrival are undefined for coincident points, and the azimuth for points on one vertical line",
                 "spacing is the distance of distinct microphones; single-precision scenes are compared with single-precision tolerance"],
)
