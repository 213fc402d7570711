"""C09: scene models accept exactly the valid inputs and keep their values."""

import math
import warnings

from hypothesis import strategies as st
import numpy as np
import torch

from .. import gens, ism_model
from ..core import Check, Law, Violation, expect_raises, require, sut
from ..simlib import as_np, config, eps_for, same

NAN, INF = float("nan"), float("inf")
SPECIAL = {"nan": NAN, "inf": INF, "-inf": -INF}


def num(x):
    return SPECIAL[x] if isinstance(x, str) else x


def nums(v):
    return [nums(x) for x in v] if isinstance(v, list) else num(v)


def flat(v):
    if not isinstance(v, list):
        return [v]
    return [y for x in v for y in flat(x)]


def represent(values, rep):
    """The same numbers as list, tuple or tensor of some type."""
    if rep == "list":
        return values
    if rep == "tuple":
        return tuple(tuple(v) if isinstance(v, list) else v for v in values)
    if rep == "ints":
        return [[int(x) for x in v] if isinstance(v, list) else int(v) for v in values]
    dtype = getattr(torch, rep)
    return torch.tensor(values, dtype=torch.float64).to(dtype)


FLOAT_REPS = ["list", "tuple", "float32", "float64"]
INT_REPS = ["list", "tuple", "ints", "float32", "float64", "int64", "int32", "int16"]


# ---------------------------------------------------------------- same scene in every representation


@st.composite
def same_cases(draw):
    dim = draw(st.sampled_from([2, 3]))
    integral = draw(st.integers(0, 3)) > 0
    if integral:
        size = draw(st.lists(st.integers(3, 9), min_size=dim, max_size=dim))
        pt = lambda: [draw(st.integers(1, s - 1)) for s in size]  # noqa: E731
    else:
        size = draw(gens.sizes(dim))
        pt = lambda: draw(gens.point(size))  # noqa: E731
    n_src, n_mic = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    srcs, mics = [pt() for _ in range(n_src)], [pt() for _ in range(n_mic)]
    k = draw(st.integers(1, 3))
    beta01 = draw(st.booleans())
    beta = [draw(st.integers(0, 1)) if beta01 else draw(gens.uniform(0.0, 1.0)) for _ in range(2 * dim)] if draw(st.booleans()) else None
    reps = INT_REPS if integral else FLOAT_REPS
    ori = None
    if draw(st.integers(0, 2)) == 0:
        ori = [[draw(st.integers(-3, 3)) for _ in range(dim)] for _ in range(n_src)]
        ori = [o if any(o) else [1] + o[1:] for o in ori]
    return dict(
        dim=dim, integral=integral, size=size, srcs=srcs, mics=mics, beta=beta, beta01=beta01, ori=ori,
        traj=[[pt() for _ in range(n_src)] for _ in range(k)], mtraj=[[pt() for _ in range(n_mic)] for _ in range(k)],
        fs=draw(st.sampled_from([4000, 8000.0, 16000, 7919.0])), c=draw(st.sampled_from([343, 343.0, 340, 331.5])),
        t60=draw(st.sampled_from([None, 1, 0.4])) if beta is None else None,
        reps={w: draw(st.sampled_from(reps)) for w in ("size", "src", "mic", "traj", "mtraj")},
        beta_rep=draw(st.sampled_from(INT_REPS if beta01 else FLOAT_REPS)), ori_rep=draw(st.sampled_from(INT_REPS)),
        how=draw(st.sampled_from(["shoebox", "Room"])), dynamic=draw(st.booleans()), order=draw(st.integers(0, 3)),
        single=draw(st.booleans()),
    )


def kept(value, expected, what):
    v = as_np(value)
    e = np.asarray(expected, float)
    require(v.shape == e.shape, f"{what} has shape {v.shape}, given {e.shape}")
    require(value.is_floating_point(), f"{what} kept as {value.dtype}")
    same(v, e, 1e-6 * (1 + np.abs(e)), what)


def run_same(case, ctx):
    from torchrir import MicrophoneArray, Room, Source
    from torchrir.models import DynamicScene, StaticScene
    from torchrir.sim import ISMSimulator

    r = case["reps"]
    dim = case["dim"]
    srcs, mics = case["srcs"], case["mics"]
    size, beta = represent(case["size"], r["size"]), None if case["beta"] is None else represent(case["beta"], case["beta_rep"])
    kw = dict(size=size, fs=case["fs"], c=case["c"], beta=beta, t60=case["t60"])
    if case["how"] == "Room":
        if not torch.is_tensor(size):
            kw["size"] = torch.tensor([x for x in size])
        room = sut(Room, **kw)
    else:
        room = sut(Room.shoebox, **kw)
    kept(room.size, case["size"], "room size")
    if case["beta"] is None:
        require(room.beta is None, "beta appeared")
    else:
        kept(room.beta, case["beta"], "room beta")
    require(room.fs == case["fs"] and room.c == case["c"] and room.t60 == case["t60"], "fs, c or t60 changed")
    sp = represent(srcs, r["src"])
    flat_src = case["single"] and len(srcs) == 1
    src = sut(Source.from_positions, sp[0] if flat_src else sp,
              orientation=None if case["ori"] is None else represent(case["ori"], case["ori_rep"]))
    mic = sut(MicrophoneArray.from_positions, represent(mics, r["mic"]))
    kept(src.positions, srcs, "source positions")
    kept(mic.positions, mics, "microphone positions")
    if case["ori"] is not None:
        kept(src.orientation, case["ori"], "source orientation")
    sim = ISMSimulator(max_order=case["order"], nsample=150, directivity=("cardioid", "omni") if case["ori"] else None)
    traj, mtraj = [srcs], [mics]
    if case["dynamic"]:
        traj, mtraj = case["traj"], case["mtraj"]
        st_rep, mt_rep = r["traj"], r["mtraj"]
        scene = sut(DynamicScene, room=room, sources=src, mics=mic,
                    src_traj=traj3(traj, st_rep), mic_traj=traj3(mtraj, mt_rep))
        kept_traj(scene.src_traj, traj, "source trajectory")
        kept_traj(scene.mic_traj, mtraj, "microphone trajectory")
    else:
        scene = sut(StaticScene, room=room, sources=src, mics=mic)
    got = as_np(sut(sim.simulate, scene, config(use_lut=False)).rirs)
    if not case["dynamic"]:
        got = got[None]
    require(got.shape[0] == len(traj), "time steps")
    for t in range(len(traj)):
        pairs_ok = all(max(abs(a - b) for a, b in zip(p, q)) > 1e-3 for p in traj[t] for q in mtraj[t])
        if not pairs_ok:  # coincident points: amplitude is a rounding artefact
            continue
        ref, tol = ism_model.rir(case["size"], traj[t], mtraj[t], beta=case["beta"], t60=case["t60"], max_order=case["order"],
                                 fs=float(case["fs"]), c=float(case["c"]), nsample=150, fdl=81, **eps_for("float32"),
                                 **(dict(src_pat="cardioid", src_dirs=case["ori"]) if case["ori"] else {}))
        same(got[t], ref, tol, f"response of the scene given as {r} (step {t})")
    ctx.label("integral" if case["integral"] else "real", "dynamic" if case["dynamic"] else "static")
    ctx.trivial(all(v == "float64" for v in r.values()))


def traj3(traj, rep):
    if rep == "tuple":
        return tuple(tuple(tuple(p) for p in s) for s in traj)
    if rep == "ints":
        return [[[int(x) for x in p] for p in s] for s in traj]
    if rep == "list":
        return traj
    return torch.tensor(traj, dtype=torch.float64).to(getattr(torch, rep))


def kept_traj(value, expected, what):
    v = as_np(value)
    e = np.asarray(expected, float)
    require(v.shape == e.shape, f"{what} has shape {v.shape}, given {e.shape}")
    same(v, e, 1e-6 * (1 + np.abs(e)), what)


# ---------------------------------------------------------------- Room validity


BADPOS = [0, -1, -0.5, "nan", "-inf"]


@st.composite
def maybe(draw, good, bad, odds=6):
    return draw(st.sampled_from(bad)) if draw(st.integers(0, odds)) == 0 else draw(good)


@st.composite
def room_args(draw):
    n = draw(maybe(st.sampled_from([2, 3]), [0, 1, 4, 6]))
    size = [draw(maybe(gens.uniform(0.5, 9.0), BADPOS + ["inf"], 25)) for _ in range(n)]
    beta = t60 = None
    kind = draw(st.sampled_from(["none", "beta", "t60", "both"] + ["beta", "t60"] * 3))
    if kind in ("beta", "both"):
        m = draw(maybe(st.just(2 * n), [0, 1, 2 * n - 1, 2 * n + 1, 4, 6, n], 8))
        beta = [draw(maybe(st.one_of(gens.uniform(0.0, 1.0), st.sampled_from([0, 1])), [1.01, -0.01, 2, "nan", "inf", "-inf"], 25)) for _ in range(max(0, m))]
    if kind in ("t60", "both"):
        t60 = draw(maybe(gens.uniform(0.05, 3.0), BADPOS))
    return dict(size=size, fs=draw(maybe(st.sampled_from([8000, 16000.0, 7919.5]), BADPOS)),
                c=draw(maybe(st.sampled_from([343, 343.0, 300.5]), BADPOS)), beta=beta, t60=t60,
                nest=draw(st.integers(0, 12)) == 0)


def finite(v):
    return all(math.isfinite(num(x)) for x in flat(v))


def room_valid(a):
    if len(a["size"]) not in (2, 3) or a["nest"] or not finite(a["size"]) or any(num(x) <= 0 for x in a["size"]):
        return False
    if not (num(a["fs"]) > 0 and num(a["c"]) > 0):
        return False
    if a["beta"] is not None and a["t60"] is not None:
        return False
    if a["t60"] is not None and not num(a["t60"]) > 0:
        return False
    if a["beta"] is not None:
        if len(a["beta"]) != 2 * len(a["size"]) or not finite(a["beta"]):
            return False
        return all(0 <= num(b) <= 1 for b in a["beta"])
    return True


@st.composite
def room_cases(draw):
    a, b = draw(room_args()), draw(room_args())
    names = draw(st.lists(st.sampled_from(["size", "fs", "c", "beta", "t60"]), min_size=1, max_size=3, unique=True))
    return dict(first=a, second=b, names=names, how=draw(st.sampled_from(["shoebox", "Room"])), tensor=draw(st.booleans()))


def room_kw(a, tensor):
    size = nums(a["size"])
    if a["nest"]:
        size = [size]
    kw = dict(size=torch.tensor(size, dtype=torch.float64), fs=num(a["fs"]), c=num(a["c"]),
              beta=None if a["beta"] is None else torch.tensor(nums(a["beta"]), dtype=torch.float64),
              t60=None if a["t60"] is None else num(a["t60"]))
    if not tensor:
        kw["beta"] = None if a["beta"] is None else nums(a["beta"])
    return kw


def check_room(room, a, what):
    same(as_np(room.size), nums(a["size"]), 1e-6, what + " size")
    require(room.fs == num(a["fs"]) and room.c == num(a["c"]), f"{what}: fs or c changed")
    require((room.t60 is None) == (a["t60"] is None) and (room.t60 is None or room.t60 == num(a["t60"])), f"{what}: t60 is {room.t60}")
    require((room.beta is None) == (a["beta"] is None), f"{what}: beta is {room.beta}")
    if a["beta"] is not None:
        same(as_np(room.beta), nums(a["beta"]), 1e-6, what + " beta")


def decide(valid, fn, what, types=(ValueError, TypeError)):
    """Accepted exactly when valid."""
    if valid:
        return sut(fn)
    expect_raises(types, fn, what=what)
    return None


def run_room(case, ctx):
    from torchrir import Room

    a, b = case["first"], case["second"]
    kw = room_kw(a, case["tensor"])
    if not case["tensor"] and case["how"] == "shoebox":
        kw["size"] = [nums(a["size"])] if a["nest"] else nums(a["size"])
    valid = room_valid(a)
    build = Room.shoebox if case["how"] == "shoebox" else Room
    room = decide(valid, lambda: build(**kw), f"Room({a})")
    ctx.label("valid" if valid else "invalid")
    if room is None:
        return
    check_room(room, a, "room")
    merged = dict(a)
    for n in case["names"]:
        merged[n] = b[n]
    if "size" in case["names"]:
        merged["nest"] = b["nest"]
    full = room_kw(merged, case["tensor"])
    ok = room_valid(merged)
    ctx.label("replacement accepted" if ok else "replacement rejected")
    new = decide(ok, lambda: room.replace(**{n: full[n] for n in case["names"]}), f"replace {case['names']} giving {merged}")
    check_room(room, a, "original room after replace")
    if new is not None:
        check_room(new, merged, "replaced room")


# ---------------------------------------------------------------- entities


@st.composite
def entity_cases(draw):
    dim = draw(maybe(st.sampled_from([2, 3]), [1, 4]))
    n = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 4]))
    v = lambda odds=40: draw(maybe(gens.uniform(0.0, 5.0), ["nan", "inf", "-inf"], odds))  # noqa: E731
    ndim = draw(maybe(st.sampled_from([1, 2, 2]), [3]))
    if ndim == 1:
        pos = [v() for _ in range(dim)]
        n = 1
    else:
        pos = [[v() for _ in range(dim)] for _ in range(n)]
        if ndim == 3:
            pos = [pos]
    kind = draw(st.sampled_from(["none", "scalar", "vec", "vec", "mat", "mat", "cube"]))
    w = draw(st.sampled_from([1, 2, 3, n, 4, max(1, n - 1), n + 1]))
    if kind == "none":
        ori = None
    elif kind == "scalar":
        ori = v()
    elif kind == "vec":
        ori = [v() for _ in range(w)]
    else:
        rows = draw(maybe(st.just(n), [1, 2, n + 1, max(1, n - 1)], 3))
        ori = [[v(60) for _ in range(min(w, 4))] for _ in range(rows)]
        if kind == "cube":
            ori = [ori]
    return dict(dim=dim, ndim=ndim, n=n, pos=pos, ori=ori, kind=kind, cls=draw(st.sampled_from(["Source", "MicrophoneArray"])),
                how=draw(st.sampled_from(["from_positions", "direct"])), swap=draw(st.sampled_from(["none", "positions", "orientation"])))


def ori_valid(ori, kind, n, dim):
    if ori is None:
        return True
    if not finite(ori if isinstance(ori, list) else [ori]):
        return False
    if kind == "cube":
        return False
    if kind == "scalar":
        return dim == 2
    if kind == "vec":
        return len(ori) in ((1, 2, n) if dim == 2 else (2, 3))
    return len(ori) == n and len(ori[0]) in ((1, 2) if dim == 2 else (2, 3))


def run_entity(case, ctx):
    import torchrir

    cls = getattr(torchrir, case["cls"])
    dim, n = case["dim"], case["n"]
    pos_ok = case["ndim"] in (1, 2) and dim in (2, 3) and finite(case["pos"])
    ok = pos_ok and ori_valid(case["ori"], case["kind"], n, dim)
    pos = nums(case["pos"])
    ori = None if case["ori"] is None else (nums(case["ori"]) if isinstance(case["ori"], list) else num(case["ori"]))
    t_pos = torch.tensor(pos, dtype=torch.float64)
    t_ori = None if ori is None else torch.tensor(ori, dtype=torch.float64)
    ctx.label("valid" if ok else "invalid", f"orientation {case['kind']}")
    if case["how"] == "direct":
        ent = decide(ok, lambda: cls(t_pos, t_ori), f"{case['cls']}({case['pos']}, {case['ori']})", ValueError)
    else:
        ent = decide(ok, lambda: cls.from_positions(pos, orientation=ori), f"{case['cls']}.from_positions({case['pos']}, {case['ori']})", ValueError)
    base = cls.from_positions([[0.5] * (dim if dim in (2, 3) else 3)] * n)
    if case["swap"] == "orientation" and pos_ok:
        new = decide(ok, lambda: base.replace(orientation=t_ori), f"replace(orientation={case['ori']})", ValueError)
        if new is not None:
            require(torch.equal(new.positions, base.positions), "replacing the orientation changed the positions")
            require((new.orientation is None) == (t_ori is None), "orientation not replaced")
    elif case["swap"] == "positions":
        new = decide(pos_ok, lambda: base.replace(positions=t_pos), f"replace(positions={case['pos']})", ValueError)
        if new is not None:
            same(as_np(new.positions), np.asarray(pos, float).reshape(-1, dim), 1e-9, "replaced positions")
            require(new.orientation is None, "an orientation appeared")
    if ent is not None:
        same(as_np(ent.positions), np.asarray(pos, float).reshape(-1, dim), 1e-6, "positions kept")
        require((ent.orientation is None) == (ori is None), "orientation lost or invented")
        if ori is not None:
            same(as_np(ent.orientation), np.asarray(ori, float), 1e-6, "orientation kept")


# ---------------------------------------------------------------- scenes


@st.composite
def scene_cases(draw):
    dim = draw(st.sampled_from([2, 3]))
    n_src, n_mic, t = draw(st.integers(1, 3)), draw(st.integers(1, 3)), draw(st.integers(1, 4))
    fault = draw(st.sampled_from([None, None, None, "src_dim", "mic_dim", "src_count", "mic_count", "traj_dim", "steps", "nan", "ndim",
                                  "room_type", "src_type", "mic_type", "one_traj", "flat_many", "swapped"]))
    return dict(dim=dim, n_src=n_src, n_mic=n_mic, t=t, fault=fault, cls=draw(st.sampled_from(["StaticScene", "DynamicScene", "Scene"])),
                dynamic=draw(st.booleans()), flat=draw(st.booleans()), who=draw(st.sampled_from(["src", "mic"])),
                bad=draw(st.sampled_from(["nan", "inf", "-inf"])), later=draw(st.booleans()), i=draw(st.integers(0, 11)))


def run_scene(case, ctx):
    from torchrir import MicrophoneArray, Room, Source
    from torchrir import models

    dim, f, who = case["dim"], case["fault"], case["who"]
    cls = getattr(models, case["cls"])
    dynamic = case["cls"] == "DynamicScene" or (case["cls"] == "Scene" and case["dynamic"])
    room = Room.shoebox([4.0] * dim, fs=8000)
    sd, md = (5 - dim if f == "src_dim" else dim), (5 - dim if f == "mic_dim" else dim)
    src = Source.from_positions([[1.0 + i] + [1.0] * (sd - 1) for i in range(case["n_src"])])
    mic = MicrophoneArray.from_positions([[1.0 + i] + [2.0] * (md - 1) for i in range(case["n_mic"])])
    counts = dict(src=case["n_src"], mic=case["n_mic"])
    trajs = {w: torch.rand(case["t"], counts[w], dim, generator=torch.Generator().manual_seed(1)) for w in counts}
    expected = None
    if f in ("src_dim", "mic_dim"):
        expected = ValueError
    elif f in ("room_type", "src_type", "mic_type"):
        expected = TypeError
        if f == "room_type":
            room = [4.0] * dim
        elif f == "src_type":
            src = mic if who == "src" else torch.ones(1, dim)
        else:
            mic = src if who == "mic" else torch.ones(1, dim)
    elif f is not None and dynamic:
        expected = ValueError
        if f in ("src_count", "mic_count"):
            w = f[:3]
            trajs[w] = torch.rand(case["t"], counts[w] + 1, dim)
        elif f == "traj_dim":
            trajs[who] = torch.rand(case["t"], counts[who], 5 - dim)
        elif f == "steps":
            trajs[who] = torch.rand(case["t"] + 1, counts[who], dim)
        elif f == "nan":
            trajs[who].view(-1)[case["i"] % trajs[who].numel()] = num(case["bad"])
        elif f == "ndim":
            trajs[who] = trajs[who].unsqueeze(0) if case["flat"] else trajs[who][0, 0]
        elif f == "flat_many":
            if counts[who] == 1:
                expected = None
            trajs[who] = trajs[who][:, 0]
        elif f == "one_traj":
            if case["cls"] != "Scene":
                expected = None
            else:
                trajs[who] = None
        elif f == "swapped":
            if counts["src"] == counts["mic"]:
                expected = None
            else:
                trajs = dict(src=trajs["mic"], mic=trajs["src"])
    elif f is not None:
        f = None
    if f is None and dynamic and case["flat"] and counts[who] == 1:
        trajs[who] = trajs[who][:, 0]
    kw = dict(room=room, sources=src, mics=mic)
    if dynamic:
        kw.update(src_traj=trajs["src"], mic_traj=trajs["mic"])
    ctx.label(f"{case['cls']} {f}", "valid" if expected is None else "invalid")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if expected is not None:
            expect_raises(expected, cls, what=f"{case['cls']} with {f}", **kw)
            return
        scene = sut(cls, **kw)
        sut(scene.validate)
        require(scene.is_dynamic() == dynamic, "is_dynamic")
        require(scene.room is room and scene.sources is src and scene.mics is mic, "scene replaced its parts")
        if case["cls"] == "Scene":
            expect_raises(ValueError, scene.to_static_scene if dynamic else scene.to_dynamic_scene, what="conversion to the other kind")
            conv = sut(scene.to_dynamic_scene if dynamic else scene.to_static_scene)
            require(type(conv).__name__ == ("DynamicScene" if dynamic else "StaticScene"), "conversion type")
            if dynamic:
                require(torch.equal(conv.src_traj, trajs["src"]) and torch.equal(conv.mic_traj, trajs["mic"]), "conversion changed trajectories")
        if dynamic:
            require(torch.equal(scene.src_traj, trajs["src"]) and torch.equal(scene.mic_traj, trajs["mic"]), "trajectories changed")
            if case["later"]:  # trajectories that become invalid are noticed on re-validation
                tr = scene.src_traj if who == "src" else scene.mic_traj
                tr.view(-1)[case["i"] % tr.numel()] = num(case["bad"])
                expect_raises(ValueError, scene.validate, what="re-validation of a scene with non-finite trajectory")


# ---------------------------------------------------------------- configuration


FIELDS = dict(
    fs=([None, 8000, 16000.0], [0, -1.0]), max_order=([None, 0, 3], [-1, -5]), tmax=([None, 0.1, 1], [0, -0.5]),
    seed=([None, 0, 123], [-1]), frac_delay_length=([1, 41, 81], [0, -3, 80, 2]), sinc_lut_granularity=([1, 20], [0, -2]),
    image_chunk_size=([1, 2048], [0, -1]), accumulate_chunk_size=([1, 4096], [0, -7]), rir_hpf_fc=([10.0, 0.1], [0, -10.0]),
    rir_hpf_kwargs=([{}, {"n": 1}, {"n": 2, "type": "butter"}], [{"n": 0}, {"n": -2}]),
    directivity=([None, "omni", ["omni", "cardioid"]], []), use_lut=([True, False], []), rir_hpf_enable=([True, False], []),
)


@st.composite
def cfg_cases(draw):
    def pick():
        names = draw(st.lists(st.sampled_from(sorted(FIELDS)), max_size=5, unique=True))
        out = {}
        for n in names:
            good, bad = FIELDS[n]
            out[n] = draw(st.sampled_from(bad)) if bad and draw(st.integers(0, 7)) == 0 else draw(st.sampled_from(good))
        return out
    return dict(first=pick(), second=pick())


def cfg_valid(vals):
    return all(v in FIELDS[n][0] and not any(v == b and type(v) is type(b) for b in FIELDS[n][1]) for n, v in vals.items())


def run_cfg(case, ctx):
    from dataclasses import asdict

    from torchrir.config import SimulationConfig, default_config
    from torchrir import Room
    from torchrir.sim import simulate_rir

    conv = lambda d: {k: tuple(v) if isinstance(v, list) else v for k, v in d.items()}  # noqa: E731
    a, b = case["first"], case["second"]
    merged = {**a, **b}
    ok, ok2 = cfg_valid(a), cfg_valid(merged)
    ctx.label("valid" if ok else "invalid", "replacement valid" if ok2 else "replacement invalid")

    def make():
        c = SimulationConfig(**conv(a))
        c.validate()
        return c

    cfg = decide(ok, make, f"SimulationConfig({a})", ValueError)
    if not ok:
        def use():
            simulate_rir(room=Room.shoebox([3.0, 4.0], fs=8000), sources=torch.ones(1, 2), mics=torch.full((1, 2), 2.0),
                         max_order=0, nsample=100, config=SimulationConfig(**conv(a)))
        expect_raises(ValueError, use, what=f"simulating with {a}")
        return
    before = asdict(cfg)
    want = {**asdict(default_config()), **conv(a)}
    require(before == want, f"configuration fields {before}, expected {want}")
    new = decide(ok2, lambda: cfg.replace(**conv(b)), f"replace({b}) on {a}", ValueError)
    require(asdict(cfg) == before, "replace changed the original")
    if new is not None:
        require(asdict(new) == {**before, **conv(b)}, f"replace({b}) gave {asdict(new)}")


CHECK = Check(
    id="C09",
    technique="property-based testing: validity model over generated constructor inputs and representation metamorphism",
    rule=("Cases are constructor and replacement inputs mixing valid and invalid fields (sizes, rates, coefficients, T60, shapes, counts, "
          "orientations, trajectories, types, configuration values), decided by an independent validity model, plus valid scenes given "
          "in different representations; non-trivial unless everything is a double tensor."),
    note="Acceptance must coincide with the validity model; accepted scenes must simulate to the reference of the numbers given.",
    laws=[
        Law("same_scene_any_representation", same_cases, run_same, quick=1400, thorough=28000),
        Law("room_validity", room_cases, run_room, quick=2000, thorough=40000),
        Law("entity_validity", entity_cases, run_entity, quick=4000, thorough=40000),
        Law("scene_validity", scene_cases, run_scene, quick=1200, thorough=20000),
        Law("config_validity", cfg_cases, run_cfg, quick=1000, thorough=20000),
    ],
    assumptions=["Infinite sample rates, speeds and T60 values are not generated (documented as positive numbers only)."],
)
_ = Violation
