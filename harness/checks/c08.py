"""C08: how arguments, configuration and the simulator object resolve to one simulation."""

import math
import warnings
from fractions import Fraction

from hypothesis import strategies as st
import torch

from .. import gens, scenes
from ..core import Check, Law, expect_raises, require, sut
from ..simlib import as_np, config, dt, make_room, same, tens


@st.composite
def length(draw, fs):
    """How the response length is given: explicit count and/or duration, as argument and/or configuration."""
    n = draw(st.integers(20, 400))
    kind = draw(st.sampled_from(["whole", "between", "float"]))
    if kind == "whole":
        tmax = n / fs
    elif kind == "between":
        tmax = (n - draw(gens.uniform(0.05, 0.95))) / fs
    else:
        tmax = draw(st.sampled_from([0.01, 0.02, 0.05, 0.005, 0.0125]))
    return dict(nsample=n if draw(st.booleans()) else None, tmax=tmax,
                tmax_arg=draw(st.booleans()), tmax_cfg=draw(st.sampled_from(["none", "same", "other"])), tmax_factor=draw(st.sampled_from([0.3, 0.7, 1.7, 4.0])))


def expected_lengths(ln, fs):
    if ln["nsample"] is not None:
        return {ln["nsample"]}
    return {math.ceil(ln["tmax"] * fs), math.ceil(Fraction(ln["tmax"]) * Fraction(fs))}


@st.composite
def cases(draw):
    c = draw(scenes.static(max_n=2, walls=False, lens=st.just(100)))
    fs = c["room"]["fs"]
    ln = draw(length(fs))
    if ln["nsample"] is None and not ln["tmax_arg"] and ln["tmax_cfg"] != "same":
        ln["tmax_cfg"] = "same"
    order = c["limit"]["max_order"]
    c.update(
        len=ln,
        order=dict(arg=draw(st.booleans()), other=draw(st.integers(0, 6))),
        dir_where=draw(st.sampled_from(["arg", "config", "both"])), dir_other=draw(st.sampled_from(["omni", "cardioid", "bidir"])),
        nb_form=draw(st.sampled_from(["tuple", "tensor"])), dynamic=draw(st.booleans()), steps=draw(st.integers(1, 3)),
        dtype=draw(st.sampled_from([None, "float64", "float32"])), single=draw(st.booleans()),
    )
    c["order"]["value"] = order
    return c


def nb(case):
    v = case["limit"]["nb_img"]
    return None if v is None else (tuple(v) if case["nb_form"] == "tuple" else torch.tensor(v))


def trajs(case):
    k = case["steps"]
    src = [[[x * (1.0 - 0.05 * t) for x in p] for p in case["srcs"]] for t in range(k)]
    mic = [[[x * (1.0 - 0.03 * t) for x in p] for p in case["mics"]] for t in range(k)]
    return tens(src), tens(mic)


def run_resolution(case, ctx):
    from torchrir.sim import simulate_dynamic_rir, simulate_rir

    ln, d = case["len"], case["dir"]
    fs = case["room"]["fs"]
    dim = len(case["room"]["size"])
    room = make_room(case["room"])
    base_cfg = dict(frac_delay_length=case["fdl"], use_lut=False)
    pats = ("omni", "omni") if d is None else (d["src"], d["mic"])
    ori = None if d is None else (tens(d["src_dir"]), tens(d["mic_dir"]))
    if d is None:  # orientation present but irrelevant, so that a wrongly applied pattern shows
        ori = (torch.eye(dim, dtype=torch.float64)[0], torch.eye(dim, dtype=torch.float64)[1])
    if d is not None and case["single"]:
        pats = (d["src"], d["src"])
    pat_arg = pats[0] if pats[0] == pats[1] and case["single"] else pats
    # resolved settings, split between arguments and configuration
    args, cfgs = {}, dict(base_cfg)
    if case["order"]["arg"]:
        args["max_order"] = case["order"]["value"]
        cfgs["max_order"] = case["order"]["other"]
    else:
        args["max_order"] = None
        cfgs["max_order"] = case["order"]["value"]
    if case["dir_where"] == "arg":
        args["directivity"] = pat_arg
    elif case["dir_where"] == "config":
        cfgs["directivity"] = pat_arg
    else:
        args["directivity"] = pat_arg
        cfgs["directivity"] = case["dir_other"]
    if ln["nsample"] is not None:
        args["nsample"] = ln["nsample"]
    if ln["tmax_arg"]:
        args["tmax"] = ln["tmax"]
    if ln["tmax_cfg"] == "same" or (ln["tmax_cfg"] == "other" and (ln["tmax_arg"] or ln["nsample"] is not None)):
        cfgs["tmax"] = ln["tmax"] if ln["tmax_cfg"] == "same" else ln["tmax"] * ln["tmax_factor"]
    if case["dtype"] is not None:
        args["dtype"] = dt(case["dtype"])
    dynamic = case["dynamic"]
    lens = expected_lengths(ln, fs)
    src_t, mic_t = trajs(case)

    def call(**kw):
        if dynamic:
            return sut(simulate_dynamic_rir, room=room, src_traj=src_t, mic_traj=mic_t, nb_img=nb(case), orientation=ori, **kw)
        return sut(simulate_rir, room=room, sources=tens(case["srcs"]), mics=tens(case["mics"]), nb_img=nb(case), orientation=ori, **kw)

    got = call(config=config(**cfgs), **args)
    lead = (case["steps"],) if dynamic else ()
    shape = lead + (len(case["srcs"]), len(case["mics"]))
    require(tuple(got.shape[:-1]) == shape and got.shape[-1] in lens, f"shape {tuple(got.shape)}, expected {shape} + {sorted(lens)}")
    require(got.dtype == (dt(case["dtype"]) if case["dtype"] else torch.float64), f"dtype {got.dtype}")
    ref = call(config=config(**base_cfg), max_order=case["order"]["value"], nsample=int(got.shape[-1]), directivity=pats)
    f32 = case["dtype"] == "float32"
    if f32 and "homni" in pats:
        ctx.trivial()
        return
    peak = max(1e-9, float(as_np(ref).__abs__().max()))
    if f32:
        ref = call(config=config(**base_cfg), max_order=case["order"]["value"], nsample=int(got.shape[-1]), directivity=pats, dtype=torch.float32)
    same(as_np(got), as_np(ref), (3e-4 if f32 else 1e-9) * peak, "response against the explicit, unambiguous call")
    ctx.label("dynamic" if dynamic else "static", "length by count" if ln["nsample"] else "length by duration",
              f"directivity from {case['dir_where']}", "order from " + ("argument" if case["order"]["arg"] else "config"))


@st.composite
def sim_cases(draw):
    c = draw(scenes.static(max_n=3, walls=False, lens=st.integers(30, 400)))
    c.update(kind=draw(st.sampled_from(["static", "dynamic", "scene_static", "scene_dynamic"])), steps=draw(st.integers(1, 3)),
             seed=draw(st.one_of(st.none(), st.integers(0, 10**6))), hpf=draw(st.booleans()), use_cfg=draw(st.integers(0, 5)),
             cfg_order=draw(st.booleans()), cfg_tmax=draw(st.sampled_from(["none", "same"])), by_tmax=draw(st.booleans()),
             nb_form=draw(st.sampled_from(["tuple", "tensor"])), dir_in_cfg=draw(st.booleans()), flat=draw(st.booleans()),
             dtype=draw(st.sampled_from([None, "float32"])), device=draw(st.sampled_from([None, "cpu", "auto"])))
    return c


def run_simulator(case, ctx):
    from torchrir import MicrophoneArray, Source
    from torchrir.config import default_config
    from torchrir.models import DynamicScene, Scene, StaticScene
    from torchrir.sim import ISMSimulator, simulate_dynamic_rir, simulate_rir

    d = case["dir"]
    fs = case["room"]["fs"]
    room = make_room(case["room"])
    sources = sut(Source.from_positions, tens(case["srcs"]), orientation=None if d is None else tens(d["src_dir"]))
    mics = sut(MicrophoneArray.from_positions, tens(case["mics"]), orientation=None if d is None else tens(d["mic_dir"]))
    pats = None if d is None else (d["src"], d["mic"])
    tmax = (case["nsample"] - 0.5) / fs
    default = case["use_cfg"] == 0
    lim = dict(max_order=case["limit"]["max_order"], nb_img=nb(case))
    ln = dict(tmax=tmax) if case["by_tmax"] else dict(nsample=case["nsample"])
    in_cfg = case["dir_in_cfg"] and not default
    cfg = None if default else config(
        frac_delay_length=case["fdl"], rir_hpf_enable=case["hpf"], seed=case["seed"],
        max_order=case["limit"]["max_order"] if case["cfg_order"] else None,
        tmax=tmax if case["cfg_tmax"] == "same" else None, directivity=pats if in_cfg else None)
    extra = dict(dtype=None if case["dtype"] is None else dt(case["dtype"]), device=case["device"])
    sim = sut(ISMSimulator, directivity=None if in_cfg else pats, **lim, **ln, **extra)
    dynamic = "dynamic" in case["kind"]
    src_t, mic_t = trajs(case)
    if case["flat"] and len(case["srcs"]) == 1:
        src_t = src_t[:, 0]
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        if case["kind"] == "static":
            scene = sut(StaticScene, room=room, sources=sources, mics=mics)
        elif case["kind"] == "dynamic":
            scene = sut(DynamicScene, room=room, sources=sources, mics=mics, src_traj=src_t, mic_traj=mic_t)
        elif case["kind"] == "scene_static":
            scene = sut(Scene, room=room, sources=sources, mics=mics)
        else:
            scene = sut(Scene, room=room, sources=sources, mics=mics, src_traj=src_t, mic_traj=mic_t)
        res = sut(sim.simulate, scene, cfg) if cfg is not None else sut(sim.simulate, scene)
    deprecated = case["kind"].startswith("scene")
    require(any(issubclass(w.category, DeprecationWarning) for w in caught) == deprecated,
            f"deprecation warnings {[str(w.message) for w in caught]} for a {case['kind']} scene")
    require(scene.is_dynamic() == dynamic, "is_dynamic disagrees with the scene")
    kw = dict(room=room, config=cfg, directivity=pats, **lim, **ln, **extra)
    if dynamic:
        want = sut(simulate_dynamic_rir, src_traj=src_t, mic_traj=mic_t,
                   orientation=None if d is None else (tens(d["src_dir"]), tens(d["mic_dir"])), **kw)
    else:
        want = sut(simulate_rir, sources=sources, mics=mics, **kw)
    require(res.rirs.dtype == want.dtype and res.rirs.shape == want.shape,
            f"shape {tuple(res.rirs.shape)} {res.rirs.dtype}, the function gives {tuple(want.shape)} {want.dtype}")
    peak = float(want.abs().max())
    same(as_np(res.rirs), as_np(want), (1e-12 if case["dtype"] is None else 1e-6) * peak + 1e-300, "simulator against the function call")
    if deprecated:
        require(isinstance(res.scene, DynamicScene if dynamic else StaticScene), f"result scene is {type(res.scene)}")
        require(res.scene.room is room and res.scene.sources is sources and res.scene.mics is mics, "result scene has other contents")
    else:
        require(res.scene is scene, "result does not carry the scene it was given")
    require(res.config == (default_config() if default else cfg), "result does not carry the configuration used")
    require(res.seed == (None if default else case["seed"]), f"result seed {res.seed}")
    ctx.label(case["kind"], "directional" if d else "omni", "no configuration" if default else "configuration")


@st.composite
def bad_cases(draw):
    room = draw(gens.rooms())
    dim = len(room["size"])
    kind = draw(st.sampled_from([
        "no_order", "no_length", "nsample", "order", "nb_negative", "nb_count", "room_type", "room_none", "cfg_order", "cfg_tmax",
        "sim_order", "sim_nothing", "sim_tmax", "sim_nsample", "conflict_order", "conflict_tmax", "scene_type"]))
    return dict(room=room, dim=dim, kind=kind, dynamic=draw(st.booleans()), neg=draw(st.integers(-20, -1)), nonpos=draw(st.integers(-9, 0)),
                axis=draw(st.integers(0, dim - 1)), extra=draw(st.sampled_from([-1, 1, 2])), tensor=draw(st.booleans()),
                delta=draw(st.integers(1, 4)), near=draw(st.sampled_from([0.005, -0.004, 1e-4, -1e-4, 1e-7])), has_nb=draw(st.booleans()), scene=draw(st.booleans()))


def run_bad(case, ctx):
    from torchrir import MicrophoneArray, Source
    from torchrir.config import SimulationConfig
    from torchrir.models import DynamicScene, Scene, StaticScene
    from torchrir.sim import ISMSimulator, simulate_dynamic_rir, simulate_rir

    k, dim = case["kind"], case["dim"]
    room = make_room(case["room"])
    kw = dict(max_order=1, nsample=40)
    types = ValueError
    cfg = config()
    ctx.label(k)
    nbv = [1] * dim
    if case["has_nb"] and k in ("no_length", "nsample"):
        kw["nb_img"] = tuple(nbv)
    if k == "no_order":
        kw["max_order"] = None
    elif k == "no_length":
        del kw["nsample"]
    elif k == "nsample":
        kw["nsample"] = case["nonpos"]
    elif k == "order":
        kw["max_order"] = case["neg"]
    elif k == "nb_negative":
        nbv[case["axis"]] = case["neg"]
        kw["nb_img"] = torch.tensor(nbv) if case["tensor"] else tuple(nbv)
    elif k == "nb_count":
        nbv = [1] * (dim + case["extra"])
        kw["nb_img"] = torch.tensor(nbv) if case["tensor"] else tuple(nbv)
    elif k in ("room_type", "room_none"):
        room = None if k == "room_none" else list(case["room"]["size"])
        types = TypeError
    elif k == "cfg_order":
        kw["max_order"] = None
    sim = None
    pos = tens([[0.5] * dim])
    traj = tens([[[0.5] * dim]] * 2)
    src, mic = Source.from_positions(pos), MicrophoneArray.from_positions(pos + 0.1)

    def run_one(c):
        if case["dynamic"]:
            return simulate_dynamic_rir(room=room, src_traj=traj, mic_traj=traj + 0.1, config=c, **kw)
        return simulate_rir(room=room, sources=pos, mics=pos + 0.1, config=c, **kw)

    def scene():
        if case["dynamic"]:
            cls = Scene if case["scene"] else DynamicScene
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return cls(room=room, sources=src, mics=mic, src_traj=traj, mic_traj=traj + 0.1)
        cls = Scene if case["scene"] else StaticScene
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return cls(room=room, sources=src, mics=mic)

    if k == "cfg_order":
        expect_raises(ValueError, lambda: run_one(SimulationConfig(max_order=case["neg"])), what="negative order in the configuration")
    elif k == "cfg_tmax":
        expect_raises(ValueError, lambda: run_one(SimulationConfig(tmax=float(case["nonpos"]))), what="non-positive duration in the configuration")
    elif k == "sim_order":
        expect_raises(ValueError, ISMSimulator, max_order=case["neg"], nsample=40, what="negative order")
    elif k == "sim_nothing":
        expect_raises(ValueError, ISMSimulator, max_order=1, what="neither duration nor count")
    elif k == "sim_tmax":
        expect_raises(ValueError, ISMSimulator, max_order=1, tmax=float(case["nonpos"]), what="non-positive duration")
    elif k == "sim_nsample":
        expect_raises(ValueError, ISMSimulator, max_order=1, nsample=case["nonpos"], what="non-positive count")
    elif k in ("conflict_order", "conflict_tmax"):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if k == "conflict_order":
                sim = ISMSimulator(max_order=case["delta"] - 1, nsample=40)
                c = config(max_order=case["delta"] + (case["axis"]))
            else:
                sim = ISMSimulator(max_order=1, tmax=0.01 * case["delta"])
                c = config(tmax=0.01 * case["delta"] + case["near"])
            expect_raises(ValueError, sim.simulate, scene(), c, what=k)
    elif k == "scene_type":
        sim = ISMSimulator(max_order=1, nsample=40)
        for bad in (None, {"room": room}, (room, src, mic)):
            expect_raises(TypeError, sim.simulate, bad, what="not a scene")
    else:
        expect_raises(types, run_one, cfg, what=k)


FORMS = ["entity", "entity list", "entity tuple", "entity numpy", "raw", "strided", "transposed", "reversed view", "float32", "integer", "single point", "entity single point"]


@st.composite
def form_cases(draw):
    dim = draw(st.sampled_from([2, 3, 3]))
    size = [float(draw(st.integers(3, 7))) for _ in range(dim)]
    whole = draw(st.booleans())

    def point():
        return [float(draw(st.integers(1, int(s) - 1))) if whole else draw(st.integers(1, 8 * int(s) - 1)) / 8 for s in size]

    n, m = draw(st.sampled_from([1, 1, 2, 3, 5])), draw(st.sampled_from([1, 1, 2, 3, 4]))
    same_points = draw(st.integers(0, 7)) == 7
    srcs = [point() for _ in range(n)]
    mics = srcs if same_points else [point() for _ in range(m)]
    steps = draw(st.integers(1, 4))
    return dict(size=size, srcs=srcs, mics=mics, alias=same_points, dynamic=draw(st.booleans()), steps=steps, still=draw(st.booleans()), src_form=draw(st.sampled_from(FORMS)), mic_form=draw(st.sampled_from(FORMS)),
                beta=[draw(st.integers(0, 16)) / 16 for _ in range(2 * dim)], room_form=draw(st.sampled_from(["list", "tuple", "tensor", "integers", "float32 tensor", "numpy"])), order=draw(st.integers(0, 2)),
                nsample=draw(st.integers(40, 300)), pattern=draw(st.sampled_from([None, "cardioid", "bidir", "hypercardioid"])), ori=draw(st.sampled_from(["vector", "per entity", "in entity", "angles"])),
                look=draw(st.sampled_from([[1.0, 0.0, 0.0], [0.0, 2.0, 0.0], [1.0, 1.0, 0.5]]))[:dim])


def shaped(v, form):
    """The same numbers as another kind of tensor."""
    t = tens(v)
    if form == "strided":
        big = torch.full((*t.shape[:-1], 2 * t.shape[-1] + 1), 7.25, dtype=t.dtype)
        big[..., 1::2] = t
        return big[..., 1::2]
    if form == "transposed":
        return t.transpose(0, -1).contiguous().transpose(0, -1)
    if form == "reversed view":
        return torch.cat([t, t + 1])[: t.shape[0]]
    if form == "float32":
        return t.to(torch.float32)
    if form == "integer":
        return t.to(torch.int64) if bool((t == t.round()).all()) else t
    return t


def run_forms(case, ctx):
    """Positions, trajectories and rooms mean the same in every accepted form."""
    from torchrir import MicrophoneArray, Room, Source
    from torchrir.sim import simulate_dynamic_rir, simulate_rir

    dim, pat = len(case["size"]), case["pattern"]
    kw = dict(max_order=case["order"], nsample=case["nsample"], directivity=pat or "omni", dtype=torch.float64, config=config(use_lut=False, frac_delay_length=31))
    plain = sut(Room.shoebox, size=tens(case["size"]), fs=8000.0, beta=tens(case["beta"]), dtype=torch.float64)
    size, beta = case["size"], case["beta"]
    form = case["room_form"]
    if form == "tuple":
        size, beta = tuple(size), tuple(beta)
    elif form == "tensor":
        size, beta = tens(size), tens(beta)
    elif form == "integers":
        size = [int(v) for v in size]
    elif form == "float32 tensor":
        size, beta = tens(size, torch.float32), tens(beta, torch.float32)
    elif form == "numpy":
        size, beta = tens(size).numpy(), tens(beta).numpy()
    room = sut(Room.shoebox, size=size, fs=8000, beta=beta)
    look = tens(case["look"])

    def orient(n):
        if pat is None:
            return None
        if case["ori"] == "per entity":
            return look.expand(n, dim)
        if case["ori"] == "angles":
            az = math.atan2(case["look"][1], case["look"][0])
            return tens([az, math.atan2(case["look"][2], math.hypot(*case["look"][:2]))]) if dim == 3 else tens(az)
        return look

    n, m = len(case["srcs"]), len(case["mics"])
    if case["dynamic"]:
        moved = [[[[x * (1 - (0 if case["still"] else t) / 16) for x in p] for p in ps] for t in range(case["steps"])] for ps in (case["srcs"], case["mics"])]
        given = []
        for v, f in zip(moved, (case["src_form"], case["mic_form"])):
            t = shaped(v, f)
            if f == "single point" and t.shape[1] == 1:
                t = t[:, 0]
            elif f.startswith("entity") and case["still"]:
                t = t[:1].expand(case["steps"], -1, -1)
            elif f == "raw" and case["alias"] and torch.is_tensor(given[0] if given else None) and given[0].shape == t.shape:
                t = given[0]
            given.append(t)
        got = sut(simulate_dynamic_rir, room=room, src_traj=given[0], mic_traj=given[1], orientation=None if pat is None else (orient(n), orient(m)), **kw)
        ref = sut(simulate_dynamic_rir, room=plain, src_traj=tens(moved[0]), mic_traj=tens(moved[1]), orientation=None if pat is None else (look, look), **kw)
    else:
        ori = None if pat is None else (orient(n), orient(m))

        def entity(cls, v, f, o):
            inside = dict(orientation=o) if o is not None and case["ori"] == "in entity" else {}
            if f.startswith("entity"):
                if f == "entity list":
                    return sut(cls.from_positions, v, **inside)
                if f == "entity tuple":
                    return sut(cls.from_positions, tuple(map(tuple, v)), **inside)
                if f == "entity numpy":
                    return sut(cls.from_positions, tens(v).numpy(), **inside)
                if f == "entity single point" and len(v) == 1:
                    return sut(cls.from_positions, tens(v[0]), **inside)
                return sut(cls.from_positions, tens(v), **inside)
            if inside:
                return sut(cls.from_positions, shaped(v, f), **inside)
            t = shaped(v, f)
            return t[0] if f == "single point" and len(v) == 1 else t

        if ori is not None and case["ori"] == "in entity":
            a, b = entity(Source, case["srcs"], case["src_form"], ori[0]), entity(MicrophoneArray, case["mics"], case["mic_form"], ori[1])
            ori = None
        else:
            a, b = entity(Source, case["srcs"], case["src_form"], None), entity(MicrophoneArray, case["mics"], case["mic_form"], None)
            if case["alias"] and torch.is_tensor(a) and a.ndim == 2:
                b = a
        got = sut(simulate_rir, room=room, sources=a, mics=b, orientation=ori, **kw)
        ref = sut(simulate_rir, room=plain, sources=Source.from_positions(tens(case["srcs"])), mics=MicrophoneArray.from_positions(tens(case["mics"])), orientation=None if pat is None else (look, look), **kw)
    peak = max(1e-9, float(as_np(ref).__abs__().max()))
    # a list of numbers becomes single precision, of which these values lose nothing; directions may
    same(as_np(got), as_np(ref), (2e-6 if pat else 1e-10) * peak, f"{case['src_form']} sources, {case['mic_form']} microphones, {form} room ({'dynamic' if case['dynamic'] else 'static'})")
    ctx.label(case["src_form"], form, "dynamic" if case["dynamic"] else "static")
    ctx.trivial(float(as_np(ref).__abs__().max()) == 0)


CHECK = Check(
    id="C08",
    technique="property-based testing: differential between equivalent ways of requesting one simulation",
    rule=("Cases split each setting (order, length by count or duration, directivity, dtype, device) at random between arguments and "
          "configuration with conflicting values in the losing place, for static, dynamic and deprecated scenes, functions and "
          "simulator; every case compares with the explicit unambiguous call.  Invalid requests are generated separately."),
    note="Arguments win, configuration fills in; simulator results are compared with the function call they stand for.",
    laws=[
        Law("argument_resolution", cases, run_resolution, quick=1800, thorough=36000),
        Law("simulator_equals_function", sim_cases, run_simulator, quick=1800, thorough=36000),
        Law("argument_forms", form_cases, run_forms, quick=1600, thorough=30000, rule="positions, trajectories, orientations and rooms as entities, lists, views, integers, single points"),
        Law("invalid_rejected", bad_cases, run_bad, quick=1200, thorough=16000),
    ],
    assumptions=["ceil(duration times rate) may be evaluated in floating point or exactly."],
)
