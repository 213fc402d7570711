"""C03: results do not depend on tuning knobs, batching or call history."""

import random

from hypothesis import strategies as st
import numpy as np
import torch

from .. import gens, ism_model, scenes
from ..core import Check, Law, require, sut
from ..simlib import as_np, config, dt, eps_for, make_room, same, tens

ODD = st.integers(6, 45).map(lambda k: 2 * k + 1)


def rng_state():
    ns = np.random.get_state()
    return torch.get_rng_state().numpy().tobytes(), random.getstate(), (ns[0], ns[1].tobytes(), *ns[2:])


# ------------------------------------------------------------------ knobs


@st.composite
def knob_cases(draw, dtype="float64"):
    c = draw(scenes.static(max_n=2, fdl=st.one_of(st.just(81), ODD)))
    steps = draw(st.integers(0, 2))  # 0: static
    size = c["room"]["size"]
    n_img = st.one_of(st.integers(1, 12), st.integers(1, 130), st.sampled_from([1, 2048, 10**6]))
    c.update(
        dtype=dtype, steps=steps,
        src_traj=[[draw(gens.point(size)) for _ in c["srcs"]] for _ in range(steps)],
        mic_traj=[[draw(gens.point(size)) for _ in c["mics"]] for _ in range(steps)],
        knobs=dict(image_chunk_size=draw(n_img), accumulate_chunk_size=draw(n_img),
                   use_compile=draw(st.booleans()), mixed_precision=draw(st.booleans())),
        device=draw(st.sampled_from([None, "cpu", "auto", "CPU", "cuda", "mps", "cuda:0"])),
        cfg_device=draw(st.booleans()), lut=draw(st.sampled_from([None, 20, 3, 50])), hpf=draw(st.booleans()),
        tdiff=draw(st.sampled_from([None, None, 0.4])) if not steps else None,
    )
    if dtype != "float64" and c["dir"]:
        for k in ("src", "mic"):
            if c["dir"][k] == "homni":
                c["dir"][k] = "cardioid"
    return c


def _run(case, cfg, dtype, **over):
    if case["steps"]:
        return scenes.run_dynamic(case, case["src_traj"], case["mic_traj"], cfg, dtype, **over)
    if case["tdiff"]:
        over.update(tmax=case["nsample"] / case["room"]["fs"], tdiff=case["tdiff"] * case["nsample"] / case["room"]["fs"])
    return scenes.run_static(case, cfg, dtype, **over)


def run_knobs(case, ctx):
    dtype = dt(case["dtype"])
    base = dict(frac_delay_length=case["fdl"], use_lut=case["lut"] is not None, sinc_lut_granularity=case["lut"] or 20,
                rir_hpf_enable=case["hpf"])
    ref = as_np(_run(case, config(**base), dtype))
    over, extra = {}, dict(case["knobs"])
    if case["device"] is not None:
        if case["cfg_device"]:
            extra["device"] = case["device"]
        else:
            over["device"] = case["device"]
    got = _run(case, config(**base, **extra), dtype, **over)
    require(got.device.type == "cpu", f"result on {got.device}")
    require(got.dtype == dtype, f"dtype {got.dtype}, inputs {dtype}")
    ctx.label("dynamic" if case["steps"] else "static", f"device:{case['device']}", "lut" if case["lut"] else "direct",
              "directional" if case["dir"] else "omni")
    n_images = len(ism_model.indices(len(case["room"]["size"]), **case["limit"]))
    ctx.trivial(case["knobs"]["image_chunk_size"] >= n_images and case["knobs"]["accumulate_chunk_size"] >= n_images
                and case["device"] is None)
    same(as_np(got), ref, scenes.round_tol(case, ref, case["dtype"]), "response with other execution settings")


# ------------------------------------------------------------------ table on/off


@st.composite
def lut_cases(draw):
    c = draw(scenes.static(max_n=2, fdl=ODD, walls=False))
    c["gran"] = draw(st.sampled_from([20, 1, 2, 5, 13, 64, 128]))
    return c


def run_lut(case, ctx):
    mk = lambda on: config(frac_delay_length=case["fdl"], use_lut=on, sinc_lut_granularity=case["gran"])  # noqa: E731
    a = as_np(scenes.run_static(case, mk(True)))
    b = as_np(scenes.run_static(case, mk(False)))
    _, tol = scenes.reference(case, lut=case["gran"])
    ctx.trivial(not (abs(b) > 0).any())
    ctx.label(f"gran{case['gran']}")
    same(a, b, tol, "table response against direct evaluation")


# ------------------------------------------------------------------ batching


@st.composite
def batch_cases(draw):
    c = draw(scenes.static(max_n=4, walls=True))
    n, m = len(c["srcs"]), len(c["mics"])
    c.update(src_perm=draw(st.permutations(range(n))), mic_perm=draw(st.permutations(range(m))),
             src_sub=draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n + 1)),
             mic_sub=draw(st.lists(st.integers(0, m - 1), min_size=1, max_size=m + 1)),
             hpf=draw(st.booleans()), lut=draw(st.booleans()), entities=draw(st.booleans()))
    return c


def _select(case, si, mi):
    from torchrir import MicrophoneArray, Source

    out = dict(case, srcs=[case["srcs"][i] for i in si], mics=[case["mics"][j] for j in mi])
    over = {}
    if case["dir"]:
        d = dict(case["dir"], src_dir=[case["dir"]["src_dir"][i] for i in si],
                 mic_dir=[case["dir"]["mic_dir"][j] for j in mi])
        # one entity takes one vector (a per-entity list of length one is not an accepted spelling everywhere)
        so, mo = tens(d["src_dir"]), tens(d["mic_dir"])
        if case["entities"]:
            out["dir"] = None
            over = dict(sources=Source.from_positions(tens(out["srcs"]), orientation=so),
                        mics=MicrophoneArray.from_positions(tens(out["mics"]), orientation=mo),
                        directivity=(d["src"], d["mic"]))
        else:
            out["dir"] = d
    return out, over


def run_batch(case, ctx):
    cfg = config(frac_delay_length=case["fdl"], use_lut=case["lut"], rir_hpf_enable=case["hpf"])

    def go(si, mi):
        c, over = _select(case, si, mi)
        return as_np(scenes.run_static(c, cfg, **over))

    n, m = len(case["srcs"]), len(case["mics"])
    whole = go(range(n), range(m))
    tol = scenes.round_tol(case, whole)
    ctx.trivial(n * m == 1)
    ctx.label("directional" if case["dir"] else "omni", "hpf" if case["hpf"] else "raw")
    sp, mp = case["src_perm"], case["mic_perm"]
    same(go(sp, mp), whole[np.ix_(sp, mp)], tol, "response of the permuted batch")
    si, mi = case["src_sub"], case["mic_sub"]
    same(go(si, mi), whole[np.ix_(si, mi)], tol, "response of another batch (selection with repeats)")
    i, j = si[0], mi[0]
    same(go([i], [j])[0, 0], whole[i, j], tol, "response of the pair simulated alone")


# ------------------------------------------------------------------ history


@st.composite
def history_cases(draw):
    """A sequence of simulations; dynamic and static, settings drawn from small overlapping sets."""
    size = draw(gens.sizes(draw(st.sampled_from([2, 3])), hi=5.0))
    fdls = draw(st.lists(ODD, min_size=1, max_size=2))
    grans = draw(st.lists(st.sampled_from([4, 20, 7]), min_size=1, max_size=2))
    ops = draw(st.lists(st.fixed_dictionaries(dict(
        fdl=st.sampled_from(fdls), gran=st.sampled_from(grans), lut=st.booleans(),
        dtype=st.sampled_from(["float64", "float32"]), fs=st.sampled_from([8000.0, 16000.0, 11025.0]),
        c=st.sampled_from([343.0, 331.0]), order=st.integers(0, 2), beta=st.sampled_from([0.9, 0.4]),
        nsample=st.integers(100, 400), pos=st.integers(0, 1), dynamic=st.booleans(), hpf=st.booleans(),
        spoil=st.booleans(), nout=st.integers(0, 1),
    )), min_size=2, max_size=6))
    return dict(size=size, a=[draw(gens.point(size)) for _ in range(2)], b=[draw(gens.point(size)) for _ in range(2)],
                ops=ops)


def _history_op(case, op):
    from torchrir.sim import simulate_dynamic_rir, simulate_rir

    dtype = dt(op["dtype"])
    beta = [op["beta"]] * (2 * len(case["size"]))
    room = make_room(dict(size=case["size"], fs=op["fs"], c=op["c"], beta=beta, t60=None), dtype)
    cfg = config(frac_delay_length=op["fdl"], use_lut=op["lut"], sinc_lut_granularity=op["gran"], rir_hpf_enable=op["hpf"])
    src, mic = tens([case["a"][op["pos"]]], dtype), tens([case["b"][op["pos"]]], dtype)
    kw = dict(room=room, max_order=op["order"], nsample=op["nsample"], config=cfg)
    if op["dynamic"]:
        out = sut(simulate_dynamic_rir, src_traj=src[None], mic_traj=mic[None], **kw)
    else:
        out = sut(simulate_rir, sources=src, mics=mic, **kw)
    return out, dict(beta=beta)


def run_history(case, ctx):
    results = []
    state = rng_state()
    for k, op in enumerate(case["ops"]):
        out, info = _history_op(case, op)
        got = as_np(out).copy()
        if not op["hpf"]:
            ref, tol = ism_model.rir(case["size"], [case["a"][op["pos"]]], [case["b"][op["pos"]]], beta=info["beta"],
                                     max_order=op["order"], fs=op["fs"], c=op["c"], nsample=op["nsample"], fdl=op["fdl"],
                                     lut_gran=op["gran"] if op["lut"] else None, **eps_for(op["dtype"]))
            same(got.reshape(ref.shape), ref, tol, f"response {k} of the history against the reference model")
        results.append((out, got))
        for j, (o, g) in enumerate(results[:-1]):
            if o is not None:
                require(np.array_equal(as_np(o), g), f"result {j} changed when simulation {k} ran")
        if op["spoil"]:  # the caller owns its results and may overwrite them
            out.fill_(7.25)
            results[-1] = (None, got)
    require(rng_state() == state, "a simulation changed global random state")
    ctx.trivial(len({(o["fdl"], o["gran"], o["lut"], o["dtype"]) for o in case["ops"]}) < 2)
    ctx.label("dynamic" if any(o["dynamic"] for o in case["ops"]) else "static")
    for k, op in enumerate(case["ops"]):
        again = as_np(_history_op(case, op)[0])
        require(np.array_equal(again, results[k][1]), f"repeating simulation {k} after the history gives another result")


# ------------------------------------------------------------------ purity


@st.composite
def pure_cases(draw):
    c = draw(scenes.static(max_n=3))
    c.update(hpf=draw(st.booleans()), tail=draw(st.booleans()), seed=draw(st.sampled_from([None, 0, 5, 123])),
             nbt=draw(st.booleans()), gseed=draw(st.integers(0, 1000)), dynamic=draw(st.booleans()),
             views=draw(st.booleans()))
    return c


def run_pure(case, ctx):
    from torchrir import MicrophoneArray, Source

    d = case["dir"]
    rep = lambda v: tens(v).repeat(2, 1)[::2] if case["views"] and len(v) > 1 else tens(v)  # noqa: E731
    src, mic = tens(case["srcs"]), tens(case["mics"])
    so, mo = (tens(d["src_dir"]), tens(d["mic_dir"])) if d else (None, None)
    room = make_room(case["room"])
    nb = case["limit"]["nb_img"]
    if nb is not None and case["nbt"]:
        nb = torch.tensor(nb)
    cfg = config(frac_delay_length=case["fdl"], rir_hpf_enable=case["hpf"], seed=case["seed"])
    held = [t for t in (src, mic, so, mo, room.size, room.beta, nb) if torch.is_tensor(t)]
    before = [t.clone() for t in held]
    kwargs_before = dict(cfg.rir_hpf_kwargs)
    torch.manual_seed(case["gseed"])
    np.random.seed(case["gseed"])
    random.seed(case["gseed"])
    state = rng_state()
    sources = Source.from_positions(src, orientation=so)
    mics = MicrophoneArray.from_positions(mic, orientation=mo)
    outs = []
    for _ in range(2):
        over = dict(room=room, nb_img=nb)
        if d:
            over.update(directivity=(d["src"], d["mic"]), orientation=(so, mo))
        if case["dynamic"]:
            r = scenes.run_dynamic(case, src[None].clone(), mic[None].clone(), cfg, **over)
        else:
            if case["tail"]:
                over.update(tmax=case["nsample"] / case["room"]["fs"], tdiff=0.5 * case["nsample"] / case["room"]["fs"])
            r = scenes.run_static(dict(case, dir=None) if d else case, cfg, sources=sources, mics=mics, **over)
        outs.append(as_np(r).copy())
        r.mul_(-3.0)
    ctx.label("directional" if d else "omni", "tail" if case["tail"] and not case["dynamic"] else "no tail")
    require(rng_state() == state, "the simulation changed global random state")
    for t, b in zip(held, before):
        require(torch.equal(t, b), "the simulation modified one of its inputs")
    require(dict(cfg.rir_hpf_kwargs) == kwargs_before, "the simulation modified its configuration")
    require(np.array_equal(outs[0], outs[1]), "two identical calls gave different results")


# ------------------------------------------------------------------ large batches


@st.composite
def large_cases(draw, long=False):
    dim = draw(st.sampled_from([2, 3, 3]))
    c = dict(size=draw(gens.sizes(dim, lo=2.0, hi=6.0)), seed=draw(st.integers(0, 10**6)), order=draw(st.integers(0, 1)), dtype=draw(st.sampled_from(["float32", "float32", "float64"])), dynamic=draw(st.booleans()),
             pattern=draw(st.sampled_from([None, None, "cardioid", "bidir"])), own=draw(st.booleans()), hpf=draw(st.integers(0, 3)) == 3, lut=draw(st.booleans()), fdl=draw(st.sampled_from([81, 15, 31])),
             chunk=draw(st.sampled_from([2048, 2048, 1, 5])), pick=[draw(gens.uniform(0.0, 1.0)) for _ in range(4)])
    c["src"], c["mic"] = draw(st.sampled_from([(1, 64), (1, 200), (40, 3), (3, 40), (9, 9), (17, 16), (70, 1), (300, 2), (5, 130), (33, 33), (12, 2), (2, 12), (1, 1000)]))
    c["steps"] = draw(st.sampled_from([1, 2, 5, 70, 300, 1100])) if c["dynamic"] else 1
    while c["steps"] * c["src"] * c["mic"] > 4000:
        c["src"], c["mic"] = -(-c["src"] // 2), -(-c["mic"] // 2)
        c["steps"] = c["steps"] if c["src"] * c["mic"] > 4 else min(c["steps"], 900)
    rows = c["steps"] * c["src"] * c["mic"]
    c["nsample"] = int(2**24 * draw(st.sampled_from([1.01, 1.2, 0.999])) / rows) if long else draw(st.integers(60, 260))
    if long:
        c.update(hpf=False, pattern=None)
    return c


def run_large(case, ctx):
    """A pair's response in a big batch is the one it has alone."""
    from torchrir.sim import simulate_dynamic_rir, simulate_rir

    g = np.random.default_rng(case["seed"])
    dim, n, m, t, dtype = len(case["size"]), case["src"], case["mic"], case["steps"], dt(case["dtype"])
    room = make_room(dict(size=case["size"], fs=8000.0, c=343.0, beta=[0.8, 0.5, 0.7, 0.9, 0.6, 0.85][: 2 * dim], t60=None), dtype)
    size = np.array(case["size"])
    src, mic = (torch.tensor(g.uniform(0.02, 0.98, (t, k, dim)) * size, dtype=dtype) for k in (n, m))
    ori = [torch.tensor(g.normal(size=(k, dim)), dtype=dtype) for k in (n, m)]
    if not case["own"]:
        ori = [o[0] for o in ori]
    kw = dict(max_order=case["order"], nsample=case["nsample"], directivity=case["pattern"] or "omni",
              config=config(frac_delay_length=case["fdl"], use_lut=case["lut"], rir_hpf_enable=case["hpf"], accumulate_chunk_size=case["chunk"], image_chunk_size=case["chunk"]))

    def call(a, b, oa, ob):
        o = (oa, ob) if case["pattern"] else None
        if case["dynamic"]:
            return sut(simulate_dynamic_rir, room=room, src_traj=a, mic_traj=b, orientation=o, **kw)
        return sut(simulate_rir, room=room, sources=a[0], mics=b[0], orientation=o, **kw)[None]

    got = call(src, mic, *ori)
    require(tuple(got.shape) == (t, n, m, case["nsample"]), f"shape {tuple(got.shape)}")
    require(bool(torch.isfinite(got).all()), "non-finite responses")
    picks = [(t - 1, n - 1, m - 1), (0, n - 1, 0), (0, 0, m - 1)] + [(int(u * t) % t, int(u * 7919 % 1 * n) % n, int(u * 104729 % 1 * m) % m) for u in case["pick"]]
    for k, i, j in picks:
        alone = call(src[k : k + 1, i : i + 1], mic[k : k + 1, j : j + 1], *(o[x : x + 1] if case["own"] else o for o, x in zip(ori, (i, j))))[0, 0, 0]
        peak = max(1e-6, float(alone.abs().max()))
        same(as_np(got[k, i, j]), as_np(alone), (2e-5 if case["dtype"] == "float32" else 1e-10) * peak, f"pair ({i}, {j}) at step {k} of {t} x {n} x {m} responses of {case['nsample']} samples, against the same pair alone")
    ctx.label(f"{'over' if got.numel() > 2**24 else 'under'} 2^24 samples", "dynamic" if case["dynamic"] else "static", case["pattern"] or "omni")
    ctx.trivial(float(alone.abs().max()) == 0)


CHECK = Check(
    id="C03",
    technique="property-based testing: metamorphic relations and generated call histories with a reference model",
    rule=("Cases are scenes with chunk sizes/devices/flags (non-trivial when a chunk boundary falls inside the images or a "
          "device is requested), tables on/off, batches and selections (more than one pair), and histories of 2-6 "
          "simulations with at least two different settings."),
    note=("Knob, batch, table and history relations checked on generated scenes; accelerators are absent, so device "
          "requests exercise the CPU fallback only."),
    laws=[
        Law("knobs", knob_cases, run_knobs, quick=1600, thorough=40000),
        Law("knobs_f32", lambda: knob_cases(dtype="float32"), run_knobs, quick=500, thorough=12000),
        Law("table", lut_cases, run_lut, quick=600, thorough=16000),
        Law("batching", batch_cases, run_batch, quick=800, thorough=24000),
        Law("many", large_cases, run_large, quick=800, thorough=12000, rule="tens to thousands of pairs and steps; several pairs compared with the pair alone"),
        Law("long", lambda: large_cases(long=True), run_large, quick=96, thorough=1200, shards=8, rule="batches of about 2^24 samples altogether"),
        Law("history", history_cases, run_history, quick=800, thorough=24000),
        Law("purity", pure_cases, run_pure, quick=600, thorough=16000),
    ],
    assumptions=["Accelerator back ends are not available in this sandbox; mixed precision and compilation are no-ops on CPU."],
)
