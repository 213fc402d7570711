"""C06: the high-pass filter of simulated responses."""

import math

from hypothesis import strategies as st
import numpy as np
import torch

from .. import gens, scenes
from ..core import Check, Law, expect_raises, require, sut
from ..simlib import as_np, config, dt, make_room, same, tens

TYPES = ["butter", "cheby1", "cheby2", "ellip", "bessel"]


@st.composite
def filters(draw):
    """The filter part of a configuration (None: library default)."""
    if draw(st.integers(0, 5)) == 0:
        return None
    kw = {}
    if draw(st.integers(0, 4)):
        kw["n"] = draw(st.integers(1, 5))
    ftype = draw(st.sampled_from(TYPES + [None]))
    if ftype is not None:
        kw[draw(st.sampled_from(["type", "ftype"]))] = ftype
    if ftype in ("cheby1", "ellip") or draw(st.booleans()):
        kw["rp"] = draw(gens.uniform(0.1, 6.0))
    if ftype in ("cheby2", "ellip") or draw(st.booleans()):
        kw["rs"] = draw(gens.uniform(20.0, 80.0))
    return dict(fc_rel=draw(st.sampled_from([None, 0.001, 0.01, 0.05, 0.2, 0.45])), kwargs=kw if draw(st.integers(0, 6)) else None)


@st.composite
def cases(draw, long=False):
    c = draw(scenes.static(max_n=1 if long else 2, lens=st.sampled_from([200001, 131073, 65537, 65536, 100000]) if long else st.integers(60, 600)))
    if long:
        if c["limit"]["nb_img"] is None:
            c["limit"]["max_order"] = min(c["limit"]["max_order"], 3)
        # a slowly decaying tail that starts within the direct sound, so that the response is loud to its end
        c["room"].update(t60=None, beta=[draw(gens.uniform(0.999, 1.0)) for _ in c["room"]["beta"] or [0] * 2 * len(c["room"]["size"])])
        c["start"] = math.dist(c["srcs"][0], c["mics"][0]) / c["room"]["c"] + 2.0 / c["room"]["fs"]
    c.update(filt=draw(filters()), dtype=draw(st.sampled_from(["float64", "float64", "float32"])),
             route="tail" if long else draw(st.sampled_from(["static", "dynamic", "simulator", "tail"])), steps=draw(st.integers(1, 3)),
             shift=draw(gens.uniform(0.0, 0.5)), lut=draw(st.booleans()))
    return c


def design(filt, fs):
    """Configuration keywords and the documented second-order sections."""
    from scipy.signal import iirfilter

    kw = {}
    fc, spec = 10.0, {"n": 2, "rp": 5.0, "rs": 60.0, "type": "butter"}
    if filt is not None:
        if filt["fc_rel"] is not None:
            fc = kw["rir_hpf_fc"] = filt["fc_rel"] * fs
        if filt["kwargs"] is not None:
            spec = kw["rir_hpf_kwargs"] = dict(filt["kwargs"])
    ftype = spec.get("type", spec.get("ftype", "butter"))
    sos = iirfilter(spec.get("n", 2), 2.0 * fc / fs, rp=spec.get("rp"), rs=spec.get("rs"), btype="highpass",
                    ftype=ftype, output="sos")
    return kw, sos


def responses(case, cfg, dtype):
    if case["route"] == "dynamic":
        k = case["steps"]
        size = np.array(case["room"]["size"])
        src = [[[x * (1 - case["shift"] * t / k) for x in p] for p in case["srcs"]] for t in range(k)]
        mic = [[list(np.minimum(size, np.array(p) * (1 + 0.01 * t))) for p in case["mics"]] for t in range(k)]
        return scenes.run_dynamic(case, src, mic, cfg, dtype)
    if case["route"] == "tail":
        fs = case["room"]["fs"]
        return scenes.run_static(case, cfg, dtype, tmax=case["nsample"] / fs, tdiff=case.get("start", 0.5 * case["nsample"] / fs))
    if case["route"] == "simulator":
        from torchrir import MicrophoneArray, Source
        from torchrir.models import StaticScene
        from torchrir.sim import ISMSimulator

        d = case["dir"]
        nb = case["limit"]["nb_img"]
        sim = ISMSimulator(max_order=case["limit"]["max_order"], nb_img=None if nb is None else tuple(nb), nsample=case["nsample"],
                           directivity=None if d is None else (d["src"], d["mic"]))
        scene = StaticScene(
            room=make_room(case["room"], dtype),
            sources=Source.from_positions(tens(case["srcs"], dtype), orientation=None if d is None else tens(d["src_dir"], dtype)),
            mics=MicrophoneArray.from_positions(tens(case["mics"], dtype), orientation=None if d is None else tens(d["mic_dir"], dtype)))
        return sut(sim.simulate, scene, cfg).rirs
    return scenes.run_static(case, cfg, dtype)


def run(case, ctx):
    from scipy.signal import sosfiltfilt

    from torchrir.config import SimulationConfig

    dtype = dt(case["dtype"])
    kw, sos = design(case["filt"], case["room"]["fs"])
    base = dict(frac_delay_length=case["fdl"], use_lut=case["lut"])
    raw = responses(case, config(**base), dtype)
    before = raw.clone()
    got = responses(case, sut(SimulationConfig, **base, **kw), dtype)
    require(got.dtype == dtype and tuple(got.shape) == tuple(raw.shape), f"dtype {got.dtype} or shape {tuple(got.shape)} changed")
    require(torch.equal(raw, before), "an earlier unfiltered result was modified")
    flat = as_np(raw).reshape(-1, raw.shape[-1])
    want = np.stack([sosfiltfilt(sos, row) for row in flat]).reshape(raw.shape)
    peak = max(np.abs(want).max(), np.abs(flat).max(), 1e-12)
    ctx.trivial(not np.abs(flat).max() > 0)
    ctx.label(case["route"], "default filter" if case["filt"] is None else "configured filter")
    tol = 1e-9 if case["dtype"] == "float64" else 2e-6
    same(as_np(got), want, tol * peak, f"filtered response ({case['route']})")
    # the configuration object itself is reusable and stays as it was given
    cfg = sut(SimulationConfig, **base, **kw)
    keep = dict(cfg.rir_hpf_kwargs)
    for i in range(2):
        again = responses(case, cfg, dtype)
        require(torch.equal(again, got), f"simulation {i + 1} with one configuration object gives another result")
    require(cfg.rir_hpf_kwargs == keep and kw.get("rir_hpf_kwargs", keep) == keep, f"the filter settings changed from {keep} to {cfg.rir_hpf_kwargs}")
    again = responses(case, sut(config, **base), dtype)
    require(torch.equal(again, raw), "disabling the filter does not return the unfiltered response exactly")


def run_default(case, ctx):
    """No configuration at all means the default filter; independence of rows in a batch."""
    from scipy.signal import sosfiltfilt

    from torchrir.sim import simulate_rir

    dtype = dt(case["dtype"])
    kw = dict(room=make_room(case["room"], dtype), sources=tens(case["srcs"], dtype), mics=tens(case["mics"], dtype),
              nsample=case["nsample"], **case["limit"])
    got = as_np(sut(simulate_rir, **kw))
    raw = as_np(sut(simulate_rir, config=config(), **kw))
    _, sos = design(None, case["room"]["fs"])
    peak = max(np.abs(raw).max(), 1e-12)
    ctx.trivial(not np.abs(raw).max() > 0)
    tol = 1e-9 if case["dtype"] == "float64" else 2e-6
    for i in range(len(case["srcs"])):
        for j in range(len(case["mics"])):
            same(got[i, j], sosfiltfilt(sos, raw[i, j]), tol * peak, f"default response, source {i} mic {j}")


@st.composite
def many_cases(draw):
    """Many responses at once, in a count that no round block divides."""
    room = draw(gens.rooms())
    dim = len(room["size"])
    n_src, n_mic, steps = draw(st.sampled_from([(1, 33, 0), (7, 5, 0), (3, 23, 0), (1, 67, 0), (2, 65, 0), (13, 11, 0), (1, 1, 35), (2, 1, 17), (1, 3, 43),
                                                (1, 1, 131), (5, 7, 4), (1, 259, 0), (3, 3, 30)]))
    g = np.random.default_rng(draw(st.integers(0, 10**6)))

    def pos(n, half):
        p = g.uniform(0.02, 0.98, (max(1, steps), n, dim))
        p[..., 0] = 0.03 + 0.42 * p[..., 0] + 0.5 * half
        return (np.array(room["size"]) * p).tolist()

    return dict(room=room, srcs=[], mics=[], limit=dict(max_order=draw(st.integers(0, 1)), nb_img=None), src=pos(n_src, 0), mic=pos(n_mic, 1), steps=steps,
                dir=None, nsample=draw(st.integers(60, 400)), fdl=41, filt=draw(filters()), dtype=draw(st.sampled_from(["float64", "float32"])))


def run_many(case, ctx):
    from scipy.signal import sosfiltfilt

    from torchrir.config import SimulationConfig

    dtype = dt(case["dtype"])
    kw, sos = design(case["filt"], case["room"]["fs"])

    def go(cfg):
        if case["steps"]:
            return scenes.run_dynamic(case, case["src"], case["mic"], cfg, dtype)
        return scenes.run_static(case, cfg, dtype, sources=tens(case["src"][0], dtype), mics=tens(case["mic"][0], dtype))

    raw = as_np(go(config(frac_delay_length=41, use_lut=False)))
    got = as_np(go(sut(SimulationConfig, frac_delay_length=41, use_lut=False, **kw)))
    ctx.label("moving" if case["steps"] else "static")
    ctx.trivial(not np.abs(raw).max() > 0)
    require(got.shape == raw.shape, f"shape {got.shape}, unfiltered {raw.shape}")
    tol = 1e-9 if case["dtype"] == "float64" else 2e-6
    for i in np.ndindex(raw.shape[:-1]):
        want = sosfiltfilt(sos, raw[i])
        same(got[i], want, tol * max(np.abs(want).max(), np.abs(raw).max(), 1e-12), f"response {i} of {raw.shape[:-1]}")


def bad_cases():
    return st.fixed_dictionaries(dict(
        fs=st.sampled_from([4000.0, 16000.0, 44100.0]), rel=st.one_of(st.just(0.5), gens.uniform(0.5, 3.0)),
        dynamic=st.booleans(), sign=st.sampled_from([1, 1, 1, 0, -1])))


def run_bad(case, ctx):
    from torchrir import Room
    from torchrir.config import SimulationConfig
    from torchrir.sim import simulate_dynamic_rir, simulate_rir

    room = Room.shoebox([4.0, 3.0], fs=case["fs"], beta=[0.5] * 4)
    fc = case["rel"] * case["fs"] * case["sign"]
    ctx.label("cutoff too high" if case["sign"] > 0 else "cutoff not positive")

    def go():
        cfg = SimulationConfig(rir_hpf_fc=fc)
        kw = dict(room=room, max_order=1, nsample=64, config=cfg)
        if case["dynamic"]:
            return simulate_dynamic_rir(src_traj=torch.ones(2, 1, 2), mic_traj=torch.ones(2, 1, 2) * 1.5, **kw)
        return simulate_rir(sources=torch.ones(1, 2), mics=torch.ones(1, 2) * 1.5, **kw)

    expect_raises(ValueError, go, what=f"cutoff {fc} at rate {case['fs']}")


CHECK = Check(
    id="C06",
    technique="property-based testing: differential against an independently applied zero-phase IIR design",
    rule=("Cases are static, dynamic, simulator and diffuse-tail simulations with the default or a generated filter (order, type under "
          "either key, ripples, cutoff); non-trivial when the response is not silent.  Each source, microphone and step is "
          "filtered on its own by the oracle."),
    note="The oracle designs the documented filter with scipy and filters each row of the unfiltered simulation separately in float64.",
    laws=[
        Law("filtered_equals_design", cases, run, quick=4000, thorough=96000),
        Law("long_responses", lambda: cases(long=True), run, quick=60, thorough=800, shards=6,
            rule="responses of 2^16 samples and more with a diffuse tail (not silent anywhere)"),
        Law("many_responses", many_cases, run_many, quick=108, thorough=2000, shards=6, rule="33 to 270 responses filtered in one call, each against filtering it alone"),
        Law("default_is_filtered", lambda: cases(), run_default, quick=800, thorough=16000),
        Law("bad_cutoff_rejected", bad_cases, run_bad, quick=400, thorough=6400),
    ],
    assumptions=["Responses are longer than the filter's padding (scipy rejects shorter ones)."],
)
