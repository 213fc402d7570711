"""C07: the diffuse reverberation tail."""

import math

from hypothesis import strategies as st
import numpy as np
import torch

from .. import gens, ism_model, scenes
from ..core import Check, Law, require, sut
from ..simlib import as_np, config, dt


@st.composite
def cases(draw, long=False):
    c = draw(scenes.static(max_n=2, lens=st.integers(1000, 2500) if long else st.integers(60, 600)))
    n, fs = c["nsample"], c["room"]["fs"]
    if c["limit"]["nb_img"] is None:
        c["limit"]["max_order"] = min(c["limit"]["max_order"], 3)
    frac = draw(gens.uniform(0.02, 0.25)) if long else draw(gens.uniform(0.0, 1.3))
    c.update(
        dtype=draw(st.sampled_from(["float64", "float32"])),
        tdiff=max(0.0, frac * n / fs), exact=draw(st.booleans()),
        tmax_rel=draw(st.sampled_from([1.0, 1.0, 0.5, 2.0])), tmax_in=draw(st.sampled_from(["arg", "config"])),
        give_nsample=draw(st.booleans()),
        seed=draw(st.one_of(st.none(), st.integers(0, 2**32 - 1))), other_seed=draw(st.one_of(st.integers(0, 1000), st.integers(0, 31).map(lambda k: ["bit", k]))),
        draws=draw(st.integers(0, 5)), lut=draw(st.booleans()),
    )
    if c["exact"]:  # tdiff on an exact sample instant
        c["tdiff"] = math.floor(c["tdiff"] * fs) / fs
    return c


@st.composite
def crowd_cases(draw):
    """Many sources and microphones at random places."""
    c = draw(cases(long=True))
    g = np.random.default_rng(draw(st.integers(0, 10**6)))
    size = np.array(c["room"]["size"])
    for key, top in (("srcs", 6), ("mics", 40)):
        n = draw(st.integers(1, top) if draw(st.booleans()) else st.just(top))
        c[key] = (size * g.uniform(0.1, 0.9, (n, len(size)))).tolist()
    c.update(dir=None, seed=None if c["seed"] is None else c["seed"], tmax_rel=1.0)
    return c


def simulate(case, tail=True, seed="case"):
    fs, n = case["room"]["fs"], case["nsample"]
    tmax = case["tmax_rel"] * n / fs if case["give_nsample"] else n / fs
    seed = case["seed"] if seed == "case" else seed
    cfg = config(frac_delay_length=case["fdl"], use_lut=case["lut"], seed=seed, tmax=tmax if case["tmax_in"] == "config" else None)
    over = dict(tmax=tmax if case["tmax_in"] == "arg" else None)
    if not case["give_nsample"]:
        over["nsample"] = None
    if tail:
        over["tdiff"] = case["tdiff"]
    return scenes.run_static(case, cfg, dt(case["dtype"]), **over), tmax


def split_points(case):
    """Sample indices the tail may start at (rounding of tdiff times rate)."""
    x = case["tdiff"] * case["room"]["fs"]
    return {math.floor(x), math.floor(x + 1e-9), math.floor(x - 1e-9)}


def run(case, ctx):
    base, tmax = simulate(case, tail=False)
    state = torch.get_rng_state()
    got, _ = simulate(case)
    require(torch.equal(state, torch.get_rng_state()), "the global random state was changed")
    require(got.dtype == base.dtype and got.shape == base.shape, f"shape {tuple(got.shape)} or dtype {got.dtype} changed")
    n = base.shape[-1]
    require(bool(torch.isfinite(got).all()), "non-finite tail")
    applied = case["tdiff"] < tmax
    idx = min(split_points(case))
    if not applied:
        require(torch.equal(got, base), f"a tail starting at {case['tdiff']} was applied although tmax is {tmax}")
        ctx.label("not before tmax")
        ctx.trivial()
        return
    head = max(0, min(idx, n))
    require(torch.equal(got[..., :head], base[..., :head]), f"samples before index {head} differ from the response without tail")
    late = max(split_points(case))
    inside = 0 < idx and late < n
    ctx.trivial(not inside)
    ctx.label("inside" if inside else "outside")
    if late >= n:
        require(torch.equal(got, base), "a tail that starts after the response changed it")
        return
    again, _ = simulate(case)
    require(torch.equal(again, got), "equal inputs and seed give different tails")
    torch.manual_seed(case["draws"] + 17)
    torch.rand(case["draws"] + 1)
    again, _ = simulate(case)
    require(torch.equal(again, got), "the tail depends on the global random state")
    if inside:
        require(not torch.equal(got[..., late:], base[..., late:]), "no tail was applied")
        seed2 = case["other_seed"]
        if isinstance(seed2, list):  # seeds that differ in one bit only
            seed2 = (case["seed"] or 0) ^ (1 << seed2[1])
        if seed2 == case["seed"]:
            seed2 += 1
        if case["seed"] is not None:
            other, _ = simulate(case, seed=seed2)
            if n - late >= 4:
                require(not torch.equal(other[..., late:], got[..., late:]), f"seeds {case['seed']} and {seed2} give the same tail")
            require(torch.equal(other[..., :head], got[..., :head]), "the seed changes the early response")


def run_stats(case, ctx):
    """Level and decay of the tail."""
    base, tmax = simulate(case, tail=False)
    got, _ = simulate(case)
    idxs = split_points(case)
    room = case["room"]
    if case["tdiff"] >= tmax or len(idxs) != 1 or not 0 < min(idxs):
        ctx.trivial()
        return
    idx = idxs.pop()
    b, g = as_np(base), as_np(got)
    tail = g[..., idx:]
    n = tail.shape[-1]
    if n < 700:
        ctx.trivial()
        return
    beta = ism_model.resolve_beta(room["size"], room["beta"], room["t60"])
    t60 = ism_model.sabine_t60(room["size"], beta)
    if room["t60"] is not None and abs(t60 - room["t60"]) > 1e-6 * t60:
        ctx.trivial()  # the requested time is not attainable in this room
        return
    rate = 3.0 if math.isinf(t60) or t60 > 1e6 else 6.9078 / t60
    t = np.arange(n) / room["fs"]
    use = rate * t < 50.0
    if use.sum() < 700:
        ctx.trivial()
        return
    ctx.label("no absorption" if math.isinf(t60) else "absorbing", "t60" if room["t60"] else "beta")
    t, tail = t[use], tail[..., use]
    level = np.abs(b[..., idx - 1]) + 1e-8
    noise = tail / np.exp(-rate * t) / level[..., None]
    k = len(t)
    h = k // 2
    if abs(math.exp(-rate * t[-1])) < 0.5:
        ctx.label("decaying")
    for part, name in ((noise[..., :h], "first"), (noise[..., h:], "second")):
        rms = np.sqrt((part**2).mean(axis=-1))
        lim = 6.5 / math.sqrt(2 * part.shape[-1])
        require(bool((np.abs(rms - 1.0) < lim).all()),
                lambda: f"{name} half of the tail has level {rms.ravel().tolist()} relative to the level at tdiff decaying with T60={t60:.4g} s "
                        f"(expected 1 within {lim:.3f})")
        mean = np.abs(part.mean(axis=-1))
        require(bool((mean < 6.5 / math.sqrt(part.shape[-1])).all()), f"{name} half of the tail is not zero-mean: {mean.ravel().tolist()}")
    lag = np.abs((noise[..., 1:] * noise[..., :-1]).mean(axis=-1))
    require(bool((lag < 7.0 / math.sqrt(k)).all()), f"successive tail samples are correlated: {lag.ravel().tolist()}")
    rows = noise.reshape(-1, k)
    corr = np.tril(np.abs(rows @ rows.T) / k, -1)
    i, j = np.unravel_index(corr.argmax(), corr.shape)
    require(corr[i, j] < 7.0 / math.sqrt(k), f"the tails of source/microphone pairs {i} and {j} are correlated ({corr[i, j]:.3f})")


CHECK = Check(
    id="C07",
    technique="property-based testing: metamorphic relations on the tail plus a normalised level/decay oracle",
    rule=("Cases are static scenes with a tail start before, inside, at and after the response, tmax as argument or configuration, seeds "
          "and unrelated random draws; non-trivial when the tail starts inside the response (for the level law: when at least 700 tail "
          "samples can be judged and the room attains its T60)."),
    note="Early part compared bit for bit; tail noise normalised by level at tdiff and exp(-6.9078 t/T60) must have unit level in both halves.",
    laws=[
        Law("early_part_and_reproducibility", cases, run, quick=3200, thorough=64000),
        Law("level_and_decay", lambda: cases(long=True), run_stats, quick=2000, thorough=40000),
        Law("many_pairs", crowd_cases, run_stats, quick=150, thorough=2500, shards=6, rule="up to 6 x 40 pairs, all tails pairwise uncorrelated"),
    ],
    assumptions=["Seeds lie below 2**32: torch's CPU generator uses no more bits.", "The level test's bounds are more than six standard deviations of the sampled noise level.",
                 "Without absorption the tail decays with the documented fallback rate exp(-3 t)."],
)
