"""C02: every step of a dynamic response is the static response at that step's positions."""

from hypothesis import strategies as st
import numpy as np
import torch

from .. import gens, scenes
from ..core import Check, Law, expect_raises, require
from ..simlib import as_np, config, dt, make_room, same, tens


@st.composite
def trajectories(draw, size, n, steps, still=None, close=False):
    """(T, n, dim) positions; each entity either stands still, walks, or jumps."""
    out = [[None] * n for _ in range(steps)]
    for j in range(n):
        kind = draw(st.sampled_from(["still", "walk", "jump", "late", "loop"])) if still is None else "still"
        if close and kind != "still":
            kind = "loop"
        a, b = draw(gens.point(size)), draw(gens.point(size))
        for t in range(steps):
            if kind == "still":
                p = a
            elif kind == "walk":
                f = t / max(1, steps - 1)
                p = [x + (y - x) * f for x, y in zip(a, b)]
            elif kind == "loop":  # out and back to the start
                f = min(t, steps - 1 - t)
                p = [x + (y - x) * f / steps for x, y in zip(a, b)]
            elif kind == "late":
                p = b if t == steps - 1 else a
            else:
                p = draw(gens.point(size))
            out[t][j] = p
    return out


@st.composite
def cases(draw, dtype="float64"):
    c = draw(scenes.static(walls=False, fdl=None if dtype == "float64" else st.just(81),
                           lens=st.integers(60, 500)))
    steps = draw(st.integers(1, 5))
    size = c["room"]["size"]
    n_src, n_mic = len(c["srcs"]), len(c["mics"])
    close = draw(st.integers(0, 4)) == 0  # everything ends where it began
    c.update(
        src_traj=draw(trajectories(size, n_src, steps, close=close)), mic_traj=draw(trajectories(size, n_mic, steps, close=close)),
        hpf=draw(st.booleans()), lut=draw(st.booleans()), dtype=dtype,
        flat_src=n_src == 1 and draw(st.booleans()), flat_mic=n_mic == 1 and draw(st.booleans()),
        img_chunk=draw(st.sampled_from([2048, 1, 7, 30])), acc_chunk=draw(st.sampled_from([4096, 5])),
        shared_ori=draw(st.booleans()),
    )
    if dtype != "float64" and c["dir"]:
        # the half-omni step function cannot be compared in single precision
        for k in ("src", "mic"):
            if c["dir"][k] == "homni":
                c["dir"][k] = "cardioid"
    return c


def run(case, ctx):
    dtype = dt(case["dtype"])
    steps = len(case["src_traj"])
    cfg = config(frac_delay_length=case["fdl"], use_lut=case["lut"], rir_hpf_enable=case["hpf"],
                 image_chunk_size=case["img_chunk"], accumulate_chunk_size=case["acc_chunk"])
    over = {}
    if case["dir"] and case["shared_ori"]:  # one direction for all entities
        over["orientation"] = (tens(case["dir"]["src_dir"][0], dtype), tens(case["dir"]["mic_dir"][0], dtype))
    st_, mt_ = tens(case["src_traj"], dtype), tens(case["mic_traj"], dtype)
    keep = (st_.clone(), mt_.clone())
    s_in = st_[:, 0] if case["flat_src"] else st_
    m_in = mt_[:, 0] if case["flat_mic"] else mt_
    got = scenes.run_dynamic(case, s_in, m_in, cfg, dtype, **over)
    want_shape = (steps, len(case["srcs"]), len(case["mics"]), case["nsample"])
    require(tuple(got.shape) == want_shape, f"shape {tuple(got.shape)}, expected {want_shape}")
    require(got.dtype == dtype, f"dtype {got.dtype}")
    require(torch.equal(st_, keep[0]) and torch.equal(mt_, keep[1]), "trajectories were modified")
    moving = case["src_traj"] != [case["src_traj"][0]] * steps or case["mic_traj"] != [case["mic_traj"][0]] * steps
    ctx.trivial(not moving)
    ctx.label("moving" if moving else "still", "directional" if case["dir"] else "omni",
              "hpf" if case["hpf"] else "raw", f"{len(case['room']['size'])}D")
    g = as_np(got)
    for t in range(steps):
        ref = as_np(scenes.run_static(case, cfg, dtype, sources=tens(case["src_traj"][t], dtype),
                                      mics=tens(case["mic_traj"][t], dtype), **over))
        same(g[t], ref, scenes.round_tol(case, ref, case["dtype"]), f"step {t} against the static response")
        if t and case["src_traj"][t] == case["src_traj"][0] and case["mic_traj"][t] == case["mic_traj"][0]:
            same(g[t], g[0], 1e-12 if case["dtype"] == "float64" else 1e-6 * abs(g[0]).max(), f"step {t} of a trajectory back at its start")


def run_model(case, ctx):
    """The dynamic path directly against the reference model (independent of the static path)."""
    cfg = config(frac_delay_length=case["fdl"], use_lut=False, image_chunk_size=case["img_chunk"])
    g = as_np(scenes.run_dynamic(case, case["src_traj"], case["mic_traj"], cfg))
    ctx.label("directional" if case["dir"] else "omni")
    for t in range(len(case["src_traj"])):
        ref, tol = scenes.reference(case, srcs=case["src_traj"][t], mics=case["mic_traj"][t])
        same(g[t], ref, tol, f"step {t} against the reference model")


@st.composite
def long_cases(draw):
    """Hundreds of steps, near the multiples of round block lengths."""
    room = draw(gens.rooms())
    dim = len(room["size"])
    block = draw(st.sampled_from([8, 10, 16, 20, 25, 32, 50, 64, 100, 128, 200, 250, 256, 500, 512, 1000, 1024]))
    steps = block * draw(st.integers(1, max(1, min(8, 600 // block)))) + draw(st.sampled_from([1, 1, 0, -1, 2, block // 2]))
    g = np.random.default_rng(draw(st.integers(0, 10**6)))
    n_src, n_mic = draw(st.integers(1, 2)), draw(st.integers(1, 2))
    return dict(room=room, srcs=[], mics=[], limit=dict(max_order=draw(st.integers(0, 1)), nb_img=None), nsample=draw(st.integers(60, 160)), fdl=draw(st.sampled_from([41, 21])),
                steps=steps, n_src=n_src, n_mic=n_mic, seed=draw(st.integers(0, 10**6)), moving=draw(st.sampled_from(["both", "src", "mic"])),
                dir=draw(scenes.directivity(n_src, n_mic, dim)), hpf=draw(st.booleans()), lut=draw(st.booleans()),
                img_chunk=draw(st.sampled_from([2048, 3])), acc_chunk=draw(st.sampled_from([4096, 5])),
                probe=sorted({0, 1, steps - 2, steps - 1, *g.integers(0, steps, 12).tolist(), *(k for k in range(block - 1, steps, block) if g.integers(0, 3) == 0),
                              *(k for k in range(block, steps, block) if g.integers(0, 3) == 0)}))


def run_long(case, ctx):
    g = np.random.default_rng(case["seed"])
    size, steps = np.array(case["room"]["size"]), case["steps"]
    pos = {}
    for who, n in (("src", case["n_src"]), ("mic", case["n_mic"])):
        p = size * g.uniform(0.02, 0.98, (steps, n, len(size)))
        # sources and microphones stay apart, so that no response drowns the others
        p[..., 0] = size[0] * ((0.05 if who == "src" else 0.55) + 0.4 * p[..., 0] / size[0])
        pos[who] = p if case["moving"] in (who, "both") else np.broadcast_to(p[:1], p.shape).copy()
    cfg = config(frac_delay_length=case["fdl"], use_lut=case["lut"], rir_hpf_enable=case["hpf"],
                 image_chunk_size=case["img_chunk"], accumulate_chunk_size=case["acc_chunk"])
    got = as_np(scenes.run_dynamic(case, torch.from_numpy(pos["src"]), torch.from_numpy(pos["mic"]), cfg))
    require(got.shape == (steps, case["n_src"], case["n_mic"], case["nsample"]), f"shape {got.shape} for {steps} steps")
    ctx.label(f"moving {case['moving']}", "directional" if case["dir"] else "omni")
    ctx.trivial(not np.abs(got).max() > 0)
    for t in [k for k in case["probe"] if 0 <= k < steps]:
        ref = as_np(scenes.run_static(case, cfg, sources=torch.from_numpy(pos["src"][t]), mics=torch.from_numpy(pos["mic"][t])))
        same(got[t], ref, scenes.round_tol(dict(case, srcs=pos["src"][t].tolist(), mics=pos["mic"][t].tolist()), ref, "float64"),
             f"step {t} of {steps} against the static response")


@st.composite
def bad_cases(draw):
    room = draw(gens.rooms())
    dim = len(room["size"])
    kind = draw(st.sampled_from(["steps", "src_dim", "mic_dim", "ndim1", "ndim4"]))
    steps = draw(st.integers(1, 4))
    return dict(room=room, kind=kind, steps=steps, other=steps + draw(st.integers(1, 3)), dim=dim,
                n=draw(st.integers(1, 3)), swap=draw(st.booleans()))


def run_bad(case, ctx):
    from torchrir.sim import simulate_dynamic_rir

    dim, n, t = case["dim"], case["n"], case["steps"]
    good = lambda d=dim, k=t: torch.full((k, n, d), 0.5, dtype=torch.float64)  # noqa: E731
    src, mic = good(), good()
    if case["kind"] == "steps":
        src, mic = good(k=t), good(k=case["other"])
        if case["swap"]:
            src, mic = mic, src
    elif case["kind"] == "src_dim":
        src = good(d=5 - dim)
    elif case["kind"] == "mic_dim":
        mic = good(d=5 - dim)
    elif case["kind"] == "ndim1":
        src = torch.full((dim,), 0.5, dtype=torch.float64)
    else:
        mic = mic.unsqueeze(0)
    ctx.label(case["kind"])
    expect_raises(ValueError, simulate_dynamic_rir, room=make_room(case["room"]), src_traj=src, mic_traj=mic,
                  max_order=1, nsample=64, config=config(), what=f"inconsistent trajectories ({case['kind']})")


CHECK = Check(
    id="C02",
    technique="property-based testing: differential of the dynamic path against the static path and a reference model",
    rule=("Cases are scenes with 1-5 trajectory steps per source and microphone (still, walking, jumping, moving only at the "
          "last step), limits, directivity, filter, table and chunk settings; non-trivial when something moves."),
    note="The dynamic path is compared step by step with the static path and, separately, with the independent reference.",
    laws=[
        Law("step_equals_static", cases, run, quick=1600, thorough=9000),
        Law("step_equals_static_f32", lambda: cases(dtype="float32"), run, quick=500, thorough=2500),
        Law("step_equals_model", cases, run_model, quick=500, thorough=4000, rule="every case is non-trivial"),
        Law("many_steps", long_cases, run_long, quick=90, thorough=1600, shards=6, rule="7 to 1025 steps, beside multiples of round block lengths; not silent"),
        Law("inconsistent_rejected", bad_cases, run_bad, quick=200, thorough=1500),
    ],
    assumptions=["Single-precision comparisons exclude the half-omni step function, which may go either way side-on."],
)
