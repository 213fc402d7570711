"""C05: directivity patterns and orientations."""

import math

from hypothesis import strategies as st
import numpy as np
import torch

from .. import gens, ism_model, scenes
from ..core import Check, Law, expect_raises, require, sut
from ..simlib import as_np, config, make_room, same, tens

PATTERNS = list(ism_model.PATTERNS)


def spelled(draw, pattern):
    """Any documented spelling of the pattern in any letter case."""
    name = draw(st.sampled_from(ism_model.ALIASES[pattern]))
    style = draw(st.integers(0, 3))
    if style == 1:
        return name.upper()
    if style == 2:
        return name.capitalize()
    if style == 3:
        mask = draw(st.lists(st.booleans(), min_size=len(name), max_size=len(name)))
        return "".join(ch.upper() if m else ch for ch, m in zip(name, mask))
    return name


@st.composite
def entity_angles(draw, dim, n):
    """Directions as angles: per entity (azimuth,) or (azimuth, elevation)."""
    out = []
    for _ in range(n):
        az = draw(st.one_of(gens.uniform(-math.pi, math.pi), gens.uniform(-7.0, 7.0),
                            st.sampled_from([0.0, math.pi / 2, math.pi, -math.pi / 2])))
        if dim == 2:
            out.append([az])
        else:
            out.append([az, draw(st.one_of(gens.uniform(-math.pi / 2, math.pi / 2), st.just(0.0), gens.uniform(-7.0, 7.0)))])
    return out


@st.composite
def cases(draw):
    c = draw(scenes.static(max_n=3, with_dir=False, lens=st.integers(60, 500)))
    dim = len(c["room"]["size"])
    sp, mp = draw(st.sampled_from(PATTERNS)), draw(st.sampled_from(PATTERNS))
    if draw(st.integers(0, 3)) == 0:
        mp = sp
    forms = ["vec", "angles"]
    out = dict(
        src_pat=sp, mic_pat=mp,
        src_name=spelled(draw, sp), mic_name=spelled(draw, mp),
        single=sp == mp and draw(st.booleans()),
        route=draw(st.sampled_from(["call", "entity", "override", "simulator", "dynamic", "dynamic_sim"])),
        steps=draw(st.integers(1, 3)),
        dirs={},
    )
    # a direction shared by all entities, or one per entity
    for who, n in (("src", len(c["srcs"])), ("mic", len(c["mics"]))):
        shared = draw(st.booleans())
        out["dirs"][who] = dict(
            shared=shared, angles=draw(entity_angles(dim, 1 if shared else n)), form=draw(st.sampled_from(forms)),
            scale=[draw(st.sampled_from([1.0, 1.0, 0.003, 0.5, 7.0, 900.0, 2e-5, 3e-7, 4e6])) for _ in range(1 if shared else n)],
            flat=draw(st.integers(0, 2)),
        )
    out["same_for_both"] = draw(st.integers(0, 4)) == 0
    if out["same_for_both"]:  # one orientation argument meant for both sides
        if not out["dirs"]["src"]["shared"] and len(c["srcs"]) != len(c["mics"]):
            out["dirs"]["src"]["shared"] = True
            for k in ("angles", "scale"):
                out["dirs"]["src"][k] = out["dirs"]["src"][k][:1]
        out["dirs"]["mic"] = out["dirs"]["src"]
    c["ori"] = out
    return c


def vectors(d, n, dim):
    """Unit vectors (n, dim) that the generated orientation denotes."""
    vs = [gens.azel_vec(a[0], a[1] if dim == 3 else 0.0, dim) for a in d["angles"]]
    return vs * n if d["shared"] else vs


def tensor_for(d, n, dim):
    """The orientation argument in its generated representation."""
    if d["form"] == "vec":
        rows = [[s * x for x in gens.azel_vec(a[0], a[1] if dim == 3 else 0.0, dim)] for a, s in zip(d["angles"], d["scale"])]
        return tens(rows[0] if d["shared"] else rows)
    rows = d["angles"]
    if d["shared"]:
        if dim == 2 and d["flat"] == 0:
            return tens(rows[0][0])
        return tens(rows[0])
    t = tens(rows)
    if dim == 2 and n not in (1, 2) and d["flat"] == 0:
        return t[:, 0]
    return t


def run(case, ctx):
    from torchrir import MicrophoneArray, Source
    from torchrir.models import DynamicScene, StaticScene
    from torchrir.sim import ISMSimulator, simulate_dynamic_rir, simulate_rir

    o = case["ori"]
    dim = len(case["room"]["size"])
    n_src, n_mic = len(case["srcs"]), len(case["mics"])
    sd, md = o["dirs"]["src"], o["dirs"]["mic"]
    s_ori, m_ori = tensor_for(sd, n_src, dim), tensor_for(md, n_mic, dim)
    keep = (s_ori.clone(), m_ori.clone())
    names = (o["src_name"], o["mic_name"])
    direct = o["src_name"] if o["single"] else names
    ref, tol = scenes.reference(case, src_pat=o["src_pat"], mic_pat=o["mic_pat"],
                                src_dirs=vectors(sd, n_src, dim), mic_dirs=vectors(md, n_mic, dim))
    room = make_room(case["room"])
    cfg = config(frac_delay_length=case["fdl"], use_lut=False)
    lim = dict(max_order=case["limit"]["max_order"], nb_img=case["limit"]["nb_img"], nsample=case["nsample"])
    src, mic = tens(case["srcs"]), tens(case["mics"])
    ori_arg = s_ori if o["same_for_both"] else (s_ori, m_ori)
    route = o["route"]
    ctx.label(route, f"src {o['src_pat']}", f"mic {o['mic_pat']}", sd["form"], "shared" if sd["shared"] else "per entity")
    ctx.trivial(o["src_pat"] == "omni" and o["mic_pat"] == "omni")
    if route == "call":
        got = sut(simulate_rir, room=room, sources=src, mics=mic, directivity=direct, orientation=ori_arg, config=cfg, **lim)
    elif route in ("entity", "override", "simulator"):
        other = route == "override"
        s_att = torch.flip(vec_of(s_ori, dim), (-1,)) * -1 if other else s_ori
        m_att = torch.flip(vec_of(m_ori, dim), (-1,)) * -1 if other else m_ori
        sources = sut(Source.from_positions, case["srcs"], orientation=s_att, dtype=torch.float64)
        mics = sut(MicrophoneArray.from_positions, case["mics"], orientation=m_att, dtype=torch.float64)
        if route == "simulator":
            res = sut(ISMSimulator(directivity=direct, **lim).simulate, StaticScene(room=room, sources=sources, mics=mics), cfg)
            got = res.rirs
        else:
            got = sut(simulate_rir, room=room, sources=sources, mics=mics, directivity=direct,
                      orientation=ori_arg if other else None, config=cfg, **lim)
    else:
        k = o["steps"]
        s_t, m_t = src.unsqueeze(0).repeat(k, 1, 1), mic.unsqueeze(0).repeat(k, 1, 1)
        if route == "dynamic":
            got = sut(simulate_dynamic_rir, room=room, src_traj=s_t, mic_traj=m_t, directivity=direct,
                      orientation=ori_arg, config=cfg, **lim)
        else:
            sources = sut(Source.from_positions, case["srcs"], orientation=s_ori, dtype=torch.float64)
            mics = sut(MicrophoneArray.from_positions, case["mics"], orientation=m_ori, dtype=torch.float64)
            scene = DynamicScene(room=room, sources=sources, mics=mics, src_traj=s_t, mic_traj=m_t)
            got = sut(ISMSimulator(directivity=direct, **lim).simulate, scene, cfg).rirs
        require(got.shape[0] == k, "time steps")
        for t in range(k):
            same(as_np(got)[t], ref, tol, f"step {t} against the documented pattern")
        got = None
    if got is not None:
        same(as_np(got), ref, tol, f"response ({route}) against the documented pattern")
    require(torch.equal(s_ori, keep[0]) and torch.equal(m_ori, keep[1]), "orientation argument was modified")


@st.composite
def many_cases(draw):
    """Dozens of entities, each looking its own way."""
    room = draw(gens.rooms())
    dim = len(room["size"])
    n_src, n_mic = draw(st.sampled_from([(1, 17), (1, 33), (18, 2), (33, 1), (2, 20), (12, 12), (5, 40), (1, 70), (3, 65), (9, 2), (2, 9)]))
    g = np.random.default_rng(draw(st.integers(0, 10**6)))

    def pos(n, half):
        p = g.uniform(0.02, 0.98, (n, dim))
        p[:, 0] = 0.03 + 0.42 * p[:, 0] + 0.5 * half
        return (np.array(room["size"]) * p).tolist()

    dirs = {w: [[float(a), float(e)][:dim - 1] for a, e in zip(g.uniform(-3.1, 3.1, n), g.uniform(-1.4, 1.4, n))] for w, n in (("src", n_src), ("mic", n_mic))}
    pats = [draw(st.sampled_from(PATTERNS)), draw(st.sampled_from([p for p in PATTERNS if p != "omni"]))]
    if draw(st.booleans()):
        pats.reverse()
    return dict(room=room, limit=dict(max_order=draw(st.integers(0, 1)), nb_img=None), srcs=pos(n_src, 0), mics=pos(n_mic, 1), dir=None,
                nsample=draw(st.integers(150, 700)), fdl=draw(st.sampled_from([81, 21])),
                ori=dict(src_pat=pats[0], mic_pat=pats[1], src_name=pats[0], mic_name=pats[1], single=pats[0] == pats[1] and draw(st.booleans()),
                         route=draw(st.sampled_from(["call", "entity", "override", "simulator", "dynamic", "dynamic_sim"])), steps=draw(st.integers(1, 2)), same_for_both=False,
                         dirs={w: dict(shared=False, angles=dirs[w], form=draw(st.sampled_from(["vec", "angles"])),
                                       scale=g.choice([1.0, 0.01, 30.0], len(dirs[w])).tolist(), flat=draw(st.integers(0, 2))) for w in ("src", "mic")}))


def vec_of(t, dim):
    """Some valid orientation of the same shape that denotes other directions."""
    return t + 1.0 if t.ndim == 0 else t.roll(1, dims=-1) + 0.25


@st.composite
def side_cases(draw):
    """Single patterns seen at a known angle in free field: gain must be the documented function."""
    dim = draw(st.sampled_from([2, 3]))
    return dict(dim=dim, pattern=draw(st.sampled_from(PATTERNS)), who=draw(st.sampled_from(["src", "mic"])),
                az=draw(st.one_of(gens.uniform(-math.pi, math.pi), st.sampled_from([0.0, math.pi, math.pi / 2]))),
                el=draw(gens.uniform(-1.5, 1.5)) if dim == 3 else 0.0,
                paz=draw(gens.uniform(-math.pi, math.pi)), r=draw(gens.uniform(0.3, 3.0)))


def run_side(case, ctx):
    from torchrir import Room
    from torchrir.sim import simulate_rir

    dim = case["dim"]
    path = gens.azel_vec(case["paz"], 0.3, dim)
    src = [5.0] * dim
    mic = [5.0 + case["r"] * x for x in path]
    toward = path if case["who"] == "src" else [-x for x in path]
    o = gens.azel_vec(case["az"], case["el"], dim)
    cosv = sum(a * b for a, b in zip(o, toward))
    if case["pattern"] == "homni" and abs(cosv) < 1e-6:
        ctx.trivial()
        return
    room = Room.shoebox([10.0] * dim, fs=8000.0, beta=[0.0] * (2 * dim), dtype=torch.float64)
    kw = dict(room=room, sources=tens([src]), mics=tens([mic]), max_order=0, nsample=200, config=config(use_lut=False))
    plain = as_np(sut(simulate_rir, **kw))
    d = (case["pattern"], "omni") if case["who"] == "src" else ("omni", case["pattern"])
    got = as_np(sut(simulate_rir, directivity=d, orientation=tens(o), **kw))
    g = float(ism_model.PATTERNS[case["pattern"]](np.array(cosv)))
    ctx.label(case["pattern"], case["who"])
    ctx.trivial(case["pattern"] == "omni")
    same(got, plain * g, 1e-9 * abs(plain).max(), f"{case['who']} {case['pattern']} at cos {cosv:.4f}")


@st.composite
def bad_cases(draw):
    dim = draw(st.sampled_from([2, 3]))
    kind = draw(st.sampled_from(["missing", "unknown", "count", "width", "ndim", "tuple3", "pat_tuple", "missing_one"]))
    n_src, n_mic = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    return dict(dim=dim, kind=kind, n_src=n_src, n_mic=n_mic, who=draw(st.sampled_from(["src", "mic"])),
                pattern=spelled(draw, draw(st.sampled_from(PATTERNS[1:]))),
                name=draw(st.one_of(st.sampled_from(["", "cardiod", "cardioid ", " omni", "omni2", "super", "figure 8", "figure_8", "hyper",
                                                     "sub", "bi", "none", "supercardioid", "half"]),
                                    st.text("abcdiomnrh-8 ", max_size=8))),
                extra=draw(st.integers(1, 3)), under=draw(st.booleans()), form=draw(st.sampled_from(["vec", "angle"])),
                dynamic=draw(st.booleans()), via_entity=draw(st.booleans()), k=draw(st.sampled_from([1, 3])))


def run_bad(case, ctx):
    from torchrir import Room
    from torchrir.sim import simulate_dynamic_rir, simulate_rir

    dim, kind, who = case["dim"], case["kind"], case["who"]
    n = {"src": case["n_src"], "mic": case["n_mic"]}
    known = {a for v in ism_model.ALIASES.values() for a in v}
    dirs = {w: torch.ones((n[w], dim), dtype=torch.float64) for w in n}
    pats = {w: case["pattern"] for w in n}
    directivity = orientation = None
    if kind == "missing":
        pats = {w: (case["pattern"] if w == who else "omni") for w in n}
        orientation = ()
    elif kind == "missing_one":
        dirs[who] = None
    elif kind == "unknown":
        if case["name"].lower() in known:
            ctx.trivial()
            return
        pats[who] = case["name"]
    elif kind == "count":
        bad = n[who] + case["extra"]
        if case["under"] and n[who] > 1:
            bad = n[who] - 1
        if case["form"] == "vec":
            dirs[who] = torch.ones((bad, dim), dtype=torch.float64)
        elif dim == 2:
            if bad <= 2:
                bad = n[who] + 3
            dirs[who] = torch.ones((bad,) if case["under"] else (bad, 1), dtype=torch.float64)
        else:
            dirs[who] = torch.ones((bad, 2), dtype=torch.float64)
    elif kind == "width":
        if dim == 3:
            dirs[who] = torch.ones((4,) if case["under"] else (n[who], case["extra"] + 3), dtype=torch.float64)
        else:
            dirs[who] = torch.ones((n[who], 2 + case["extra"]), dtype=torch.float64)
    elif kind == "ndim":
        dirs[who] = torch.ones((1, n[who], dim), dtype=torch.float64)
    elif kind == "tuple3":
        one = torch.ones(dim, dtype=torch.float64)
        orientation = (one,) * case["k"]
    elif kind == "pat_tuple":
        directivity = (case["pattern"],) * case["k"]
    if directivity is None:
        directivity = (pats["src"], pats["mic"])
    if orientation is None:
        orientation = (dirs["src"], dirs["mic"])
    elif orientation == ():
        orientation = None
    ctx.label(kind, "dynamic" if case["dynamic"] else "static")
    room = Room.shoebox([4.0] * dim, fs=8000.0, beta=[0.5] * (2 * dim), dtype=torch.float64)
    src = tens([[1.0 + 0.1 * i] * dim for i in range(n["src"])])
    mic = tens([[2.0 + 0.1 * i] * dim for i in range(n["mic"])])
    kw = dict(max_order=1, nsample=64, directivity=directivity, orientation=orientation, config=config())
    if case["dynamic"]:
        expect_raises(ValueError, simulate_dynamic_rir, room=room, src_traj=src.unsqueeze(0), mic_traj=mic.unsqueeze(0),
                      what=f"{kind} ({who})", **kw)
    else:
        expect_raises(ValueError, simulate_rir, room=room, sources=src, mics=mic, what=f"{kind} ({who})", **kw)


CHECK = Check(
    id="C05",
    technique="property-based testing: reference image-source model with documented pattern functions",
    rule=("Cases are scenes with independently chosen source and microphone patterns in any spelling and letter case, orientations as "
          "vectors of any length, angles or azimuth/elevation, shared or per entity, attached, passed, overriding, static or dynamic, by "
          "function or simulator; non-trivial unless both patterns are omnidirectional.  Invalid requests are generated separately."),
    note="Every representation of the same directions is compared with one independent reference response.",
    laws=[
        Law("patterns_and_orientation_forms", cases, run, quick=2400, thorough=56000),
        Law("many_entities", many_cases, run, quick=108, thorough=2000, shards=6, rule="9 to 70 sources or microphones with an orientation each, not all omnidirectional"),
        Law("free_field_gain", side_cases, run_side, quick=1000, thorough=16000),
        Law("invalid_rejected", bad_cases, run_bad, quick=1000, thorough=16000),
    ],
    assumptions=["A half-omni pattern seen exactly side-on may go either way (rounding)."],
)
