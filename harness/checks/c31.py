"""C31: the files a scene program writes determine the scene: everything can be re-derived from them, and the same request writes them again."""

import contextlib
import importlib.util
import io
import json
import logging
import math
import os
from pathlib import Path
import random
import subprocess
import sys

from hypothesis import strategies as st
import numpy as np
import torch

from .. import builderlib as bl
from .. import corpora, gens, ism_model, scenes
from ..audiolib import read_wav
from ..convlib import segmented
from ..core import Check, HarnessError, Law, Violation, require, sut
from ..simlib import config, dt, eps_for, make_room, same, tens

REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
CPU_MODES = {"static": "static_binaural", "dynamic_src": "dynamic_src_binaural", "dynamic_mic": "dynamic_mic_binaural"}
PROGRAMS = ["cli", "cli", "cli", "static", "dynamic_src", "dynamic_mic"]
_MODULES = {}


def program(name):
    """The example program as a module."""
    path = REPO / "examples" / f"{name}.py"
    if path not in _MODULES:
        spec = importlib.util.spec_from_file_location(f"verif_example_{name}", path)
        if spec is None or spec.loader is None or not path.exists():
            raise HarnessError(f"no example program {path}")
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        _MODULES[path] = m
    return _MODULES[path]


@contextlib.contextmanager
def sandboxed(argv):
    """Command-line arguments for one call of main(); logging and process settings as before afterwards."""
    saved, path = sys.argv, list(sys.path)
    loggers = [logging.getLogger(n) for n in (None, "torchrir", "examples", "examples.cli", "examples.static", "examples.dynamic_src", "examples.dynamic_mic")]
    state = [(lg, list(lg.handlers), lg.level, lg.propagate) for lg in loggers]
    det = torch.are_deterministic_algorithms_enabled()
    sys.argv = argv
    err = io.StringIO()
    try:
        with corpora.no_network() as net, contextlib.redirect_stderr(err), contextlib.redirect_stdout(io.StringIO()):
            yield net
    finally:
        sys.argv, sys.path[:] = saved, path
        for lg, handlers, level, prop in state:
            lg.handlers[:] = handlers
            lg.setLevel(level)
            lg.propagate = prop
        torch.use_deterministic_algorithms(det)


def call(name, argv):
    m = program(name)
    with sandboxed([f"examples/{name}.py", *argv]) as net:
        try:
            sut(m.main)
        except SystemExit as exc:
            raise Violation(f"{name}.py {' '.join(argv)} exited with {exc.code}") from None
    require(not net.attempts, lambda: f"the network was used: {net.attempts[:2]}")


# -- requests ------------------------------------------------------------------------------------

def speakers():
    from torchrir.datasets import cmu_arctic_speakers

    return list(cmu_arctic_speakers())


@st.composite
def requests(draw, progs=PROGRAMS):
    name = draw(st.sampled_from(progs))
    mode = draw(st.sampled_from(list(CPU_MODES))) if name == "cli" else name
    dim = draw(st.sampled_from([3, 3, 3, 2]))
    room = [draw(gens.uniform(4.0, 9.0)), draw(gens.uniform(4.0, 9.0))] + ([draw(gens.uniform(2.0, 4.5))] if dim == 3 else [])
    return dict(
        prog=name, mode=mode, room=[round(x, 3) for x in room], rate=draw(st.sampled_from([8000, 16000, 4000])),
        n=draw(st.integers(60, 900)), num=draw(st.sampled_from([1, 2, 2, 3, 4])), mics=2 if name == "cli" else draw(st.sampled_from([1, 2, 3, 4])),
        moving=draw(st.integers(0, 3)), seed=draw(st.integers(0, 10**6)), steps=draw(st.sampled_from([1, 2, 3, 5, 7, 12])),
        order=draw(st.integers(0, 3)), tmax=draw(st.sampled_from([0.02, 0.03, 0.045, 0.0501])), det=draw(st.integers(0, 4)) == 3,
        data=draw(st.integers(0, 10**6)), utts=draw(st.sampled_from([1, 2, 4])), hi=draw(st.sampled_from([80, 400, 1500])))


def corpus(req):
    """The recordings of every speaker of the dataset."""
    g = np.random.default_rng(req["data"])
    kinds = ["noise", "noise", "sine", "quiet", "pulse"]
    return dict(rate=req["rate"], speakers=[dict(name=s, utts=[dict(id=f"arctic_a{k + 1:04d}", n=int(g.integers(20, req["hi"])), kind=kinds[int(g.integers(0, len(kinds)))], seed=int(g.integers(0, 10**6)))
                                                               for k in range(req["utts"])]) for s in speakers()])


def argv(req, root, out):
    a = ["--dataset-dir", str(root), "--no-download", "--num-sources", str(req["num"]), "--duration", repr((req["n"] + 0.5) / req["rate"]), "--seed", str(req["seed"]),
         "--room", *map(str, req["room"]), "--order", str(req["order"]), "--tmax", str(req["tmax"]), "--out-dir", str(out), "--log-level", "ERROR"]
    if req["mode"] != "static":
        a += ["--steps", str(req["steps"])]
    if req["prog"] == "cli":
        a += ["--mode", req["mode"]] + (["--deterministic"] if req["det"] else [])
    else:
        a += ["--num-mics", str(req["mics"])]
        if req["prog"] == "dynamic_src":
            a += ["--num-moving-sources", str(req["moving"])]
    return a


def stem(req):
    return CPU_MODES[req["mode"]] if req["prog"] == "cli" else req["mode"]


# -- re-deriving a scene from its record -----------------------------------------------------------

def load_meta(path):
    def no(c):
        raise Violation(f"{path.name} holds {c}, which is not JSON")

    return json.loads(path.read_text(encoding="utf-8"), parse_constant=no)


def tracks(meta):
    """(T, n, dim) positions of sources and microphones."""
    out = []
    for key in ("sources", "mics"):
        t = meta["trajectories"][key]
        out.append(np.array(t if t is not None else [meta[key]["positions"]], float))
    return out


def boundaries(n, steps):
    opts = [[k * n // steps for k in range(steps)], [int(k * (n / steps)) for k in range(steps)], [int((k * n) / steps) for k in range(steps)]]
    return [o + [n] for i, o in enumerate(opts) if o not in opts[:i]]


def highpass(h, tol, fs):
    """The default high-pass filter applied to reference responses."""
    from scipy.signal import iirfilter, sosfiltfilt

    sos = iirfilter(2, 2.0 * 10.0 / fs, btype="highpass", ftype="butter", output="sos")
    pulse = np.zeros(int(fs) | 1)
    pulse[len(pulse) // 2] = 1.0
    ring = sosfiltfilt(sos, pulse) - pulse  # what the filter takes away, spread over many samples
    return sosfiltfilt(sos, h, axis=-1), 1.05 * tol + 3.0 * np.abs(ring).max() * tol.sum(axis=-1, keepdims=True)


def rederive(meta, xs, *, hpf=True, lut=20, dtype="float32", fdl=81, dirs=None, limit):
    """Audio at every microphone, one choice per admissible segmentation, from the record and the dry recordings: (sources, mics, samples)."""
    room = meta["room"]
    src, mic = tracks(meta)
    steps = len(src)
    require(len(mic) == steps, f"{steps} steps of the sources, {len(mic)} of the microphones")
    cache = {}
    hs, ts = [], []
    for t in range(steps):
        key = (src[t].tobytes(), mic[t].tobytes())
        if key not in cache:
            kw = dict(nsample=meta["time_axis"]["nsample"], fdl=fdl, lut_gran=lut, fs=room["fs"], c=room["c"], **limit, **eps_for(dtype))
            if dirs is not None:
                kw.update(src_pat=dirs["src"], mic_pat=dirs["mic"], src_dirs=meta["sources"]["orientation"], mic_dirs=meta["mics"]["orientation"])
            h, tol = ism_model.rir(room["size"], src[t].tolist(), mic[t].tolist(), beta=room["beta"], t60=room["t60"], **kw)
            cache[key] = highpass(h, tol, room["fs"]) if hpf else (h, tol)
        hs.append(cache[key][0])
        ts.append(cache[key][1])
    hs, ts = np.array(hs), np.array(ts)
    n, out_len = xs.shape[1], xs.shape[1] + hs.shape[-1] - 1
    eps = 3e-6 if dtype == "float32" else 1e-13
    outs = []
    for b in boundaries(n, steps):
        parts = [segmented(xs[i:i + 1], hs[:, i:i + 1], b, out_len) for i in range(len(xs))]
        slack = [segmented(np.abs(xs[i:i + 1]), ts[:, i:i + 1], b, out_len) + eps * np.linalg.norm(xs[i]) * np.abs(hs[:, i]).max() * math.sqrt(hs.shape[-1]) for i in range(len(xs))]
        outs.append((np.array(parts), np.array(slack)))
    return outs


def replayed(meta, xs, order):
    """The same from responses the library computes for the recorded scene: tight, where the model's allowance for table and rounding is wide."""
    from torchrir import MicrophoneArray, Room, Source
    from torchrir.sim import simulate_dynamic_rir, simulate_rir

    r, f32 = meta["room"], torch.float32
    room = sut(Room.shoebox, size=r["size"], fs=r["fs"], c=r["c"], beta=r["beta"], t60=r["t60"])
    src, mic = tracks(meta)
    kw = dict(room=room, max_order=order, nsample=meta["time_axis"]["nsample"])
    if meta["trajectories"]["sources"] is None:
        h = sut(simulate_rir, sources=Source.from_positions(src[0].tolist()), mics=MicrophoneArray.from_positions(mic[0].tolist()), **kw)[None]
    else:
        h = sut(simulate_dynamic_rir, src_traj=torch.tensor(src, dtype=f32), mic_traj=torch.tensor(mic, dtype=f32), **kw)
    require(list(h.shape) == [len(src), *meta["rirs_shape"][-3:]], f"rebuilt responses {tuple(h.shape)}, recorded {meta['rirs_shape']}")
    hs = h.to(torch.float64).numpy()
    n, out_len = xs.shape[1], xs.shape[1] + hs.shape[-1] - 1
    outs = []
    for b in boundaries(n, len(src)):
        parts = [segmented(xs[i:i + 1], hs[:, i:i + 1], b, out_len) for i in range(len(xs))]
        slack = [np.full_like(p, 3e-6 * len(src) * np.linalg.norm(xs[i]) * np.sqrt((hs[:, i] ** 2).sum(-1).max())) for i, p in enumerate(parts)]
        outs.append((np.array(parts), np.array(slack)))
    return outs


def check_audio(path, rate, options, what):
    """The file holds one of the options, scaled to full scale as the writer documents."""
    require(path.exists(), f"{what}: {path.name} was not written")
    fs, got, subtype = read_wav(path)
    require(fs == rate, f"{what}: rate {fs}, expected {rate}")
    err = None
    for want, slack in options:
        peak = np.abs(want).max()
        if not peak > 2 * slack.max():
            require(got.shape == want.shape, f"{what}: {got.shape}, expected {want.shape}")
            return False
        w = want / peak
        tol = (slack + np.abs(w) * slack.max()) / peak * 1.5 + 2.5 / 32768
        try:
            same(got, w, tol, what)
            return True
        except Violation as exc:
            err = err or exc
    raise err


def dry(spec, info, n):
    """Signals of the recorded utterances."""
    table = {s["name"]: {u["id"]: u for u in s["utts"]} for s in spec["speakers"]}
    rows = []
    for who, ids in info:
        require(who in table and set(ids) <= set(table[who]), f"{who}: recorded utterances {ids} do not exist")
        for b in range(0, len(ids), len(table[who])):
            block = ids[b:b + len(table[who])]
            require(len(set(block)) == len(block), f"{who}: an utterance repeats before all were used: {ids}")
        cat = np.concatenate([bl.samples(table[who][u]) for u in ids]) / 32768.0
        require(len(cat) >= n > len(cat) - table[who][ids[-1]]["n"], f"{who}: {ids} hold {len(cat)} samples, the scene has {n}")
        rows.append(cat[:n])
    require(len({w for w, _ in info}) == len(info), f"a speaker appears twice: {[w for w, _ in info]}")
    return np.array(rows)


def within(p, size, margin, what, z=None):
    eps = 2e-6 * max(size)
    for k, (x, length) in enumerate(zip(p, size)):
        lo, hi = margin, length - margin
        if z is not None and k == 2 and min(hi, z[1]) >= max(lo, z[0]):
            lo, hi = max(lo, z[0]), min(hi, z[1])
        require(lo - eps <= x <= hi + eps, f"{what}: coordinate {k} is {x}, outside [{lo}, {hi}]")


def check_geometry(req, meta, mod):
    """Positions as the program documents them."""
    size = req["room"]
    dim = len(size)
    src, mic = tracks(meta)
    steps = 1 if req["mode"] == "static" else max(2, req["steps"])
    require(src.shape == (steps, req["num"], dim), f"source positions {src.shape}")
    require(mic.shape == (steps, req["mics"], dim), f"microphone positions {mic.shape}")
    require(meta["dynamic"] is (steps > 1), f"dynamic is {meta['dynamic']} with {steps} steps")
    same(meta["sources"]["positions"], src[0], 1e-6, "source positions against the first step")
    same(meta["mics"]["positions"], mic[0], 1e-6, "microphone positions against the first step")
    centers = mic.mean(axis=1)
    step = 2 * 0.08 if req["prog"] == "cli" else (2 if req["mics"] == 2 else 1) * mod.MIC_SPACING
    offs = np.zeros((req["mics"], dim))
    offs[:, 0] = (np.arange(req["mics"]) - (req["mics"] - 1) / 2) * step
    same(mic, centers[:, None] + offs[None], 4e-6, "microphones around their centre")
    for c in (centers[0], centers[-1]):
        within(c, size, 0.5, "array centre")
    for i in range(req["num"]):
        within(src[0, i], size, 0.5, f"source {i}", (1.5, 1.8))
        d = float(np.linalg.norm(src[0, i] - centers[0]))
        require(d >= 1.5 - 1e-5, f"source {i} starts {d} m from the array, at least 1.5 m were asked for")
        within(src[-1, i], size, 0.5, f"end of source {i}", (1.5, 1.8))
    f = (np.arange(steps) / max(1, steps - 1))[:, None]
    for what, path in [*((f"source {i}", src[:, i]) for i in range(req["num"])), ("array centre", centers)]:
        same(path, path[0] + f * (path[-1] - path[0]), 4e-6, f"{what} on its straight line")
    moved = [i for i in range(req["num"]) if np.abs(src[-1, i] - src[0, i]).max() > 1e-4]
    swept = steps > 1 and np.abs(centers[-1] - centers[0]).max() > 1e-4
    require(not moved or req["mode"] == "dynamic_src", f"sources {moved} move in mode {req['mode']}")
    require(not swept or req["mode"] == "dynamic_mic", f"the array moves in mode {req['mode']}")
    if req["mode"] == "dynamic_mic":
        require(swept, "the moving array stands still")
    if req["mode"] == "dynamic_src":
        want = req["num"] if req["prog"] == "cli" else min(req["num"], max(1, req["moving"]))
        require(len(moved) == want, f"{len(moved)} sources move, {want} asked for")


def check_record(req, meta, spec, out):
    room = meta["room"]
    size = np.array(req["room"])
    same(room["size"], size, 1e-6 * size, "room size")
    same(room["beta"], [0.9] * (2 * len(size)), 1e-6, "reflection coefficients")
    require(room["fs"] == req["rate"] and meta["time_axis"]["fs"] == req["rate"], f"recorded rates {room['fs']}, {meta['time_axis']['fs']}; {req['rate']} on disk")
    require(room["c"] == 343.0 and room["t60"] is None, f"speed of sound {room['c']}, T60 {room['t60']}")
    ns = meta["time_axis"]["nsample"]
    require(ns == math.ceil(req["tmax"] * req["rate"] - 1e-9), f"{ns} samples of response for {req['tmax']} s at {req['rate']} Hz")
    steps = 1 if req["mode"] == "static" else max(2, req["steps"])
    require(meta["rirs_shape"] == ([] if steps == 1 else [steps]) + [req["num"], req["mics"], ns], f"rirs_shape {meta['rirs_shape']}")
    if steps > 1:
        same(meta["timestamps"], np.linspace(0, (req["n"] - 1) / req["rate"], steps), 1e-6, "timestamps")
    extra = meta["extra"]
    require(extra["mode"] == req["mode"], f"mode {extra['mode']}")
    text = (out / extra["attribution_file"]).read_text(encoding="utf-8")
    for v in [*(v for v in extra["dataset_license"].values() if isinstance(v, str)), *extra["modifications"]]:
        require(v in text, f"{extra['attribution_file']} does not mention {v!r}")


def check_outputs(req, spec, out):
    """Everything below the output directory against the request and the recordings."""
    mod = program(req["prog"])
    names = {"ATTRIBUTION.txt", f"{stem(req)}.wav", f"{stem(req)}_metadata.json"}
    refs = [] if req["prog"] == "cli" else [f"{stem(req)}_ref{i + 1:02d}.wav" for i in range(req["num"])]
    have = {p.relative_to(out).as_posix() for p in out.rglob("*")}
    require(have == names | set(refs), f"wrote {sorted(have)}, documented {sorted(names | set(refs))}")
    meta = load_meta(out / f"{stem(req)}_metadata.json")
    check_record(req, meta, spec, out)
    check_geometry(req, meta, mod)
    info = meta["source_info"]
    xs = dry(spec, info, req["n"])
    require(len(xs) == req["num"], f"{len(xs)} signals for {req['num']} sources")
    options = replayed(meta, xs, req["order"])
    loud = check_audio(out / f"{stem(req)}.wav", req["rate"], [(p.sum(0), s.sum(0)) for p, s in options], "scene")
    model = rederive(meta, xs, limit=dict(max_order=req["order"], nb_img=None))
    modelled = check_audio(out / f"{stem(req)}.wav", req["rate"], [(p.sum(0), s.sum(0)) for p, s in model], "scene, by the image-source model")
    for i, r in enumerate(refs):
        check_audio(out / r, req["rate"], [(p[i], s[i]) for p, s in options], f"reference {i + 1}")
        entry = meta["extra"]["reference_audio"][i]
        require(entry["filename"] == r and [entry["speaker"], entry["utterances"]] == info[i], f"reference_audio[{i}] is {entry}, the source is {info[i]}")
    return meta, loud, modelled


def run(req, ctx):
    base = Path(ctx.scratch())
    spec = corpus(req)
    bl.write(base / "data", spec)
    before = bl.snapshot(base / "data")
    call(req["prog"], argv(req, base / "data", base / "out"))
    require(bl.snapshot(base / "data") == before, "the dataset was changed")
    meta, loud, modelled = check_outputs(req, spec, base / "out")
    ctx.trivial(not loud)
    ctx.label(req["prog"], req["mode"], f"{len(req['room'])}-D", "model decides" if modelled else "too quiet for the model", "repeats" if any(len(ids) > req["utts"] for _, ids in meta["source_info"]) else "no repeats")


# -- the same request again ------------------------------------------------------------------------

@st.composite
def again_cases(draw):
    return dict(req=draw(requests()), how=draw(st.sampled_from(["plain", "json", "yaml", "yml"])), noise=draw(st.integers(0, 10**6)),
                other=draw(st.integers(1, 1000)), override=draw(st.sampled_from([None, None, "seed", "order", "num"])))


def record(req, out):
    """WAV bytes and the record without the request's own paths."""
    meta = load_meta(out / f"{stem(req)}_metadata.json")
    meta["extra"].get("args", {}).pop("out_dir", None)
    return {p.name: p.read_bytes() for p in out.iterdir() if p.suffix != ".json"}, meta


def run_again(case, ctx):
    req = case["req"]
    base = Path(ctx.scratch())
    bl.write(base / "data", corpus(req))
    how = case["how"] if req["prog"] == "cli" else "plain"
    a = argv(req, base / "data", base / "a")
    conf = base / "conf" / f"scene.{how}"
    call(req["prog"], a + (["--config-out", str(conf)] if how != "plain" else []))
    first = record(req, base / "a")
    random.seed(case["noise"])  # unrelated work in between
    np.random.seed(case["noise"] % 2**32)
    torch.manual_seed(case["noise"])
    torch.rand(case["noise"] % 97)
    with corpora.shuffled_directories(case["noise"]):
        if how == "plain":
            call(req["prog"], argv(req, base / "data", base / "b"))
        else:
            call(req["prog"], ["--config-in", str(conf), "--out-dir", str(base / "b")])
    second = record(req, base / "b")
    require(first[1] == second[1], lambda: f"the same request ({how}) recorded another scene: {diff(first[1], second[1])}")
    require(first[0] == second[0], lambda: f"the same request ({how}) wrote other files: {[k for k in first[0] if first[0][k] != second[0].get(k)]}")
    require(set(os.listdir(base / "b")) == set(os.listdir(base / "a")), "other files the second time")
    if how != "plain" and case["override"]:  # the command line wins over the file
        new = dict(req)
        new[case["override"]] = {"seed": req["seed"] + case["other"], "order": (req["order"] + 1) % 4, "num": req["num"] % 4 + 1}[case["override"]]
        flag = {"seed": "--seed", "order": "--order", "num": "--num-sources"}[case["override"]]
        call("cli", ["--config-in", str(conf), "--out-dir", str(base / "c"), flag, str(new[case["override"]])])
        check_outputs(new, corpus(req), base / "c")
    new = dict(req, seed=req["seed"] + case["other"])
    call(req["prog"], argv(new, base / "data", base / "d"))
    third = record(new, base / "d")
    require(third[1]["sources"] != first[1]["sources"] and third[1]["mics"] != first[1]["mics"], f"seeds {req['seed']} and {new['seed']} place everything alike")
    ctx.label(req["prog"], how, f"override {case['override']}" if how != "plain" else "no file")


def diff(a, b, at=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k):
                return diff(a.get(k), b.get(k), f"{at}.{k}")
    return f"{at}: {str(a)[:150]} / {str(b)[:150]}"


def run_process(case, ctx):
    """The same request in two processes with different hash seeds and thread counts."""
    req = case["req"]
    base = Path(ctx.scratch())
    bl.write(base / "data", corpus(req))
    got = []
    for k in range(2):
        out = base / f"out{k}"
        env = dict(os.environ, PYTHONHASHSEED=str(case["hash"] + k), PYTHONPATH=str(REPO / "src"), OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
        r = subprocess.run([sys.executable, str(REPO / "examples" / f"{req['prog']}.py"), *argv(req, base / "data", out)], env=env, cwd=base, capture_output=True, timeout=200)
        require(r.returncode == 0, lambda: f"{req['prog']}.py exited with {r.returncode}: {r.stderr.decode(errors='replace')[-300:]}")
        got.append(record(req, out))
    require(got[0][1] == got[1][1], lambda: f"another process recorded another scene: {diff(got[0][1], got[1][1])}")
    require(got[0][0] == got[1][0], "another process wrote other files")
    check_outputs(req, corpus(req), base / "out1")
    ctx.label(req["prog"], req["mode"])


# -- any scene ---------------------------------------------------------------------------------------

@st.composite
def scene_cases(draw):
    c = draw(scenes.static(walls=False, max_n=3, fdl=st.sampled_from([81, 41]), lens=st.integers(60, 400)))
    c["room"]["fs"] = float(draw(st.sampled_from([8000, 16000, 4000, 22050, 7919])))
    if c["dir"]:
        for k in ("src", "mic"):
            if c["dir"][k] == "homni":
                c["dir"][k] = "cardioid"
    size = c["room"]["size"]
    steps = draw(st.sampled_from([0, 0, 1, 2, 3, 5]))
    ends = lambda ps: [draw(gens.point(size)) if draw(st.booleans()) else p for p in ps]
    c.update(steps=steps, src_end=ends(c["srcs"]), mic_end=ends(c["mics"]), n=draw(st.integers(1, 600)), data=draw(st.integers(0, 10**6)),
             hpf=draw(st.integers(0, 2)) == 1, lut=draw(st.booleans()), dtype=draw(st.sampled_from(["float64", "float64", "float32"])),
             obj=draw(st.booleans()), still=draw(st.sampled_from([None, None, "src", "mic"])))
    return c


def walk(a, b, steps):
    a, b = np.array(a), np.array(b)
    f = (np.arange(steps) / max(1, steps - 1))[:, None, None]
    return a[None] + f * (b - a)[None]


def run_scene(case, ctx):
    """Simulate, convolve and save any scene; rebuild it from the two files and the dry signals alone."""
    from torchrir import MicrophoneArray, Room, Source
    from torchrir.io import save_scene_audio, save_scene_metadata
    from torchrir.signal import DynamicConvolver, convolve_rir
    from torchrir.sim import simulate_dynamic_rir, simulate_rir

    dtype, d = dt(case["dtype"]), case["dir"]
    g = np.random.default_rng(case["data"])
    xs = g.uniform(-1, 1, (len(case["srcs"]), case["n"]))
    x = torch.tensor(xs, dtype=dtype)
    room = make_room(case["room"], dtype)
    ori = (None, None) if d is None else (tens(d["src_dir"], dtype), tens(d["mic_dir"], dtype))
    src = sut(Source.from_positions, tens(case["srcs"], dtype), orientation=ori[0])
    mic = sut(MicrophoneArray.from_positions, tens(case["mics"], dtype), orientation=ori[1])
    kw = dict(room=room, config=config(frac_delay_length=case["fdl"], use_lut=case["lut"], rir_hpf_enable=case["hpf"]), nsample=case["nsample"],
              max_order=case["limit"]["max_order"], nb_img=case["limit"]["nb_img"])
    if d is not None:
        kw.update(directivity=(d["src"], d["mic"]))
    steps = case["steps"]
    extra = {}
    if steps == 0:
        h = sut(simulate_rir, sources=src, mics=mic, **kw, **(dict(orientation=ori) if d is not None else {}))
        y = sut(convolve_rir, x, h)
    else:
        tr = [torch.tensor(walk(case["srcs"], case["srcs"] if case["still"] == "src" else case["src_end"], steps), dtype=dtype),
              torch.tensor(walk(case["mics"], case["mics"] if case["still"] == "mic" else case["mic_end"], steps), dtype=dtype)]
        h = sut(simulate_dynamic_rir, src_traj=tr[0], mic_traj=tr[1], **kw, **(dict(orientation=ori) if d is not None else {}))
        y = sut(DynamicConvolver(mode="trajectory").convolve, x, h)
        extra = dict(src_traj=tr[0], mic_traj=tr[1])
    base = Path(ctx.scratch())
    fs = int(case["room"]["fs"])
    sut(save_scene_audio, out_dir=base, audio=y, fs=fs, audio_name="scene.wav")
    sut(save_scene_metadata, out_dir=base, metadata_name="scene.json", room=room, sources=src, mics=mic, rirs=h, signal_len=case["n"], **extra)
    meta = load_meta(base / "scene.json")
    dirs = None if d is None else dict(src=d["src"], mic=d["mic"])
    eps = "float32" if case["dtype"] == "float32" else "float64"
    options = rederive(meta, x.to(torch.float64).numpy(), hpf=case["hpf"], lut=20 if case["lut"] else None, dtype=eps, fdl=case["fdl"], dirs=dirs, limit=case["limit"])
    loud = check_audio(base / "scene.wav", fs, [(p.sum(0), s.sum(0)) for p, s in options], f"scene of {max(1, steps)} steps")
    # the record alone, through the library again
    again = sut(Room.shoebox, size=meta["room"]["size"], fs=meta["room"]["fs"], c=meta["room"]["c"], beta=meta["room"]["beta"], t60=meta["room"]["t60"], dtype=dtype)
    kw["room"] = again
    s2 = sut(Source.from_positions, tens(meta["sources"]["positions"], dtype), orientation=None if d is None else tens(meta["sources"]["orientation"], dtype))
    m2 = sut(MicrophoneArray.from_positions, tens(meta["mics"]["positions"], dtype), orientation=None if d is None else tens(meta["mics"]["orientation"], dtype))
    if steps <= 1 and meta["trajectories"]["sources"] is None:
        h2 = sut(simulate_rir, sources=s2, mics=m2, **kw, **(dict(orientation=(s2.orientation, m2.orientation)) if d is not None else {}))
        h2 = h2 if steps == 0 else h2[None]
    else:
        h2 = sut(simulate_dynamic_rir, src_traj=tens(meta["trajectories"]["sources"], dtype), mic_traj=tens(meta["trajectories"]["mics"], dtype), **kw,
                 **(dict(orientation=(s2.orientation, m2.orientation)) if d is not None else {}))
    require(tuple(h2.shape) == tuple(h.shape), f"rebuilt responses {tuple(h2.shape)}, were {tuple(h.shape)}")
    require(torch.equal(h2, h), lambda: f"responses rebuilt from the record differ by {float((h2 - h).abs().max())}")
    ctx.trivial(not loud)
    ctx.label(case["dtype"], f"{steps} steps", "directional" if d else "omni", "filtered" if case["hpf"] else "raw")


CHECK = Check(
    "C31",
    [
        Law("programs", requests, run, quick=240, thorough=6000, shards=8, rule="every file of a scene program against its request and the recordings"),
        Law("again", again_cases, run_again, quick=100, thorough=2000, shards=8, rule="same seed and configuration, same files; other seed, other scene"),
        Law("processes", lambda: st.fixed_dictionaries(dict(req=requests(), hash=st.integers(0, 1000))), run_process, quick=12, thorough=120, shards=4, rule="the same request in two processes"),
        Law("scenes", scene_cases, run_scene, quick=500, thorough=12000, rule="any saved scene is rebuilt from its record"),
    ],
    rule="the scene is louder than what rounding can do to it",
    assumptions=["program files live in examples/ of the repository and are called through main()", "the default simulation settings of the documentation (81 taps, table of 20 steps, 10 Hz high-pass)"],
)
