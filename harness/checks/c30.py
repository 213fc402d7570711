"""C30: calls do not interfere through threads, process settings, imports or copies."""

import contextlib
import copy
import importlib
import json
import logging
import os
from pathlib import Path
import pickle
import random
import subprocess
import sys
import threading
import warnings

from hypothesis import strategies as st
import numpy as np
import torch

from .. import corpora, gens
from ..core import Check, Law, Violation, require, sut
from ..simlib import config, dt, make_room, tens
from .c21 import specs, stub

ODD = st.integers(6, 60).map(lambda k: 2 * k + 1)
KINDS = ["static", "static", "static", "dynamic", "dynamic", "simulator", "convolve", "trajectory", "hop", "sample", "arrays", "acoustics", "wav", "metadata", "assemble", "orient", "collate", "outputs", "outputs", "corpus"]
QUICK = ["arrays", "sample", "acoustics", "orient", "collate", "metadata", "arrays", "sample", "convolve", "trajectory", "hop"]


@st.composite
def scene(draw):
    dim = draw(st.sampled_from([2, 3, 3]))
    size = draw(gens.sizes(dim, hi=5.0))
    n, m = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    return dict(size=size, srcs=[draw(gens.point(size)) for _ in range(n)], mics=[draw(gens.point(size)) for _ in range(m)], fs=draw(st.sampled_from([8000.0, 16000.0])), beta=draw(st.sampled_from([0.9, 0.5])),
                order=draw(st.integers(0, 3)), nsample=draw(st.integers(100, 500)), fdl=draw(ODD), gran=draw(st.integers(2, 60)), lut=draw(st.booleans()), hpf=draw(st.booleans()), tail=draw(st.booleans()),
                chunk=draw(st.sampled_from([3, 50, 2048])), steps=draw(st.integers(1, 4)), dtype=draw(st.sampled_from(["float64", "float32"])), seed=draw(st.integers(0, 10**6)),
                pattern=draw(st.sampled_from([None, "cardioid", "bidir"])))


@st.composite
def op(draw, kinds=KINDS):
    k = draw(st.sampled_from(kinds))
    o = dict(kind=k, seed=draw(st.integers(0, 10**6)))
    if k in ("static", "dynamic", "simulator", "metadata", "orient"):
        o["scene"] = draw(scene())
    elif k in ("convolve", "trajectory", "hop"):
        o.update(n=draw(st.integers(2, 300)), rl=draw(st.integers(1, 90)), t=draw(st.integers(1, 5)), n_src=draw(st.integers(1, 3)), n_mic=draw(st.integers(1, 3)), hop=draw(st.integers(1, 120)),
                 dtype=draw(st.sampled_from(["float64", "float32"])), stamps=draw(st.booleans()))
    elif k == "assemble":
        o.update(spec=draw(specs()), samples=draw(st.integers(1, 400)))
    elif k in ("sample", "arrays", "acoustics"):
        o.update(size=draw(gens.sizes(3, lo=3.0, hi=8.0)), num=draw(st.integers(1, 5)), t60=draw(st.sampled_from([0.2, 0.5, 1.1])))
    elif k == "corpus":
        which = draw(st.sampled_from(["cmu", "libri"]))
        o.update(which=which, corpus=draw(getattr(corpora, which)()))
    elif k in ("wav", "outputs"):
        o.update(n=draw(st.integers(1, 400)), ch=draw(st.integers(1, 4)), subtype=draw(st.sampled_from([None, "PCM_16", "FLOAT", "PCM_24"])))
    return o


def perform(o, folder):
    """The operation's results, as a flat list of tensors and plain values."""
    from torchrir import DynamicScene, MicrophoneArray, Source, StaticScene
    from torchrir import geometry, io, sim, signal, util
    from torchrir.datasets import CmuArcticDataset, DatasetItem, LibriSpeechDataset, attribution_for, collate_dataset_items, load_dataset_sources
    from torchrir.io import build_metadata

    k, g, form = o["kind"], np.random.default_rng(o["seed"]), o["seed"] // 2 % 4
    if "scene" in o:
        s = o["scene"]
        dtype, dim = dt(s["dtype"]), len(s["size"])
        room = make_room(dict(size=s["size"], fs=s["fs"], c=343.0, beta=[s["beta"]] * (2 * dim), t60=None), dtype)
        ori = dict(orientation=tens([1.0, 0.25, 0.5][:dim], dtype)) if s["pattern"] else {}
        src, mic = Source.from_positions(tens(s["srcs"], dtype), **ori), MicrophoneArray.from_positions(tens(s["mics"], dtype), **ori)
        cfg = config(frac_delay_length=s["fdl"], sinc_lut_granularity=s["gran"], use_lut=s["lut"], rir_hpf_enable=s["hpf"], accumulate_chunk_size=s["chunk"], image_chunk_size=s["chunk"], seed=s["seed"])
        pat = {"directivity": s["pattern"]} if s["pattern"] else {}
        tail = dict(tmax=s["nsample"] / s["fs"], tdiff=0.6 * s["nsample"] / s["fs"]) if s["tail"] else dict(nsample=s["nsample"])
        if form == 1:  # limits and orientations given per call, as tensors or tuples
            tail["nb_img"] = torch.tensor([1, 2, 1][:dim])
            if pat:
                pat["orientation"] = (tens([1.0, 0.25, 0.5][:dim], dtype), tens([[0.5, 1.0, -0.5][:dim]] * len(s["mics"]), dtype))
        elif form == 2:  # plain numbers, and angles
            src, mic = Source.from_positions(s["srcs"], dtype=dtype), MicrophoneArray.from_positions([tuple(p) for p in s["mics"]], dtype=dtype)
            tail.update(nb_img=(2, 1, 0)[:dim])
            if pat:
                pat["orientation"] = tens([[0.3, 0.7][: dim - 1]], dtype)[0]
        elif form == 3:
            room = make_room(dict(size=s["size"], fs=s["fs"], c=343.0, beta=None, t60=0.3), dtype)
            tail["device"] = "cpu"
        move = lambda p: tens(p, dtype)[None] * torch.linspace(0.8, 1.0, s["steps"], dtype=dtype)[:, None, None]  # noqa: E731
        if k == "static":
            return [sim.simulate_rir(room=room, sources=src, mics=mic, max_order=s["order"], config=cfg, **tail, **pat)]
        if k == "dynamic":
            return [sim.simulate_dynamic_rir(room=room, src_traj=move(s["srcs"]), mic_traj=move(s["mics"]), max_order=s["order"], nsample=s["nsample"], config=cfg,
                                             nb_img=tail.get("nb_img"), **({"orientation": tens([1.0, 0.25, 0.5][:dim], dtype), **pat} if pat else {}))]
        if k == "simulator":
            sc = StaticScene(room=room, sources=src, mics=mic) if form < 2 else DynamicScene(room=room, sources=src, mics=mic, src_traj=move(s["srcs"]), mic_traj=move(s["mics"]))
            if form == 2:
                pat = {}
            r = sim.ISMSimulator(max_order=s["order"], nsample=s["nsample"], nb_img=tail.get("nb_img"), **{a: b for a, b in pat.items() if a == "directivity"}).simulate(sc, cfg)
            return [r.rirs, r.seed]
        if k == "metadata":
            return [repr(build_metadata(room=room, sources=src, mics=mic, rirs=torch.zeros(s["steps"], len(s["srcs"]), len(s["mics"]), 7, dtype=dtype), src_traj=move(s["srcs"]), signal_len=5 * s["nsample"],
                                        **[{}, {"timestamps": torch.linspace(0, 1, s["steps"])}, {"source_info": [{"gain": tens([0.5, 1.5], dtype), "path": Path("a")}]}, {"extra": {"level": torch.tensor(0.25), "ids": (1, 2)}}][form]))]
        return [util.orientation_to_unit(tens(s["srcs"], dtype), dim), sim.directivity_gain(s["pattern"] or "omni", tens(g.uniform(-1, 1, 9).tolist(), dtype))]
    if k in ("convolve", "trajectory", "hop"):
        dtype = dt(o["dtype"])
        x = torch.tensor(g.uniform(-1, 1, (o["n_src"], o["n"])), dtype=dtype)
        h = torch.tensor(g.uniform(-1, 1, (o["t"], o["n_src"], o["n_mic"], o["rl"])), dtype=dtype)
        if k == "convolve":
            shapes = [(x, h[0]), (x[:1], h[0]), (x[0], h[0, 0]), (x[0], h[0, 0, 0])]
            return [signal.convolve_rir(*shapes[form]), signal.fft_convolve(x[0], h[0, 0, 0])]
        if k == "hop":
            return [signal.DynamicConvolver(mode="hop", hop=o["hop"]).convolve(x, h)]
        kw = dict(timestamps=torch.tensor(np.sort(g.uniform(0, o["n"] / 8000, o["t"])) * (np.arange(o["t"]) > 0)), fs=8000.0) if o["stamps"] else {}
        return [signal.DynamicConvolver(mode="trajectory", **kw).convolve(x, h)]
    if k == "sample":
        rng = random.Random(o["seed"])
        a = geometry.sample_positions(num=o["num"], room_size=tens(o["size"]), rng=rng)
        b = geometry.sample_positions_min_distance(num=o["num"], room_size=tens(o["size"]), rng=rng, center=tens([v / 2 for v in o["size"]]), min_distance=0.3)
        if form == 1:
            b = geometry.sampling.sample_positions_with_z_range(num=o["num"], room_size=tens(o["size"]), rng=rng, z_range=(1.0, 1.5))
        elif form == 2:
            b = geometry.sample_positions_min_distance(num=o["num"], room_size=torch.tensor([5, 6]), rng=rng, center=tens([1.0, 1.0], torch.float32), min_distance=0.5)
            return [a, b, geometry.clamp_positions(b * 2, torch.tensor([5.0, 6.0], dtype=torch.float32), 0.25), rng.random()]
        return [a, b, geometry.clamp_positions(a * 1.5, tens(o["size"])), geometry.linear_trajectory(a[0], b[0], o["num"] + 1), rng.random()]
    if k == "arrays":
        c = tens([v / 2 for v in o["size"]])
        if form == 1:
            return [geometry.linear_array(c, num=o["num"], spacing=0.1, direction=tens([1.0, -2.0, 0.5])), geometry.circular_array(c, num=o["num"], radius=0.1, normal=tens([0.0, 1.0, 1.0])), geometry.eigenmike_em64(c, azimuth_offset_deg=30.0)]
        if form == 2:
            return [geometry.linear_array([1, 2, 3], num=o["num"], spacing=0.1, direction=[1, 0, 1], dtype=torch.float64), geometry.circular_array((1.0, 2.0), num=o["num"], radius=0.2, dtype=torch.float32),
                    geometry.binaural_array(torch.tensor([1, 2]), dtype=torch.float64)]
        if form == 3:
            return [geometry.linear_array(c, num=o["num"], spacing=0.1, axis=2), *[geometry.circular_array(c, num=o["num"], radius=0.2, plane=p) for p in ("xy", "xz", "yz")],
                    *[geometry.polyhedron_array(c.tolist(), kind=p, dtype=torch.float32) for p in ("cube", "octahedron", "dodecahedron", "icosahedron")]]
        return [geometry.binaural_array(c), geometry.circular_array(c, num=o["num"] + 2, radius=0.1), geometry.polyhedron_array(c, radius=0.1), geometry.eigenmike_em32(c)]
    if k == "acoustics":
        size = tens(o["size"][: 2 if form == 1 else 3])
        if form == 2:
            size = tens(o["size"], torch.float32)
        if form == 3:
            return [util.estimate_beta_from_t60(o["size"], o["t60"], dtype=torch.float64), util.estimate_t60_from_beta(o["size"], [0.9] * 6, dtype=torch.float64), util.attenuation_db_to_time_sabine(12.0, o["t60"])]
        b = util.estimate_beta_from_t60(size, o["t60"])
        return [b, util.estimate_t60_from_beta(size, b), util.estimate_image_counts_from_tmax(0.05 * o["num"], size)]
    if k == "wav":
        p = Path(folder) / "a.wav"
        io.save_wav(p, torch.tensor(g.uniform(-0.9, 0.9, (o["ch"], o["n"])), dtype=torch.float32), 16000, subtype=o["subtype"], normalize=bool(o["seed"] % 2))
        with warnings.catch_warnings() if threading.current_thread() is threading.main_thread() else contextlib.nullcontext():
            warnings.simplefilter("ignore") if threading.current_thread() is threading.main_thread() else None
            x, fs = io.load_wav(p)
        return [x, fs, io.info_wav(p).num_frames]
    if k == "outputs":
        d = Path(folder) / "out" if form % 2 else Path(folder)
        room = make_room(dict(size=[4.0, 3.0], fs=8000.0, c=343.0, beta=[0.5] * 4, t60=None), torch.float64)
        src, mic = Source.from_positions([[1.0, 1.0]], dtype=torch.float64), MicrophoneArray.from_positions([[2.0, 1.0]] * o["ch"], dtype=torch.float64)
        for j in range(3):
            x = torch.tensor(g.uniform(-0.9, 0.9, (o["ch"], o["n"])), dtype=torch.float32)
            io.save_scene_audio(out_dir=d, audio=x, fs=8000 + j, audio_name=f"a{j}.wav")
            io.save_scene_metadata(out_dir=d, metadata_name=f"m{j}.json", room=room, sources=src, mics=mic, rirs=torch.zeros(1, o["ch"], 5 + j), source_info=[{"gain": float(x[0, 0])}])
            io.save_attribution_file(out_dir=d, dataset_attribution=attribution_for("librispeech", subset=f"s{j}"), modifications=[f"note {o['n']}"], attribution_name=f"t{j}.txt")
        return [repr([(f.name, f.read_bytes()) for f in sorted(d.iterdir()) if f.is_file()])]
    if k == "corpus":
        c = o["corpus"]
        getattr(corpora, f"write_{o['which']}")(Path(folder), c, 0)
        ds = CmuArcticDataset(Path(folder), speaker=c["speaker"]) if o["which"] == "cmu" else LibriSpeechDataset(Path(folder), subset=c["subset"])
        items = [ds[j] for j in range(len(ds))]
        return [repr([(i.utterance_id, i.text, i.speaker, i.sample_rate) for i in items]), *[i.audio for i in items]]
    if k == "collate":
        items = [DatasetItem(audio=torch.tensor(g.uniform(-1, 1, int(g.integers(1, 40))), dtype=torch.float32), sample_rate=8000, utterance_id=str(j)) for j in range(1 + form)]
        b = collate_dataset_items(iter(items), pad_value=0.5 * (form % 2), keep_metadata=form > 1)
        return [b.audio, b.lengths, repr((b.utterance_ids, b.texts, b.speakers, b.sample_rate, b.metadata))]
    if k == "assemble":
        spec = o["spec"]
        rng = random.Random(o["seed"])
        x, fs, info = load_dataset_sources(dataset_factory=lambda s: stub(spec)(s or spec["speakers"][0]["name"]), num_sources=len(spec["speakers"]), duration_s=o["samples"] / spec["rate"], rng=rng)
        return [x, fs, repr(info), rng.random()]
    raise AssertionError(k)


def flatten(r):
    return [getattr(x, "positions", x) for x in (r if isinstance(r, (list, tuple)) else [r])]


def agree(a, b, what):
    a, b = flatten(a), flatten(b)
    require(len(a) == len(b), f"{what}: {len(a)} results instead of {len(b)}")
    for x, y in zip(a, b):
        if not torch.is_tensor(y):
            require(x == y, lambda: f"{what}: {str(x)[:200]} instead of {str(y)[:200]}")
            continue
        require(torch.is_tensor(x) and x.shape == y.shape and x.dtype == y.dtype, lambda: f"{what}: {getattr(x, 'shape', x)}, {getattr(x, 'dtype', None)} instead of {tuple(y.shape)}, {y.dtype}")
        if not y.numel():
            continue
        u, v = x.detach().to(torch.float64), y.detach().to(torch.float64)
        tol = (1e-9 if y.dtype == torch.float64 else 2e-5) * max(1e-12, float(v.abs().max()))
        require(bool((u - v).abs().max() <= tol), lambda: f"{what}: differs by {float((u - v).abs().max()):.3g}, largest value {float(v.abs().max()):.3g}")


# ---------------------------------------------------------------- threads


@st.composite
def thread_cases(draw):
    ops = draw(st.one_of(st.lists(op(), min_size=2, max_size=4), st.lists(op(["static", "dynamic", "simulator"]), min_size=2, max_size=4)))
    if draw(st.booleans()):  # the same call everywhere, on cold caches
        ops = [ops[0]] * len(ops)
    return dict(ops=ops, threads=draw(st.integers(2, 4)), switch=draw(st.sampled_from([1e-6, 1e-5, 1e-4])))


def run_threads(case, ctx):
    ops, k = case["ops"], case["threads"]
    root = Path(ctx.scratch())
    got, errors = {}, []
    gate = threading.Barrier(k)

    def work(t):
        try:
            gate.wait()
            for i in range(len(ops)):
                j = (i + t) % len(ops)
                d = root / f"{t}-{j}"
                d.mkdir()
                got[t, j] = perform(ops[j], d)
        except BaseException as e:  # noqa: BLE001
            errors.append((t, e))

    old = sys.getswitchinterval()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            sys.setswitchinterval(case["switch"])
            ts = [threading.Thread(target=work, args=(t,)) for t in range(k)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            sys.setswitchinterval(old)
        if errors:
            t, e = errors[0]
            for j, o in enumerate(ops):  # does it fail alone, too?
                d = root / f"alone-{j}"
                d.mkdir()
                sut(perform, o, d)
            raise Violation(f"thread {t} of {k} running {[o['kind'] for o in ops]} failed with {e!r:.300}, alone the calls succeed")
        for j, o in enumerate(ops):
            d = root / f"serial-{j}"
            d.mkdir()
            ref = sut(perform, o, d)
            for t in range(k):
                agree(got[t, j], ref, f"{o['kind']} in thread {t} of {k} against the same call alone")
    kinds = sorted({o["kind"] for o in ops})
    ctx.label(*kinds)
    ctx.trivial(kinds == ["acoustics"])


# ---------------------------------------------------------------- ambient process state

AMBIENT = ["no_grad", "inference", "requires grad", "default float64", "deterministic", "threads", "warnings error", "cwd", "rng", "numpy errors", "recursion", "print options", "optimised logging", "read-only umask", "autocast", "detect anomaly"]


@contextlib.contextmanager
def ambient(kind, folder):
    keep = []
    if kind == "no_grad":
        keep.append(torch.no_grad())
    elif kind == "inference":
        keep.append(torch.inference_mode())
    elif kind == "warnings error":
        keep.append(warnings.catch_warnings())
    elif kind == "autocast":
        keep.append(torch.autocast("cpu", dtype=torch.bfloat16))
    elif kind == "detect anomaly":
        keep.append(torch.autograd.detect_anomaly(check_nan=True))
    elif kind == "numpy errors":
        keep.append(np.errstate(all="raise"))
    with contextlib.ExitStack() as stack:
        for c in keep:
            stack.enter_context(c)
        if kind == "warnings error":
            warnings.simplefilter("error")
        elif kind == "default float64":
            old = torch.get_default_dtype()
            stack.callback(torch.set_default_dtype, old)
            torch.set_default_dtype(torch.float64)
        elif kind == "deterministic":
            stack.callback(torch.use_deterministic_algorithms, torch.are_deterministic_algorithms_enabled())
            torch.use_deterministic_algorithms(True)
        elif kind == "threads":
            stack.callback(torch.set_num_threads, torch.get_num_threads())
            torch.set_num_threads(3)
        elif kind == "cwd":
            stack.callback(os.chdir, os.getcwd())
            os.chdir(folder)
        elif kind == "rng":
            random.seed(99)
            np.random.seed(98)
            torch.manual_seed(97)
        elif kind == "print options":
            stack.callback(torch.set_printoptions, profile="default")
            torch.set_printoptions(precision=1, threshold=2, edgeitems=1, sci_mode=True)
            stack.enter_context(np.printoptions(precision=1, threshold=2))
        elif kind == "optimised logging":
            stack.callback(logging.disable, logging.root.manager.disable)
            logging.disable(logging.CRITICAL)
        elif kind == "read-only umask":
            stack.callback(os.umask, os.umask(0o077))
        elif kind == "recursion":
            old = sys.getrecursionlimit()
            stack.callback(sys.setrecursionlimit, old)
            depth, f = 0, sys._getframe()
            while f:
                depth, f = depth + 1, f.f_back
            sys.setrecursionlimit(depth + 180)
        yield


def snapshot():
    """Settings that belong to the process and its user."""
    ns = np.random.get_state()
    root = logging.getLogger()
    out = {
        "default dtype": torch.get_default_dtype(), "grad mode": torch.is_grad_enabled(), "inference mode": torch.is_inference_mode_enabled(), "deterministic": torch.are_deterministic_algorithms_enabled(),
        "torch threads": torch.get_num_threads(), "default device": str(torch.get_default_device()), "numpy errors": np.geterr(), "numpy printing": repr(sorted(np.get_printoptions().items())),
        "warning filters": list(warnings.filters), "working directory": os.getcwd(), "environment": dict(os.environ), "root logger": (root.level, list(root.handlers)), "torchrir logger": logger_state(),
        "torch random state": torch.get_rng_state().numpy().tobytes(), "random state": random.getstate(), "numpy random state": (ns[1].tobytes(), *ns[2:]), "recursion limit": sys.getrecursionlimit(),
        "import path": list(sys.path), "switch interval": sys.getswitchinterval(), "excepthook": sys.excepthook, "stdout": sys.stdout, "stderr": sys.stderr, "logging off": logging.root.manager.disable,
        "flush denormal": float(torch.tensor([1e-310], dtype=torch.float64) * 1.0) != 0.0, "threads": threading.active_count(),
    }
    old = os.umask(0o077)
    os.umask(old)
    out["umask"] = old
    return out


def logger_state():
    lg = logging.getLogger("torchrir")
    return lg.level, list(lg.handlers), lg.propagate


@st.composite
def settings_cases(draw):
    return dict(op=draw(op(QUICK)), order=draw(st.integers(0, 10**6)))


def run_settings(case, ctx):
    """One call under every one of the settings in turn."""
    kinds = list(AMBIENT)
    random.Random(case["order"]).shuffle(kinds)
    for kind in kinds:
        run_ambient(dict(op=case["op"], kind=kind, first=False, prior=None), ctx)


@st.composite
def ambient_cases(draw):
    return dict(op=draw(op()), kind=draw(st.sampled_from(AMBIENT + ["requires grad"] * 6)), first=draw(st.booleans()),
                prior=draw(st.sampled_from([None] * 6 + AMBIENT[:7] + ["inference"] * 5)))


def settle():
    """Imports made on first use are not what is looked at."""
    import matplotlib.pyplot  # noqa: F401
    import scipy.signal  # noqa: F401
    import soundfile  # noqa: F401
    import torchrir.datasets, torchrir.sim, torchrir.signal, torchrir.util, torchrir.geometry, torchrir.viz  # noqa: E401, F401


def run_ambient(case, ctx):
    o, kind = case["op"], case["kind"]
    settle()
    forget()
    root = Path(ctx.scratch())
    dirs = [root / n for n in ("plain", "other", "cwd")]
    for d in dirs:
        d.mkdir()
    alone = lambda: quietly(o, dirs[0])  # noqa: E731
    if case["prior"]:
        # settings used earlier in the process, perhaps for the first call with these sizes
        with ambient(case["prior"], dirs[2]):
            with_grad(o, dirs[1]) if case["prior"] == "requires grad" else quietly(o, dirs[1])
    ref = None if case["first"] else alone()
    with ambient(kind, dirs[2]):
        before = snapshot()
        if kind == "warnings error" and o["kind"] == "wav":
            return  # loading several channels warns by design
        if kind == "requires grad":
            got = with_grad(o, dirs[1])
        else:
            with contextlib.nullcontext() if kind == "warnings error" else warnings.catch_warnings():
                if kind != "warnings error":
                    warnings.simplefilter("ignore")
                    before["warning filters"] = list(warnings.filters)
                got = sut(perform, o, dirs[1])
                after = snapshot()
    if kind != "requires grad":
        for key, v in before.items():
            require(after[key] == v, lambda: f"{o['kind']} ({kind}): changed the process's {key}: {str(v)[:150]} -> {str(after[key])[:150]}")
    if ref is None:
        ref = alone()
    agree(got, ref, f"{o['kind']} under '{kind}'")
    agree(quietly(o, dirs[0]), ref, f"{o['kind']} after a call under '{kind}'")
    ctx.label(kind, o["kind"], f"{case['prior']} before" if case["prior"] else "first of its kind")


def forget():
    """Drop memoised tensors, so that a case does not depend on the cases before it."""
    for name, mod in list(sys.modules.items()):
        if name.split(".")[0] == "torchrir":
            for v in list(vars(mod).values()):
                if isinstance(v, dict) and v and all(torch.is_tensor(x) for x in v.values()):
                    v.clear()


def quietly(o, d):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return sut(perform, o, d)


@contextlib.contextmanager
def leaf_tensors():
    """Floating tensors made by this check's helpers require gradients."""
    me = globals()
    real = me["tens"]

    def made(v, dtype=torch.float64):
        return real(v, dtype).requires_grad_()

    me["tens"] = made
    try:
        yield
    finally:
        me["tens"] = real


def with_grad(o, d):
    """Inputs that are being differentiated; values must not depend on it."""
    with leaf_tensors():
        return [x.detach() if torch.is_tensor(x) else x for x in flatten(quietly(o, d))]


# ---------------------------------------------------------------- copies


@st.composite
def copy_cases(draw):
    return dict(scene=draw(scene()), how=draw(st.sampled_from(["pickle", "pickle0", "deepcopy", "copy"])), what=draw(st.sampled_from(["static", "dynamic", "config", "dataset", "result", "items", "convolver", "attribution"])),
                spec=draw(st.sampled_from(["cmu", "libri"])))


def twin(x, how):
    if how == "deepcopy":
        return copy.deepcopy(x)
    if how == "copy":
        return copy.copy(x)
    return pickle.loads(pickle.dumps(x, protocol=0 if how == "pickle0" else pickle.HIGHEST_PROTOCOL))


def run_copies(case, ctx):
    from torchrir import DynamicScene, MicrophoneArray, Source, StaticScene
    from torchrir.datasets import CollateBatch, DatasetItem, attribution_for, collate_dataset_items
    from torchrir.logging import LoggingConfig
    from torchrir.signal import DynamicConvolver
    from torchrir.sim import ISMSimulator
    from torchrir.util import DeviceSpec

    s, how, what = case["scene"], case["how"], case["what"]
    dtype, dim = dt(s["dtype"]), len(s["size"])
    room = make_room(dict(size=s["size"], fs=s["fs"], c=343.0, beta=[s["beta"]] * (2 * dim), t60=None), dtype)
    src, mic = Source.from_positions(tens(s["srcs"], dtype)), MicrophoneArray.from_positions(tens(s["mics"], dtype))
    cfg = config(frac_delay_length=s["fdl"], use_lut=s["lut"], sinc_lut_granularity=s["gran"], rir_hpf_enable=s["hpf"], seed=s["seed"], rir_hpf_kwargs={"n": 2, "rp": 5.0, "rs": 60.0, "type": "cheby1"} if s["tail"] else {"n": 2, "rp": 5.0, "rs": 60.0, "type": "butter"})
    ctx.label(what, how)
    if what in ("static", "dynamic", "result"):
        if what == "dynamic":
            move = lambda p: tens(p, dtype)[None] * torch.linspace(0.8, 1.0, s["steps"], dtype=dtype)[:, None, None]  # noqa: E731
            sc = DynamicScene(room=room, sources=src, mics=mic, src_traj=move(s["srcs"]), mic_traj=move(s["mics"]))
        else:
            sc = StaticScene(room=room, sources=src, mics=mic)
        sim = ISMSimulator(max_order=min(s["order"], 2), nsample=s["nsample"])
        want = sut(sim.simulate, sc, cfg)
        if what == "result":
            got = sut(twin, want, how)
            require(type(got) is type(want) and got.seed == want.seed and got.config == want.config, "a copied result differs")
            agree([got.rirs], [want.rirs], "responses of a copied result")
            got = sut(sim.simulate, got.scene, got.config)
        else:
            again, c2, sim2 = sut(twin, sc, how), sut(twin, cfg, how), sut(twin, sim, how)
            require(type(again) is type(sc) and c2 == cfg and sim2 == sim, f"copies differ: {type(again)}, {c2}, {sim2}")
            sut(again.validate)
            got = sut(sim2.simulate, again, c2)
        agree([got.rirs], [want.rirs], f"responses of a {how} of the {what}")
        return
    if what == "config":
        for x in (cfg, LoggingConfig(level="DEBUG"), DeviceSpec(device="cpu", dtype=torch.float64)):
            y = sut(twin, x, how)
            require(type(y) is type(x) and y == x, f"{how} of {x!r} is {y!r}")
        return
    if what == "attribution":
        for n in ("cmu_arctic", "librispeech"):
            a = sut(attribution_for, n)
            require(sut(twin, a, how) == a and sut(twin, a, how).to_dict() == a.to_dict(), f"{how} of the {n} attribution differs")
        return
    if what == "convolver":
        g = np.random.default_rng(s["seed"])
        c = DynamicConvolver(mode="hop", hop=17) if s["lut"] else DynamicConvolver(mode="trajectory")
        x, h = torch.tensor(g.uniform(-1, 1, (1, 60))), torch.tensor(g.uniform(-1, 1, (3, 1, 1, 9)))
        agree([sut(sut(twin, c, how).convolve, x, h)], [sut(c.convolve, x, h)], f"{how} of a convolver")
        return
    if what == "items":
        items = [DatasetItem(audio=torch.arange(float(k + 1)), sample_rate=8000, utterance_id=f"u{k}", text="a", speaker="s") for k in range(3)]
        a, b = sut(collate_dataset_items, items), sut(collate_dataset_items, [sut(twin, i, how) for i in items])
        c = sut(twin, a, how)
        for y in (b, c):
            require(isinstance(y, CollateBatch) and torch.equal(y.audio, a.audio) and torch.equal(y.lengths, a.lengths) and list(y.utterance_ids) == list(a.utterance_ids), f"{how}: batches differ")
        return
    root = Path(ctx.scratch())
    ds = open_dataset(case["spec"], root)
    other = sut(twin, ds, how)
    require(type(other) is type(ds) and len(other) == len(ds), f"{how} of the dataset has {len(other)} items instead of {len(ds)}")
    for i in range(len(ds)):
        a, b = sut(ds.__getitem__, i), sut(other.__getitem__, i)
        require(a.utterance_id == b.utterance_id and a.sample_rate == b.sample_rate and a.text == b.text and a.speaker == b.speaker and torch.equal(a.audio, b.audio), f"item {i} of the copied dataset differs")


def open_dataset(kind, root):
    """A small dataset on disk."""
    import soundfile as sf
    from torchrir.datasets import CmuArcticDataset, LibriSpeechDataset

    g = np.random.default_rng(5)
    if kind == "cmu":
        base = root / "ARCTIC" / "cmu_us_bdl_arctic"
        (base / "wav").mkdir(parents=True)
        (base / "etc").mkdir()
        lines = []
        for k in range(4):
            sf.write(str(base / "wav" / f"arctic_a000{k}.wav"), g.uniform(-0.5, 0.5, 50 + k), 16000)
            lines.append(f'( arctic_a000{k} "Sentence {k}." )')
        (base / "etc" / "txt.done.data").write_text("\n".join(lines) + "\n")
        return sut(CmuArcticDataset, root, speaker="bdl", download=False)
    base = root / "LibriSpeech" / "dev-clean" / "84" / "121"
    base.mkdir(parents=True)
    for k in range(3):
        sf.write(str(base / f"84-121-000{k}.flac"), g.uniform(-0.5, 0.5, 50 + k), 16000)
    (base / "84-121.trans.txt").write_text("".join(f"84-121-000{k} WORD {k}\n" for k in range(3)))
    return sut(LibriSpeechDataset, root, subset="dev-clean", download=False)


# ---------------------------------------------------------------- imports

MODULES = ["torchrir", "torchrir.sim", "torchrir.signal", "torchrir.geometry", "torchrir.io", "torchrir.models", "torchrir.datasets", "torchrir.util", "torchrir.viz", "torchrir.config", "torchrir.logging", "torchrir.experimental",
           "torchrir.io.audio", "torchrir.io.metadata", "torchrir.geometry.arrays", "torchrir.geometry.sampling", "torchrir.geometry.trajectories", "torchrir.sim.ism", "torchrir.datasets.librispeech", "torchrir.datasets.cmu_arctic",
           "torchrir.datasets.dynamic_cmu_arctic", "torchrir.datasets.attribution", "torchrir.viz.scene", "torchrir.viz.animation", "torchrir.viz.io", "torchrir.util.acoustics", "torchrir.util.device", "torchrir.sim.simulators",
           "torchrir.signal.dynamic", "torchrir.signal.static", "torchrir.models.room", "torchrir.models.scene", "torchrir.sim.directivity"]


@st.composite
def import_cases(draw):
    return dict(order=draw(st.lists(st.sampled_from(MODULES), min_size=1, max_size=8, unique=True)), plots=draw(st.booleans()))


class Refused:
    """No plotting packages are installed."""

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in ("matplotlib", "scienceplots", "PIL"):
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        return None


def run_imports(case, ctx):
    settle()
    hidden = ("torchrir",) + (() if case["plots"] else ("matplotlib", "scienceplots", "PIL"))
    saved = {k: v for k, v in sys.modules.items() if k.split(".")[0] in hidden}
    finder = Refused()
    try:
        for k in saved:
            del sys.modules[k]
        if not case["plots"]:
            sys.meta_path.insert(0, finder)
        before = snapshot()
        shown = {}
        for n in case["order"]:
            try:
                m = importlib.import_module(n)
            except ModuleNotFoundError as e:
                if e.name == n and MODULES.index(n) > 11:  # an implementation module that is no longer there
                    continue
                raise Violation(f"importing {n} fails: {e!r:.300}") from e
            except Exception as e:  # noqa: BLE001
                raise Violation(f"importing {n} after {case['order'][:case['order'].index(n)]}{'' if case['plots'] else ' without plotting packages'} fails: {e!r:.300}") from e
            for name in getattr(m, "__all__", []):
                require(hasattr(m, name), f"{n} advertises {name}, which it does not have")
                shown[n, name] = getattr(m, name)
        after = snapshot()
        for key, v in before.items():
            require(after[key] == v, lambda: f"importing {case['order']} changed the process's {key}: {str(v)[:150]} -> {str(after[key])[:150]}")
        for (n, name), v in shown.items():
            require(getattr(sys.modules[n], name) is v, f"{n}.{name} was replaced by later imports")
    finally:
        if finder in sys.meta_path:
            sys.meta_path.remove(finder)
        for k in [k for k in sys.modules if k.split(".")[0] in hidden]:
            del sys.modules[k]
        sys.modules.update(saved)
    ctx.label(case["order"][0], "with plots" if case["plots"] else "without plotting packages")
    ctx.trivial(len(case["order"]) < 2)


# ---------------------------------------------------------------- locale

PROBE = """
import hashlib, json, sys
from pathlib import Path
sys.path.insert(0, sys.argv[1])
case = json.load(sys.stdin)
import torch
from torchrir import MicrophoneArray, Room, Source
from torchrir.datasets import CmuArcticDataset, LibriSpeechDataset
from torchrir.io import save_attribution_file, save_scene_metadata
root, out = Path(sys.argv[2]), Path(sys.argv[3])
c = case["corpus"]
if case["kind"] == "cmu":
    ds = CmuArcticDataset(root, speaker=c["speaker"], download=False)
else:
    ds = LibriSpeechDataset(root, subset=c["subset"], download=False)
items = [ds[i] for i in range(len(ds))]
rows = [[x.utterance_id, x.text, x.speaker, x.sample_rate, hashlib.sha256(x.audio.numpy().tobytes()).hexdigest()] for x in items]
save_attribution_file(out_dir=out, dataset_attribution=dict(dataset=case["words"][0], source="https://x.org/", license_name=case["words"][1], license_url="https://y.org/", required_attribution=case["words"][2]), modifications=case["words"])
room = Room.shoebox(size=[4.0, 3.0, 2.5], fs=16000, beta=[0.5] * 6)
save_scene_metadata(out_dir=out, metadata_name="m.json", room=room, sources=Source.from_positions([[1.0, 1.0, 1.0]]), mics=MicrophoneArray.from_positions([[2.0, 1.0, 1.0]]), rirs=torch.zeros(1, 1, 9),
                    source_info=dict(texts=case["words"], speakers=case["words"][:1]))
print(json.dumps([rows, {p.name: p.read_bytes().hex() for p in sorted(out.iterdir())}]))
"""


@st.composite
def locale_cases(draw):
    kind = draw(st.sampled_from(["cmu", "libri"]))
    word = st.text(st.sampled_from("abc éüñ日本語—“”😀ßİ"), min_size=1, max_size=12)
    return dict(kind=kind, corpus=draw(corpora.cmu(min_utts=1) if kind == "cmu" else corpora.libri(min_spk=1)), words=draw(st.lists(word, min_size=3, max_size=5)), accent=draw(st.booleans()))


def run_locale(case, ctx):
    """Files mean the same whatever the encoding of the user's locale."""
    import torchrir

    root = Path(ctx.scratch())
    c = copy.deepcopy(case["corpus"])
    utts = c["utts"] if case["kind"] == "cmu" else [u for ch in c["chapters"] for u in ch["utts"]]
    if case["accent"]:
        for u in utts:
            u["text"] = (u["text"] + " café — naïve").strip()
    (corpora.write_cmu if case["kind"] == "cmu" else corpora.write_libri)(root, c)
    src = str(Path(torchrir.__file__).resolve().parent.parent)
    seen = []
    for k, extra in enumerate([dict(PYTHONUTF8="1"), dict(PYTHONUTF8="0", LC_ALL="C", LANG="C", PYTHONCOERCECLOCALE="0")]):
        out = root / f"out{k}"
        out.mkdir()
        env = {**os.environ, **extra, "PYTHONDONTWRITEBYTECODE": "1"}
        done = subprocess.run([sys.executable, "-W", "ignore", "-c", PROBE, src, str(root), str(out)], input=json.dumps(dict(case, corpus=c)), text=True, encoding="utf-8", errors="replace", capture_output=True, env=env, timeout=200)
        require(done.returncode == 0, lambda: f"{case['kind']}, {'UTF-8' if k == 0 else 'plain ASCII'} locale: fails: {done.stderr[-500:]}")
        seen.append(json.loads(done.stdout))
    require(seen[0][0] == seen[1][0], lambda: f"a {case['kind']} corpus reads differently under an ASCII locale: {[(a, b) for a, b in zip(*[s[0] for s in seen]) if a != b][:2]}")
    for name in seen[0][1]:
        require(seen[0][1][name] == seen[1][1].get(name), f"{name} is written differently under an ASCII locale")
    have = {u["id"]: u["text"] for u in utts if u["audio"]}
    got = {r[0]: r[1] for r in seen[0][0]}
    require(set(got) == set(have), f"utterances {sorted(set(got) ^ set(have))[:4]} gained or lost")
    text = bytes.fromhex(seen[0][1]["ATTRIBUTION.txt"]).decode("utf-8")
    require(all(w.strip() in text for w in case["words"]), "the attribution file lacks given words")
    ctx.label(case["kind"])
    ctx.trivial(not have)


CHECK = Check(
    id="C30",
    technique="property-based testing: generated thread schedules, process settings, copies and import orders against the same call alone",
    laws=[
        Law("threads", thread_cases, run_threads, quick=400, thorough=12000, rule="sets of calls run by 2-4 threads at once, with frequent switches and settings that no earlier call has used"),
        Law("ambient", ambient_cases, run_ambient, quick=1200, thorough=30000, rule="calls of every kind under process settings of the caller; results and settings compared"),
        Law("settings", settings_cases, run_settings, quick=320, thorough=6000, rule="one call under every one of those settings in turn"),
        Law("copies", copy_cases, run_copies, quick=600, thorough=12000, rule="pickled and copied scenes, results, settings and datasets"),
        Law("imports", import_cases, run_imports, quick=160, thorough=3000, rule="import orders of the library's modules, with and without plotting packages"),
        Law("locale", locale_cases, run_locale, quick=24, thorough=300, shards=6, rule="corpora, attribution and metadata with non-ASCII text in fresh interpreters under UTF-8 and ASCII locales"),
    ],
    rule="several kinds of calls, more than one import",
    assumptions=["threads use random generators, files and figures of their own; plotting (matplotlib is not thread-safe) is left out"],
    note="Schedules are those the interpreter takes with switch intervals down to a microsecond; accelerators are absent.",
)
