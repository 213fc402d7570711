"""C24: built dynamic datasets contain mutually consistent audio and metadata."""

import json
import logging
import os
from pathlib import Path
import random
import subprocess
import sys

from hypothesis import strategies as st
import numpy as np
import torch

from .. import builderlib as bl
from ..audiolib import read_wav
from ..convlib import segmented
from ..core import ROOTS, Check, Law, require, sut
from ..corpora import no_network, shuffled_directories

LSB = 1 / 32768


@st.composite
def cases(draw, tiny=True):
    req = draw(bl.feasible(max_scenes=2, max_steps=5))
    c = draw(bl.corpus(draw(st.integers(req["n_sources"], min(8, req["n_sources"] + 2)))))
    if tiny and draw(st.integers(0, 11)) == 0:
        target, rl = draw(st.integers(1, 12)), draw(st.integers(10, 14))
    else:
        target, rl = draw(st.integers(20, 1500)), draw(st.integers(30, 500))
    req.update(duration_sec=(target + 0.5) / c["rate"], rir_samples=rl, max_order=draw(st.integers(0, 2)), rt60=draw(st.sampled_from([0.3, 0.5, 1.0, 2.0])),
               sound_speed=draw(st.sampled_from([343.0, 343.0, 330.0, 1480.0])))
    if draw(st.integers(0, 11)) == 5:  # many scenes, steps or samples
        big = draw(st.sampled_from(["scenes", "steps", "samples"]))
        if big == "scenes":
            req.update(n_scenes=draw(st.sampled_from([11, 12])))
        elif big == "steps" and req["trajectory_steps"] > 1:
            target = max(target, 200)
            req.update(trajectory_steps=draw(st.sampled_from([65, 130])), duration_sec=(target + 0.5) / c["rate"])
        elif big == "samples":
            target = draw(st.sampled_from([20000, 33000]))
            req.update(duration_sec=(target + 0.5) / c["rate"])
    # fast enough to matter over a short scene
    if draw(st.booleans()):
        f = draw(st.sampled_from([3.0, 10.0, 100.0]))
        req.update(moving_speed_min=req["moving_speed_min"] * f, moving_speed_max=req["moving_speed_max"] * f)
    return dict(req=req, corpus=c, target=target, pick=draw(st.integers(0, 10**6)), images=False, roots=[draw(st.sampled_from(ROOTS)), draw(st.sampled_from(ROOTS))])


def request(case, corpus_root, out, **extra):
    kw = dict(case["req"])
    kw.update(cmu_root=corpus_root, dataset_root=out, speakers=[s["name"] for s in case["corpus"]["speakers"]], save_layout_mp4=False,
              save_layout_images=case["images"], logger=bl.quiet_logger())
    kw.update(extra)
    return kw


def audio(path, rate):
    got, data, subtype = read_wav(path)
    require(got == rate, f"{path.name}: rate {got}, the corpus has {rate}")
    return data, subtype


def check_scene(d, case, ctx):
    from torchrir import Room
    from torchrir.sim import simulate_dynamic_rir

    req, c = case["req"], case["corpus"]
    n, steps, fs = req["n_sources"], req["trajectory_steps"], c["rate"]
    names = {p.name for p in d.iterdir()}
    expected = {"mixture.wav", "metadata.json", "source_info.json"} | {f"source_{i:02d}.wav" for i in range(n)}
    if case["images"]:
        expected |= {"room_layout_2d.png", "room_layout_3d.png"}
    require(names == expected, f"{d.name} holds {sorted(names ^ expected)} other than expected")
    meta, info = bl.load_scene(d)
    require(meta["source_info"] == info, "source_info.json differs from the metadata's source information")
    require([i["source_index"] for i in info] == list(range(n)), f"source indices {[i['source_index'] for i in info]}")
    src, mic, moving, center = bl.check_motion(meta, info, dict(req))
    require(meta["extra"]["moving_source_indices"] == moving, f"moving sources {meta['extra']['moving_source_indices']}, source information says {moving}")
    require(meta["extra"]["n_sources"] == n and meta["extra"]["n_moving_sources"] == req["n_moving_sources"] and meta["extra"]["scene_id"] == d.name, "counts or scene id in the metadata")
    require(np.allclose(meta["sources"]["positions"], src[0], rtol=0, atol=1e-9), "source positions are not the starting points of the trajectories")
    require(np.allclose(meta["mics"]["positions"], mic[0], rtol=0, atol=1e-9), "microphone positions are not those of the trajectories")
    require(np.allclose(meta["extra"]["mic_center_xyz_m"], center, rtol=0, atol=1e-6), "recorded array centre")
    ends = (req["move_start_ratio"] * req["duration_sec"], req["move_end_ratio"] * req["duration_sec"])
    for k, i in enumerate(info):
        require(i["motion_type"] == ("arc" if k in moving else "static"), f"source {k}: motion type {i['motion_type']}")
        require(k in moving or (i["velocity_mps"] == 0 and i["angular_velocity_rad_s"] == 0), f"static source {k} has a velocity")
        require(i["turn_direction"] == (np.sign(i["angular_velocity_rad_s"])), f"source {k}: turn direction {i['turn_direction']} at {i['angular_velocity_rad_s']} rad/s")
        require(abs(i["move_start_sec"] - ends[0]) < 1e-9 and abs(i["move_end_sec"] - ends[1]) < 1e-9, f"source {k}: moves from {i['move_start_sec']} to {i['move_end_sec']} s")
        ex = meta["extra"]
        require(abs(ex["source_velocity_mps"][k] - i["velocity_mps"]) < 1e-9 and abs(ex["angular_velocity_rad_s"][k] - i["angular_velocity_rad_s"]) < 1e-9
                and ex["turn_direction"][k] == i["turn_direction"], f"source {k}: motion in metadata and source information")
        first, last = (np.arctan2(src[j, k, 1] - center[1], src[j, k, 0] - center[0]) for j in (0, -1))
        require(abs(bl.wrap(np.deg2rad(ex["start_azimuth_deg"][k]) - first)) < 1e-5, f"source {k}: recorded start azimuth")
        if steps > 1:
            require(abs(bl.wrap(np.deg2rad(ex["end_azimuth_deg"][k]) - last)) < 1e-5, f"source {k}: recorded end azimuth")
    mt = meta["extra"]["motion_time_sec"]
    require(abs(mt["total"] - req["duration_sec"]) < 1e-9 and abs(mt["move_start"] - ends[0]) < 1e-9 and abs(mt["move_end"] - ends[1]) < 1e-9, f"motion times {mt}")
    # utterances
    speakers = [i["speaker"] for i in info]
    by = {s["name"]: {u["id"]: u for u in s["utts"]} for s in c["speakers"]}
    require(set(speakers) <= set(by) and len(set(speakers)) == n, f"speakers {speakers} of {sorted(by)}")
    target = int(req["duration_sec"] * fs)
    dry = []
    for i in info:
        ids = i["utterance_ids"]
        require(ids and all(u in by[i["speaker"]] for u in ids), f"speaker {i['speaker']}: utterances {ids}")
        parts = [bl.samples(by[i["speaker"]][u]) for u in ids]
        whole = np.concatenate(parts)
        require(len(whole) >= target > len(whole) - len(parts[-1]), f"speaker {i['speaker']}: {len(ids)} utterances of {len(whole)} samples for {target}")
        dry.append(whole[:target] / 32768.0)
    # audio
    room = Room.shoebox(size=req["room_size"], fs=float(fs), c=req["sound_speed"], t60=req["rt60"], dtype=torch.float64)
    require(np.allclose(meta["room"]["size"], req["room_size"]) and meta["room"]["fs"] == fs and meta["room"]["c"] == req["sound_speed"]
            and abs(meta["room"]["t60"] - req["rt60"]) < 1e-6, lambda: f"room recorded as {meta['room']}")
    h = sut(simulate_dynamic_rir, room=room, src_traj=torch.tensor(src), mic_traj=torch.tensor(mic), max_order=req["max_order"], nsample=req["rir_samples"]).numpy()
    require(meta["rirs_shape"] == list(h.shape) == [steps, n, bl.N_MICS, req["rir_samples"]], f"responses recorded as {meta['rirs_shape']}")
    bounds = [int(t * target / steps) for t in range(steps)] + [target]
    length = target + req["rir_samples"] - 1
    wants = [segmented(np.stack([dry[s]]), h[:, s : s + 1], bounds, length) for s in range(n)]
    files = [audio(d / f"source_{s:02d}.wav", fs) for s in range(n)]
    mixture = audio(d / "mixture.wav", fs)
    for r, what in zip(files + [mixture], [f"source {s}" for s in range(n)] + ["mixture"]):
        require(r[1] == "PCM_16" and r[0].shape == (bl.N_MICS, length), lambda: f"{what}: {r[1]}, {r[0].shape} (channels, samples), expected 6 and {length}")
    got = np.stack([r[0] for r in files])
    want = np.stack(wants)
    mix = mixture[0]
    total = got.sum(0)
    err = np.abs(mix - total).max()
    require(err <= LSB * (0.6 * n + 1.6), lambda: f"the mixture differs from the sum of the sources by {err * 32768:.1f} steps (peaks {np.abs(mix).max():.4f}, {np.abs(total).max():.4f})")
    peak = max(np.abs(want).max(), np.abs(want.sum(0)).max())
    power = float((want * want).sum())
    gain = float((got * want).sum()) / power if power > 0 else 1.0
    ctx.label("needs level reduction" if peak > 0.99 else "fits as it is", f"{n} sources", "moving" if moving else "all static")
    if peak <= 0.98:
        gain = 1.0  # nothing to reduce
    require(gain <= 1.0 + 1e-3, f"sources amplified by {gain:.4f}")
    e = np.abs(got - gain * want)
    tol = LSB * 1.6 + 2e-4 * np.abs(want).max() * (0 if gain == 1.0 else 1)
    require(e.max() <= tol, lambda: f"source {int(e.max((1, 2)).argmax())} differs by {e.max() * 32768:.1f} steps from its utterances convolved with the responses of its trajectory (gain {gain:.4f}, peak {peak:.3f})")
    return peak


def run(case, ctx):
    corpus, out = Path(ctx.scratch(case["roots"][0])), Path(ctx.scratch(case["roots"][1])) / "new" / "ds"
    bl.write(corpus, case["corpus"])
    with no_network() as net:
        result = sut(bl.build, **request(case, corpus, out))
    require(not net.attempts, f"network access: {net.attempts}")
    require(tuple(result) == (case["corpus"]["rate"], bl.N_MICS), f"returned {result}")
    require({p.name for p in out.iterdir()} == {f"scene_{i:04d}" for i in range(case["req"]["n_scenes"])}, lambda: f"scenes {sorted(p.name for p in out.iterdir())}, {case['req']['n_scenes']} requested")
    ctx.trivial(case["target"] < 20)
    for p in sorted(out.iterdir()):
        check_scene(p, case, ctx)


@st.composite
def repeat_cases(draw):
    case = draw(cases())
    case["images"] = draw(st.integers(0, 5)) == 0
    case["state"] = draw(st.integers(0, 1000))
    case["other"] = draw(st.integers(0, 10**6))
    return case


def run_repeat(case, ctx):
    """Equal arguments and seed give identical files, whatever happened in the process before."""
    corpus = Path(ctx.scratch())
    bl.write(corpus, case["corpus"])
    outs = [Path(ctx.scratch()) / "ds" for _ in range(2)]
    sut(bl.build, **request(case, corpus, outs[0]))
    # disturb every other source of randomness and order
    random.seed(case["state"])
    np.random.seed(case["state"])
    torch.manual_seed(case["state"])
    sut(bl.build, **request(case, corpus, Path(ctx.scratch()) / "ds", seed=case["other"]))
    with shuffled_directories(case["state"]):
        sut(bl.build, **request(case, corpus, outs[1]))
    a, b = (bl.snapshot(o) for o in outs)
    diff = bl.differences(a, b)
    require(not diff, f"same arguments, different files: {diff[:6]}")
    ctx.label("with images" if case["images"] else "audio only")


SCRIPT = """
import json, logging, sys
from pathlib import Path
sys.path.insert(0, sys.argv[1])
kw = json.load(sys.stdin)
for k in ("cmu_root", "dataset_root"):
    kw[k] = Path(kw[k])
log = logging.getLogger("x")
log.propagate = False
log.addHandler(logging.NullHandler())
from torchrir.datasets import build_dynamic_cmu_arctic_dataset
build_dynamic_cmu_arctic_dataset(logger=log, **kw)
"""


def run_process(case, ctx):
    """The same request in two fresh interpreters with different hash seeds and thread counts."""
    import torchrir

    corpus = Path(ctx.scratch())
    bl.write(corpus, case["corpus"])
    src = str(Path(torchrir.__file__).resolve().parent.parent)
    shots = []
    for k in (1, 2):
        out = Path(ctx.scratch()) / "ds"
        kw = request(case, str(corpus), str(out))
        kw.pop("logger")
        env = dict(os.environ, PYTHONHASHSEED=str(case["state"] * k + k), PYTHONDONTWRITEBYTECODE="1")
        done = subprocess.run([sys.executable, "-c", SCRIPT, src], input=json.dumps(kw), text=True, capture_output=True, env=env, timeout=200)
        require(done.returncode == 0, lambda: f"the build failed: {done.stderr[-600:]}")
        shots.append(bl.snapshot(out))
    diff = bl.differences(*shots)
    require(not diff, f"same arguments in another process, different files: {diff[:6]}")


@st.composite
def cli_cases(draw):
    case = draw(cases(tiny=False))
    case["flags"] = draw(st.lists(st.sampled_from(["equals", "tilde", "annotate", "audio"]), max_size=3, unique=True))
    case["log"] = draw(st.sampled_from([None, "WARNING", "error"]))
    # settings left to their defaults, on both sides
    omit = draw(st.lists(st.sampled_from(["max_order", "rt60", "sound_speed", "seed", "randomize_mic_center", "geometry", "moving", "sources", "rir_samples"]), max_size=4, unique=True))
    if draw(st.integers(0, 5)) == 5:
        omit.append(draw(st.sampled_from(["n_scenes", "trajectory_steps"])))
    req = case["req"]
    for o in omit:
        if o == "geometry":
            for k in ("room_size", "mic_center", "octa_edge_m", "source_margin"):
                del req[k]
        elif o == "moving":
            if req["trajectory_steps"] > 1:
                req.pop("n_moving_sources", None)
        elif o == "sources":
            if req["trajectory_steps"] > 1 and len(case["corpus"]["speakers"]) >= 3:
                req.pop("n_sources", None), req.pop("n_moving_sources", None)
        elif o == "trajectory_steps":
            if req.get("n_moving_sources", 1) or req.get("n_sources", 3):
                req.pop(o, None)
        else:
            req.pop(o, None)
    if "max_order" not in req and req.get("trajectory_steps", 99) > 8:
        req["trajectory_steps"] = 8  # the default reflection order times a hundred steps takes gigabytes
    return case


def run_cli(case, ctx):
    """The command line builds the same files as the function given the same settings."""
    import torchrir.datasets.dynamic_cmu_arctic as mod

    corpus, home = Path(ctx.scratch()), Path(ctx.scratch())
    bl.write(corpus, case["corpus"])
    req = {k: v for k, v in case["req"].items() if not k.startswith("mov")}
    outs = [home / "cli", Path(ctx.scratch()) / "api"]
    ctx.label(*(f"default {k}" for k in ("max_order", "rt60", "sound_speed", "seed", "room_size", "n_sources", "n_moving_sources", "rir_samples", "n_scenes", "trajectory_steps") if k not in req))
    sut(bl.build, **request(dict(case, req=req), corpus, outs[1]))
    target = "~/cli" if "tilde" in case["flags"] else str(outs[0])
    opts = [("--cmu-root", str(corpus)), ("--dataset-root", target)]
    triplets = {"room_size", "mic_center", "source_margin"}
    for k, v in req.items():
        if k == "randomize_mic_center":
            continue
        opts.append(("--" + k.replace("_", "-"), ",".join(repr(float(x)) for x in v) if k in triplets else repr(v)))
    argv = ["prog"]
    for k, v in opts:
        argv += [f"{k}={v}"] if "equals" in case["flags"] else [k, v]
    argv += ["--speakers"] + [s["name"] for s in case["corpus"]["speakers"]]
    argv += ["--no-save-layout-mp4", "--no-save-layout-images", *([] if "randomize_mic_center" not in req else ["--randomize-mic-center" if req["randomize_mic_center"] else "--no-randomize-mic-center"])]
    argv += ["--no-annotate-source-indices"] if "annotate" in case["flags"] else []
    argv += ["--layout-video-no-audio"] if "audio" in case["flags"] else []
    argv += ["--log-level", case["log"]] if case["log"] else []
    root = logging.getLogger()
    saved, saved_home = (root.handlers[:], root.level, sys.argv), os.environ.get("HOME")
    root.handlers = [logging.NullHandler()]
    os.environ["HOME"] = str(home)
    sys.argv = argv
    try:
        sut(mod.main)
    finally:
        root.handlers, sys.argv = saved[0], saved[2]
        root.setLevel(saved[1])
        if saved_home is None:
            os.environ.pop("HOME")
        else:
            os.environ["HOME"] = saved_home
    require(outs[0].is_dir(), f"nothing at {target}")
    diff = bl.differences(*(bl.snapshot(o) for o in outs))
    require(not diff, f"command line and function build different files: {diff[:6]}")


CHECK = Check(
    "C24",
    [
        Law("scenes", cases, run, quick=140, thorough=3000, rule="every file of every scene against the utterances, an independent segmented convolution and the metadata"),
        Law("repeat", repeat_cases, run_repeat, quick=50, thorough=800, rule="the same request built again after another build, under other global random states and directory orders"),
        Law("cli", cli_cases, run_cli, quick=24, thorough=400, rule="the command line entry point against the function with the same settings"),
        Law("process", repeat_cases, run_process, quick=8, thorough=80, shards=2, rule="the same request in two fresh interpreters with different hash seeds"),
    ],
    rule="at least twenty samples per scene",
    assumptions=["responses of the recorded trajectories are taken from simulate_dynamic_rir (decided by C01-C08)", "responses have at least ten samples (the default high-pass filter needs them)", "one common level reduction per scene is accepted when sources or mixture exceed full scale"],
)
