"""C16: audio written to disk reads back as the same signal."""

import logging
import os
from pathlib import Path
import warnings

from hypothesis import strategies as st
import numpy as np
import torch

from .. import audiolib as al
from .. import gens
from ..core import ROOTS, Check, Law, require, sut

WAV_ENTRIES = ["io.save_wav", "io.save_audio", "audio.save", "audio.save_audio", "audio.save_audio_data", "scene"]
ANY_ENTRIES = ["io.save_audio", "audio.save_audio", "audio.save_audio_data"]
NAMES = ["a", "with space", "dotted.name.v2", "ünïcode-音", "UPPER", "a.flac"]
REPS = ["float32", "float32", "float64", "float16", "int16", "float32 strided", "float64 strided", "float32 grad"]


@st.composite
def save_cases(draw):
    any_fmt = draw(st.integers(0, 3)) == 0
    entry = draw(st.sampled_from(ANY_ENTRIES if any_fmt else WAV_ENTRIES))
    ext = draw(st.sampled_from(sorted(al.FORMATS))) if any_fmt else draw(st.sampled_from(["wav", "wav", "WAV", "wave", "Wave"]))
    subs = al.FORMATS[ext] if any_fmt else al.WAV_SUBTYPES
    sig = draw(al.signals(max_channels=8 if ext == "flac" else 12, empty=not any_fmt, huge=True))
    if ext == "flac":
        sig["ch"] = min(sig["ch"], 8)
    norm = draw(st.sampled_from([None, True, False, False]))
    subtype = draw(st.one_of(st.none(), st.sampled_from(subs)))
    peak = draw(st.one_of(st.none(), gens.uniform(0.01, 1.0)))
    if subtype in ("FLOAT", "DOUBLE") and draw(st.integers(0, 3)) == 0:
        peak = draw(gens.uniform(1.0, 5.0))
    if entry == "scene":
        norm = subtype = peak = None
    return dict(root=draw(st.sampled_from(ROOTS)), entry=entry, ext=ext, name=draw(st.sampled_from(NAMES)), sig=sig, rep=draw(st.sampled_from(REPS)), norm=norm, peak=peak,
                subtype=subtype, rate=draw(st.sampled_from(al.RATES)), exists=draw(st.booleans()), stored=draw(st.sampled_from([None, "same", "other"])))


def save(case, path, t, subtype="case"):
    import torchrir.io as tio
    from torchrir.io import audio as ta

    subtype = case["subtype"] if subtype == "case" else subtype
    kw = {}
    if case["norm"] is not None:
        kw["normalize"] = case["norm"]
    if case["peak"] is not None:
        kw["peak"] = case["peak"]
    e = case["entry"]
    if e == "scene":
        return tio.save_scene_audio(out_dir=path.parent, audio=t, fs=case["rate"], audio_name=path.name, logger=None)
    if e == "audio.save_audio_data":
        stored = subtype
        if subtype is not None and case["stored"] == "other":
            stored = "PCM_16"
            kw["subtype"] = subtype
        return ta.save_audio_data(path, tio.AudioData(audio=t, sample_rate=case["rate"], subtype=stored), **kw)
    if subtype is not None:
        kw["subtype"] = subtype
    mod = tio if e.startswith("io.") else ta
    return getattr(mod, e.split(".")[1])(path, t, case["rate"], **kw)


def run_save(case, ctx):
    import torchrir.io as tio

    sig, ext = case["sig"], case["ext"].lower()
    wav = ext in ("wav", "wave")
    d = Path(ctx.scratch(case["root"])) / ("deep/er" if case["entry"] == "scene" else "")
    path = d / f"{case['name']}.{case['ext']}"
    if case["exists"] and case["entry"] != "scene":
        path.write_bytes(b"stale" * 4000)
    t = al.tensor(sig, case["rep"])
    before = t.detach().clone()
    ctx.label(case["entry"], sig["layout"], sig["kind"], case["subtype"] or "default subtype", "normalised" if case["norm"] is not False else "as is")
    ctx.trivial(sig["n"] < 2)
    out = sut(save, case, path, t)
    require(torch.equal(t.detach(), before) and t.dtype == before.dtype, "saving changed the tensor passed in")
    require(t.requires_grad == (case["rep"].endswith("grad")), "saving changed requires_grad")
    if case["entry"] == "scene":
        require(Path(out) == path, f"returned {out}, wrote to {path}")
    require(os.listdir(d) == [path.name], f"files written: {os.listdir(d)}")
    if wav:
        require(al.is_wav(path), "the file is not a WAV file")
        rate, got, stored = al.read_wav(path) if sig["n"] else (*al.read_any(path)[:3],)
        fmt = tuple(x for x in ("WAV", "WAVEX"))
    else:
        rate, got, stored, f = al.read_any(path)
        fmt = (ext.upper(),)
        require(f in fmt, f"file format {f}, expected {fmt}")
    require(rate == case["rate"], f"sample rate {rate}, expected {case['rate']}")
    x = al.channels_of(before, sig)
    x = x.astype(np.float32).astype(np.float64)
    top = float(np.abs(x).max()) if x.size else 0.0
    norm = case["norm"] is not False
    if norm and top > 0:
        x = x / top * (1.0 if case["peak"] is None else case["peak"])
    require(got.shape == (sig["ch"], sig["n"]), f"stored {got.shape[0]} channels x {got.shape[1]} samples, expected {(sig['ch'], sig['n'])}")
    if case["subtype"] is not None:
        require(stored == case["subtype"], f"stored subtype {stored}, requested {case['subtype']}")
    elif wav:
        # without a requested subtype nothing may be lost beyond what the stored one quantises: no clipping
        require(not al.STEP[stored] or not x.size or np.abs(x).max() <= 1 + 1e-6, f"values up to {top} stored as {stored}")
    require(al.STEP[stored] <= al.STEP["PCM_16"] or case["subtype"] == stored, f"default subtype {stored} is coarser than 16 bits")
    worst = al.close(got, x, stored)
    require(worst <= 1, f"read back differs from the input by {worst:.3g} x what {stored} allows")
    if sig["kind"] == "silence":
        require(not np.any(got), "silence is not stored as silence")

    check_load(path, wav, got, rate, stored, fmt)
    # and the container form preserves it
    data = sut(quiet, tio.load_audio_data, path)
    again = path.with_name("again." + case["ext"])
    sut(tio.save_audio_data, again, data, normalize=False)
    r2, g2, s2, f2 = al.read_any(again)
    require((r2, s2) == (rate, stored) and f2 in fmt, f"container stored again as {f2}/{s2} at {r2}, was {stored} at {rate}")
    worst = al.close(g2, got[:1], stored)
    require(worst <= 1, f"container stored again differs by {worst:.3g} x what {stored} allows")


def quiet(fn, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*a, **k)


def check_load(path, wav, full, rate, stored, fmt):
    """Every load/info entry point agrees with the independent reading ``full`` (channels, samples)."""
    import torchrir.io as tio
    from torchrir.io import audio as ta

    loaders = [tio.load_audio, ta.load_audio, tio.load_audio_data, ta.load_audio_data] + ([tio.load_wav, ta.load] if wav else [])
    for fn in loaders:
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            out = sut(fn, path)
        multi = [w for w in rec if issubclass(w.category, RuntimeWarning)]
        require(bool(multi) == (full.shape[0] > 1), f"{fn.__name__}: {len(multi)} RuntimeWarnings on {full.shape[0]} channels")
        if isinstance(out, tuple):
            audio, sr = out
        else:
            audio, sr = out.audio, out.sample_rate
            require(out.subtype == stored and out.format in fmt, f"container reports {out.format}/{out.subtype}, stored {fmt}/{stored}")
        require(sr == rate and isinstance(sr, int), f"{fn.__name__}: rate {sr!r}, stored {rate}")
        require(torch.is_tensor(audio) and audio.dtype == torch.float32 and audio.ndim == 1, f"{fn.__name__}: not a 1-D float32 tensor")
        a = audio.numpy().astype(np.float64)
        require(a.shape == full.shape[1:], f"{fn.__name__}: {a.shape[0]} samples, stored {full.shape[1]}")
        require(not a.size or np.abs(a - full[0]).max() <= 1e-6 * max(1.0, np.abs(full[0]).max()), f"{fn.__name__}: not the first channel's samples")
    for fn in [tio.info_audio, ta.info_audio] + ([tio.info_wav] if wav else []):
        inf = sut(fn, path)
        require((inf.sample_rate, inf.num_frames, inf.num_channels, inf.subtype) == (rate, full.shape[1], full.shape[0], stored),
                f"{fn.__name__}: {inf}")
        require(inf.format in fmt, f"{fn.__name__}: format {inf.format}, expected {fmt}")
        require(abs(inf.duration - full.shape[1] / rate) <= 1e-9 + 1e-6 * full.shape[1] / rate, f"{fn.__name__}: duration {inf.duration}")


@st.composite
def load_cases(draw):
    any_fmt = draw(st.booleans())
    ext = draw(st.sampled_from(sorted(al.FORMATS))) if any_fmt else draw(st.sampled_from(["wav", "WAV", "wave"]))
    subs = al.FORMATS[ext] if any_fmt else al.WAV_SUBTYPES
    sig = draw(al.signals(max_channels=8 if ext == "flac" else 12, layouts=("first",), empty=not any_fmt, huge=True))
    if ext == "flac":
        sig["ch"] = min(sig["ch"], 8)
    return dict(root=draw(st.sampled_from(ROOTS)), ext=ext, subtype=draw(st.sampled_from(subs)), sig=sig, rate=draw(st.sampled_from(al.RATES)), name=draw(st.sampled_from(NAMES)))


def run_load(case, ctx):
    import soundfile as sf

    path = Path(ctx.scratch(case["root"])) / f"{case['name']}.{case['ext']}"
    x = np.clip(al.samples(case["sig"]), -1, 1)
    wav = case["ext"].lower() in ("wav", "wave")
    fmt = "WAV" if wav else case["ext"].upper()
    sf.write(str(path), x.T, case["rate"], subtype=case["subtype"], format=fmt)
    raw = path.read_bytes()
    ctx.label(fmt, case["subtype"], f"{case['sig']['ch']} channels")
    ctx.trivial(case["sig"]["n"] < 2)
    rate, full, stored, f = al.read_any(path)
    check_load(path, wav, full, rate, stored, (f,))
    require(path.read_bytes() == raw, "loading changed the file")


@st.composite
def scene_cases(draw):
    return dict(root=draw(st.sampled_from(ROOTS)), sig=draw(al.signals()), rate=draw(st.sampled_from(al.RATES)), sub=draw(st.sampled_from(["", "a", "a/b c", "x.wav"])),
                name=draw(st.sampled_from(["mix.wav", "m i x.WAV", "scene.binaural.wave"])), pre=draw(st.booleans()), n=draw(st.integers(1, 2)))


def run_scene(case, ctx):
    """Scene audio output: same signal with the default normalisation, directory created, file logged."""
    import torchrir.io as tio

    out_dir = Path(ctx.scratch(case["root"])) / case["sub"]
    if case["pre"]:
        out_dir.mkdir(parents=True, exist_ok=True)
        (out_dir / "other.txt").write_text("kept")
    t = al.tensor(case["sig"])
    before = t.clone()
    log = logging.getLogger("verif.c16")
    log.handlers, log.propagate = [], False
    log.setLevel(logging.DEBUG)
    records = []
    h = logging.Handler()
    h.emit = records.append
    log.addHandler(h)
    for _ in range(case["n"]):
        path = sut(tio.save_scene_audio, out_dir=out_dir, audio=t, fs=case["rate"], audio_name=case["name"], logger=log)
    ctx.label(case["sig"]["layout"])
    require(torch.equal(t, before), "saving changed the tensor passed in")
    require(Path(path) == out_dir / case["name"] and Path(path).is_file(), f"returned {path}")
    require(len(records) == case["n"] and all(str(out_dir / case["name"]) in r.getMessage() for r in records), "saved file not logged once per save")
    require(set(os.listdir(out_dir)) == {case["name"]} | ({"other.txt"} if case["pre"] else set()), f"files: {os.listdir(out_dir)}")
    rate, got, stored, _ = al.read_any(path)
    x = al.channels_of(before, case["sig"])
    top = np.abs(x).max() if x.size else 0
    require(rate == case["rate"], f"rate {rate}")
    require(al.close(got, x / top if top > 0 else x, stored) <= 1, "scene audio differs from the input normalised to full scale")


CHECK = Check(
    "C16",
    [
        Law("save_read", save_cases, run_save, quick=2000, thorough=96000,
            rule="saved through one of six entry points, read back by scipy's RIFF reader (other formats: libsndfile) and by every load/info function"),
        Law("load", load_cases, run_load, quick=1200, thorough=48000, rule="independently written file read by every load/info function"),
        Law("scene", scene_cases, run_scene, quick=480, thorough=16000, rule="scene audio helper"),
    ],
    rule="at least two samples; distinct cases",
    assumptions=["channel-first: at most 8 channels or fewer channels than samples; channel-last: more than 8 samples and at least as many samples as channels "
                 "(other shapes are ambiguous and resolved by the documented rule)",
                 "explicitly requested integer subtypes saturate values beyond full scale; without a requested subtype WAV output must not clip",
                 "quantisation allowance: two steps of the stored subtype plus single-precision rounding"],
)
