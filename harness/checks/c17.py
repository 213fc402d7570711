"""C17: WAV-only and any-format entry points are gated and equivalent as documented."""

import os
import re
from pathlib import Path
import warnings

from hypothesis import strategies as st
import numpy as np
import torch

from .. import audiolib as al
from ..core import Check, Law, Violation, expect_raises, require, sut

SUFFIXES = [".wav", ".WAV", ".Wav", ".wave", ".WAVE", ".wAvE", "", ".flac", ".FLAC", ".aiff", ".ogg", ".mp3", ".raw", ".txt", ".wav.bak", ".wa",
            ".wavx", ".waves", ".wav64", ".w64", ".rf64", ".wv", ".wav.flac", ".flac.wav", "wav", ".", ".au", ".caf", ".wavex"]
FORMATS = [None, None, None, "wav", "WAV", "Wav", "wave", "WAVE", "flac", "FLAC", "raw", "wavex", "WAVEX", "rf64", "w64", "wav ", ".wav", "aiff", "ogg", "pcm", "riff"]
# entry points of the WAV-only family; the last three also warn
FORMAT_ENTRIES = ["load_wav", "save_wav", "info_wav", "load", "save", "info", "top.load", "top.save"]
PATH_ENTRIES = ["audio.load", "audio.save"]
GOOD = {"wav", "wave"}


def entry(name):
    import torchrir
    import torchrir.io as tio
    from torchrir.io import audio as ta

    if name.startswith("top."):
        return getattr(torchrir, name[4:])
    if name.startswith("audio."):
        return getattr(ta, name[6:])
    return getattr(tio, name)


def recorded(fn, *a, **k):
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        return fn(*a, **k), rec


@st.composite
def gate_cases(draw):
    e = draw(st.sampled_from(FORMAT_ENTRIES + PATH_ENTRIES))
    stem = draw(st.sampled_from(["x", "take.1", "wav", "a wav", "x.wav.d/y"]))
    fmt = None if e in PATH_ENTRIES else draw(st.sampled_from(FORMATS))
    suffix = draw(st.sampled_from([".wav", ".WAV", ".wave"] if draw(st.integers(0, 2)) == 0 else SUFFIXES))
    return dict(entry=e, path=stem + suffix, format=fmt, file=draw(st.sampled_from(["missing", "wav", "flac", "junk", "nodir"])),
                sig=draw(al.signals(max_channels=3, layouts=("mono", "first"), empty=False)), rate=draw(st.sampled_from([8000, 16000, 44100])),
                backend=draw(st.sampled_from([None, None, "soundfile"])), norm=draw(st.booleans()),
                subtype=draw(st.sampled_from([None, None, "PCM_24", "FLOAT"])),
                peak=draw(st.sampled_from([None, None, 0.5, 0.03, 0.9])))


def suffix_of(path):
    """Letters after the last dot of the file name, when there are any and the name does not start there."""
    name = path.rsplit("/", 1)[-1]
    stem, dot, ext = name.rpartition(".")
    return ext if dot and stem.strip(".") else ""


def run_gate(case, ctx):
    import soundfile as sf

    root = Path(ctx.scratch())
    case["sig"]["ch"] = min(case["sig"]["ch"], 8)
    path = root / case["path"]
    x = al.samples(case["sig"])
    kind = case["file"]
    if kind != "nodir":
        path.parent.mkdir(parents=True, exist_ok=True)
        if kind in ("wav", "flac"):
            sf.write(str(path), np.clip(x, -1, 1).T, case["rate"], subtype="PCM_16", format=kind.upper())
        elif kind == "junk":
            path.write_bytes(b"not audio at all")
    before = al.tree(root)
    fmt = (case["format"] if case["format"] is not None else suffix_of(case["path"])).lower()
    ok = fmt in GOOD
    e = case["entry"]
    saving = e.endswith(("save", "save_wav"))
    fn = entry(e)
    kw = {}
    if case["format"] is not None:
        kw["format"] = case["format"]
    if case["backend"] is not None and e not in PATH_ENTRIES:
        kw["backend"] = case["backend"]
    args = (path,)
    if saving:
        args = (path, al.tensor(case["sig"]), case["rate"])
        kw["normalize"] = case["norm"]
        if case["subtype"]:
            kw["subtype"] = case["subtype"]
        if case["peak"]:
            kw["peak"] = case["peak"]
    ctx.label(e, "accepted" if ok else "rejected", f"file {kind}", "explicit format" if case["format"] else "by suffix")
    if not ok:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            expect_raises(ValueError, fn, *args, what=f"{e} on {case['path']!r} format={case['format']!r}", **kw)
        require(al.tree(root) == before, f"{e} rejected {case['path']!r} but changed files")
        return
    if saving:
        if kind == "nodir" and not path.parent.is_dir():
            expect_fail(fn, args, kw)
            require(al.tree(root) == before, "failed save left files")
            return
        _, rec = recorded(sut, fn, *args, **kw)
        after = al.tree(root)
        require(set(after) - set(before) <= {case["path"]} and set(before) <= set(after), f"files after saving: {sorted(after)}")
        require(al.is_wav(path), f"{e} on {case['path']!r} format={case['format']!r} did not write a WAV file")
        rate, got, stored = al.read_wav(path)
        want = al.channels_of(args[1], case["sig"])
        top = np.abs(want).max()
        if case["norm"] and top > 0:
            want = want / top * (case["peak"] or 1.0)
        require(rate == case["rate"] and al.close(got, want, stored) <= 1, "the file does not hold the signal")
        require(case["subtype"] in (None, stored), f"stored {stored}")
    elif kind in ("wav", "flac"):
        out, rec = recorded(sut, fn, *args, **kw)
        require(al.tree(root) == before, "reading changed files")
        _, full, stored, f = al.read_any(path)
        if e == "info_wav" or e == "info":
            require((out.sample_rate, out.num_frames, out.num_channels, out.format) == (case["rate"], x.shape[1], x.shape[0], f), f"{out}")
        else:
            audio, sr = out
            require(sr == case["rate"] and np.array_equal(audio.numpy(), full[0].astype(np.float32)), "loaded samples differ from the stored ones")
    else:
        rec = expect_fail(fn, args, kw)
        require(al.tree(root) == before, "failed read changed files")
        return
    dep = [w for w in rec if issubclass(w.category, DeprecationWarning)]
    is_dep = e in ("load", "save", "info") or e.startswith("top.")
    require(bool(dep) == is_dep, f"{e}: {len(dep)} deprecation warnings")


def expect_fail(fn, args, kw):
    """A missing or unreadable file is an error from any entry point (which one is not specified)."""
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        try:
            fn(*args, **kw)
        except Exception:  # noqa: BLE001
            return rec
    raise Violation("a missing or unreadable file was accepted")


PAIRS = [("load", "load_wav"), ("save", "save_wav"), ("info", "info_wav"), ("top.load", "load_wav"), ("top.save", "save_wav"), ("audio.load", "load_wav"),
         ("audio.save", "save_wav"), ("audio.save_audio", "save_audio"), ("audio.load_audio", "load_audio"), ("audio.info_audio", "info_audio"),
         ("save_audio", "save_wav"), ("load_audio", "load_wav"), ("info_audio", "info_wav")]


@st.composite
def pair_cases(draw):
    if draw(st.integers(0, 2)) == 0:  # ordinary calls, where nothing is refused
        return dict(pair=draw(st.integers(0, len(PAIRS) - 1)), sig=draw(al.signals(max_channels=9, empty=False)), rate=draw(st.sampled_from(al.RATES)),
                    ext=draw(st.sampled_from(["wav", "WAV", "wave"])), norm=draw(st.sampled_from([None, True])), peak=draw(st.sampled_from([None, 0.5, 0.1, 0.9])),
                    subtype=draw(st.sampled_from([None, "PCM_24", "FLOAT"])), format=None, backend=draw(st.sampled_from([None, None, "soundfile"])), stored="PCM_16", missing=False)
    return dict(pair=draw(st.integers(0, len(PAIRS) - 1)), sig=draw(al.signals(max_channels=9)), rate=draw(st.sampled_from(al.RATES)),
                ext=draw(st.sampled_from(["wav", "WAV", "wave"])), norm=draw(st.sampled_from([None, True, False])),
                peak=draw(st.sampled_from([None, 0.5, 0.1, 1.0, 0.0, -1.0])), subtype=draw(st.sampled_from([None, "PCM_24", "FLOAT", "PCM_U8", "NOPE"])),
                format=draw(st.sampled_from([None, None, "wav", "WAVE"])), backend=draw(st.sampled_from([None, "soundfile", "missing"])),
                stored=draw(st.sampled_from(["PCM_16", "PCM_24", "FLOAT"])), missing=draw(st.integers(0, 9)) == 0)


def unstamped(data):
    """File contents without the writing time that a PEAK chunk records."""
    return re.sub(rb"(PEAK.{4}.{4}).{4}", rb"\g<1>----", data[:200], flags=re.S) + data[200:]


def outcome(fn, args, kw, path, saving):
    import dataclasses

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            out = fn(*args, **kw)
        except (Violation, MemoryError):
            raise
        except Exception as exc:  # noqa: BLE001
            return "raise", type(exc).__name__, path.exists() and path.stat().st_size > 0
    if saving:
        return "file", out, unstamped(path.read_bytes())
    if isinstance(out, tuple):
        return "audio", out[0].numpy().tobytes(), tuple(out[0].shape), out[1]
    return "info", dataclasses.astuple(out)


def run_pair(case, ctx):
    import soundfile as sf

    a, b = PAIRS[case["pair"]]
    saving = "save" in a
    root = Path(ctx.scratch())
    outs = []
    for i, name in enumerate((a, b)):
        d = root / str(i)
        d.mkdir()
        path = d / f"x.{case['ext']}"
        kw = {}
        both = [n.split(".")[0] for n in (a, b)]
        if "audio" not in both:
            if case["backend"]:
                kw["backend"] = case["backend"]
            if case["format"] and all(not n.endswith("_audio") for n in (a, b)):
                kw["format"] = case["format"]
        if saving:
            args = (path, al.tensor(case["sig"]), case["rate"])
            if case["norm"] is not None:
                kw["normalize"] = case["norm"]
            if case["peak"] is not None:
                kw["peak"] = case["peak"]
            if case["subtype"] is not None:
                kw["subtype"] = case["subtype"]
        else:
            args = (path,)
            if not case["missing"]:
                sf.write(str(path), np.clip(al.samples(case["sig"]), -1, 1).T, case["rate"], subtype=case["stored"], format="WAV")
        outs.append(outcome(entry(name), args, kw, path, saving))
    ctx.label(f"{a} / {b}", outs[0][0])
    if case["backend"] == "missing" and "backend" in kw:
        require(outs[1][:2] == ("raise", "ValueError"), f"unknown backend: {outs[1][:2]}")
    if saving and case["norm"] is not False and case["peak"] is not None and case["peak"] <= 0:
        require(outs[1][:2] == ("raise", "ValueError"), f"non-positive peak: {outs[1][:2]}")
    same_file = outs[0] == outs[1]
    if saving and not same_file and outs[0][0] == outs[1][0] == "file" and not case["sig"]["n"]:
        same_file = True
    require(same_file, f"{a} and {b} differ: {str(outs[0])[:200]} / {str(outs[1])[:200]}")


BACKENDS = ["soundfile", "torchaudio", "SoundFile", "soundfile ", "none", "sox", "Soundfile", "wave"]


@st.composite
def backend_cases(draw):
    op = st.one_of(st.tuples(st.just("set"), st.sampled_from(BACKENDS)), st.tuples(st.just("get"), st.just("")), st.tuples(st.just("list"), st.just("")),
                   st.tuples(st.sampled_from(["load_wav", "load_audio", "info_wav", "info_audio", "save_wav", "save_audio", "load", "top.load"]), st.sampled_from(["<default>"] + BACKENDS)))
    return dict(ops=[list(o) for o in draw(st.lists(op, min_size=1, max_size=12))], seed=draw(st.integers(0, 99)))


def run_backend(case, ctx):
    import soundfile as sf
    import torchrir.io as tio

    known = tio.list_audio_backends()
    require("soundfile" in known and known == sorted(set(known)), f"backends {known}")
    start = tio.get_audio_backend()
    require(start == "soundfile", f"default backend {start}")
    root = Path(ctx.scratch())
    x = np.random.default_rng(case["seed"]).uniform(-1, 1, 20)
    src = root / "in.wav"
    sf.write(str(src), x, 8000, subtype="FLOAT")
    want = torch.tensor(x, dtype=torch.float32)
    current = start
    unknown = 0
    for i, (op, name) in enumerate(case["ops"]):
        if op == "set":
            if name in known:
                sut(tio.set_audio_backend, name)
                current = name
            else:
                unknown += 1
                expect_raises(ValueError, tio.set_audio_backend, name, what=f"unknown backend {name!r}")
        elif op == "list":
            require(tio.list_audio_backends() == known, "the list of backends changed")
        elif op != "get":
            kw = {} if name == "<default>" else {"backend": name}
            fn = entry(op)
            out = root / f"{i}.wav"
            args = (out, want, 8000) if op.startswith("save") else (src,)
            if kw and name not in known:
                unknown += 1
                expect_raises(ValueError, fn, *args, what=f"{op} with unknown backend {name!r}", **kw)
                require(not out.exists(), "a file was written with an unknown backend")
            else:
                res = sut(fn, *args, **kw)
                if op.startswith("save"):
                    require(al.is_wav(out), "not a WAV file")
                elif op.startswith("info"):
                    require(res.num_frames == 20, f"{res}")
                else:
                    require(torch.equal(res[0], want), "loaded samples differ")
        require(tio.get_audio_backend() == current, f"default backend is {tio.get_audio_backend()!r} after {case['ops'][:i + 1]}")
    ctx.label("unknown backend tried" if unknown else "known only")
    ctx.trivial(len(case["ops"]) < 2)


@st.composite
def any_cases(draw):
    ext = draw(st.sampled_from(sorted(al.FORMATS) + ["wav", "ogg", "mp3", "xyz", "", "txt"]))
    sig = draw(al.signals(max_channels=8, layouts=("mono", "first"), empty=False))
    sig["ch"] = min(sig["ch"], 8)
    return dict(ext=ext, upper=draw(st.booleans()), sig=sig, mod=draw(st.sampled_from(["io", "audio"])), rate=draw(st.sampled_from([8000, 16000, 44100, 48000])))


def run_any(case, ctx):
    """Any-format entry points accept every format the installed libsndfile writes, and only WAV-only ones refuse them."""
    import soundfile as sf
    import torchrir.io as tio
    from torchrir.io import audio as ta

    mod = tio if case["mod"] == "io" else ta
    ext = case["ext"].upper() if case["upper"] else case["ext"]
    root = Path(ctx.scratch())
    path = root / ("x" + ("." + ext if ext else ""))
    t = al.tensor(case["sig"])
    supported = case["ext"].upper() in sf.available_formats()
    if case["ext"] == "mp3":
        if case["sig"]["ch"] > 2:
            ctx.trivial()
            return
    ctx.label(case["ext"] or "no suffix", "supported" if supported else "unsupported")
    if not supported:
        expect_fail(mod.save_audio, (path, t, case["rate"]), {})
        return
    sut(mod.save_audio, path, t, case["rate"])
    info = sut(mod.info_audio, path)
    require(info.format == case["ext"].upper(), f"saved {path.name} as {info.format}")
    audio, sr = sut(mod.load_audio, path)
    require(sr == case["rate"] and info.sample_rate == sr and info.num_channels == case["sig"]["ch"], f"{info}")
    if case["ext"] not in ("ogg", "mp3"):
        require(audio.numel() == case["sig"]["n"] == info.num_frames, f"{audio.numel()} samples of {case['sig']['n']}")
        x = al.channels_of(t, case["sig"])
        top = np.abs(x).max()
        x = x / top if top > 0 else x
        require(al.close(audio.numpy()[None].astype(float), x[:1], info.subtype) <= 1, "not the same signal")
    if case["ext"] != "wav":
        raw = path.read_bytes()
        for fn, args in ((tio.load_wav, (path,)), (tio.info_wav, (path,)), (tio.save_wav, (path, t, 8000)), (ta.load, (path,)), (ta.save, (path, t, 8000))):
            expect_raises(ValueError, fn, *args, what=f"{fn.__name__} on {path.name}")
        require(path.read_bytes() == raw and os.listdir(root) == [path.name], "a rejected call changed the file")


CHECK = Check(
    "C17",
    [
        Law("gate", gate_cases, run_gate, quick=2800, thorough=120000,
            rule="path suffix x explicit format x existing file (missing, WAV, FLAC, junk, no directory) for ten WAV-only entry points"),
        Law("pair", pair_cases, run_pair, quick=1600, thorough=64000, rule="the same call through a deprecated or equivalent entry point and its replacement"),
        Law("backend", backend_cases, run_backend, quick=800, thorough=32000, rule="operation sequences on the backend registry against a one-variable model"),
        Law("any_format", any_cases, run_any, quick=600, thorough=24000, rule="every format the any-format entry points accept"),
    ],
    rule="distinct cases; backend sequences of at least two operations",
    assumptions=["soundfile is the only backend; missing or unreadable files raise some error, which one is not specified"],
)
