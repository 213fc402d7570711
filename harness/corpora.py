"""Synthetic corpora in the documented on-disk layouts, and interference with the environment they are read in."""

from __future__ import annotations

import contextlib
import os
from pathlib import Path
import random
import socket
import urllib.request

from hypothesis import strategies as st
import numpy as np

SPEAKERS = ["aew", "ahw", "aup", "awb", "axb", "bdl", "clb", "eey", "fem", "gka", "jmk", "ksp", "ljm", "lnh", "rms", "rxr", "slp", "slt"]
SUBSETS = ["dev-clean", "dev-other", "test-clean", "test-other", "train-clean-100", "train-clean-360", "train-other-500"]
WORDS = ["author", "of", "the", "DANGER", "trail,", "Philip", "Steels", "etc.", "isn't", "(maybe)", "a-b", "1914", "naïve", "--", '"quoted"', "x;y", "\t", "  "]


def texts():
    return st.lists(st.sampled_from(WORDS), min_size=0, max_size=6).map(lambda w: " ".join(w).strip())


def pcm(seed, n):
    """int16 samples of an utterance."""
    return np.random.default_rng(seed).integers(-20000, 20000, n).astype(np.int16)


def write_audio(path, seed, n, rate, fmt):
    import soundfile as sf

    path.parent.mkdir(parents=True, exist_ok=True)
    sf.write(str(path), pcm(seed, n), rate, subtype="PCM_16", format=fmt)


@st.composite
def cmu(draw, min_utts=0, audio=True):
    n = draw(st.integers(min_utts, 8))
    ids = draw(st.lists(st.tuples(st.sampled_from("ab"), st.integers(1, 600)), min_size=n, max_size=n, unique=True))
    utts = [dict(id=f"arctic_{a}{k:04d}", text=draw(texts()), audio=audio or draw(st.integers(0, 3)) > 0, n=draw(st.integers(1, 300))) for a, k in ids]
    decoys = draw(st.lists(st.sampled_from(["other.wav", "arctic_a0001.txt", "arctic_a9999.wav", "arctic_a0001.wav.bak", "README", ".hidden.wav", "sub/arctic_a0001.wav"]), max_size=3, unique=True))
    return dict(speaker=draw(st.sampled_from(SPEAKERS)), utts=utts, decoys=decoys, rate=draw(st.sampled_from([16000, 8000, 22050])), seed=draw(st.integers(0, 10**6)),
                style=draw(st.sampled_from(["( {id} \"{text}\" )", "({id} \"{text}\")", "( {id}  \"{text}\" )  "])), blank=draw(st.booleans()))


def write_cmu(root: Path, corpus, order=None):
    """Create the tree under ``root`` (the dataset root), creating audio files in the given order."""
    d = root / "ARCTIC" / f"cmu_us_{corpus['speaker']}_arctic"
    (d / "wav").mkdir(parents=True, exist_ok=True)
    (d / "etc").mkdir(exist_ok=True)
    files = [(d / "wav" / f"{u['id']}.wav", corpus["seed"] + i, u["n"]) for i, u in enumerate(corpus["utts"]) if u["audio"]]
    have = {u["id"] for u in corpus["utts"]}
    for k, u in enumerate(corpus["utts"]):
        if not u["audio"] and corpus["seed"] % 2:  # names that only resemble the missing file's
            name = [f"{u['id']}.orig.wav", f"{u['id']}_2.wav", f"x{u['id']}.wav", f"{u['id'].upper()}.wav", f"{u['id']} .wav"][(corpus["seed"] // 2 + k) % 5]
            files.append((d / "wav" / name, k, 5))
    for k, name in enumerate(corpus["decoys"]):
        if name.endswith(".wav") and Path(name).stem not in have:
            files.append((d / "wav" / name, k, 5))
        elif not name.endswith(".wav"):
            (d / "wav" / name).write_text("x")
    if order is not None:
        random.Random(order).shuffle(files)
    for path, seed, n in files:
        write_audio(path, seed, n, corpus["rate"], "WAV")
    lines = [corpus["style"].format(id=u["id"], text=u["text"]) for u in corpus["utts"]]
    (d / "etc" / "txt.done.data").write_text(("\n\n" if corpus["blank"] else "\n").join(lines) + ("\n" if lines else ""), encoding="utf-8")
    return d


@st.composite
def libri(draw, min_spk=0):
    spk = draw(st.lists(st.integers(1, 9000).map(str), min_size=min_spk, max_size=4, unique=True))
    chapters = []
    for s in spk:
        for c in draw(st.lists(st.integers(1, 200000).map(str), min_size=1, max_size=3, unique=True)):
            n = draw(st.integers(0, 4))
            chapters.append(dict(speaker=s, chapter=c, utts=[dict(id=f"{s}-{c}-{i:04d}", text=draw(texts()), audio=draw(st.integers(0, 4)) > 0, n=draw(st.integers(1, 300)))
                                                             for i in range(n)], decoy=draw(st.sampled_from([None, None, "flac", "readme", "wav", "alike", "alike", "elsewhere"]))))
    return dict(subset=draw(st.sampled_from(SUBSETS)), chapters=chapters, stray=draw(st.sampled_from([None, "README.TXT", "file"])), empty=draw(st.sampled_from([None, None, "77777"])),
                rate=draw(st.sampled_from([16000, 8000])), seed=draw(st.integers(0, 10**6)), blank=draw(st.booleans()))


def write_libri(root: Path, corpus, order=None):
    base = root / "LibriSpeech" / corpus["subset"]
    base.mkdir(parents=True, exist_ok=True)
    jobs = []
    k = 0
    for ch in corpus["chapters"]:
        d = base / ch["speaker"] / ch["chapter"]
        lines = []
        for u in ch["utts"]:
            lines.append(f"{u['id']} {u['text']}")
            if u["audio"]:
                jobs.append(("audio", d / f"{u['id']}.flac", corpus["seed"] + k, u["n"]))
            k += 1
        jobs.append(("text", d / f"{ch['speaker']}-{ch['chapter']}.trans.txt", ("\n\n" if corpus["blank"] else "\n").join(lines) + "\n"))
        if ch["decoy"] == "flac":
            jobs.append(("audio", d / f"{ch['speaker']}-{ch['chapter']}-9999.flac", 1, 5))
        elif ch["decoy"] == "wav":
            for u in ch["utts"]:
                if not u["audio"]:
                    jobs.append(("text", d / f"{u['id']}.wav", "x"))
        elif ch["decoy"] == "elsewhere":  # the right name in a wrong place
            other = corpus["chapters"][(corpus["seed"] + k) % len(corpus["chapters"])]
            places = [base / other["speaker"] / other["chapter"], d.parent, d / "more", base, base / ch["speaker"] / "0", d.parent / (ch["chapter"] + "0")]
            for m, u in enumerate(ch["utts"]):
                place = places[(corpus["seed"] // 3 + m) % len(places)]
                if not u["audio"] and place != d:
                    jobs.append(("audio", place / f"{u['id']}.flac", 1, 5))
        elif ch["decoy"] == "alike":
            for m, u in enumerate(ch["utts"]):
                if not u["audio"]:
                    jobs.append(("audio", d / [f"{u['id']}.orig.flac", f"{u['id']}-1.flac", f"0{u['id']}.flac", f"{u['id']} .flac"][(corpus["seed"] + m) % 4], 1, 5))
        elif ch["decoy"]:
            jobs.append(("text", d / "readme.txt", "x y\n"))
    if corpus["stray"]:
        jobs.append(("text", base / corpus["stray"], "x y\n"))
    if corpus["empty"]:
        jobs.append(("dir", base / corpus["empty"]))
    if order is not None:
        random.Random(order).shuffle(jobs)
    for j in jobs:
        j[1].parent.mkdir(parents=True, exist_ok=True)
        if j[0] == "audio":
            write_audio(j[1], j[2], j[3], corpus["rate"], "FLAC")
        elif j[0] == "text":
            j[1].write_text(j[2], encoding="utf-8")
        else:
            j[1].mkdir(exist_ok=True)
    return base


class Network:
    """Attempted requests."""

    def __init__(self):
        self.attempts = []


@contextlib.contextmanager
def no_network():
    """Record and refuse every attempt to open a URL or connect a socket."""
    net = Network()
    saved = (urllib.request.urlopen, socket.socket.connect, socket.create_connection, urllib.request.OpenerDirector.open)

    def refuse(*a, **k):
        net.attempts.append(str(a[-1])[:100] if a else "?")
        raise OSError("network disabled by the harness")

    urllib.request.urlopen = refuse
    socket.socket.connect = refuse
    socket.create_connection = refuse
    urllib.request.OpenerDirector.open = refuse
    try:
        yield net
    finally:
        urllib.request.urlopen, socket.socket.connect, socket.create_connection, urllib.request.OpenerDirector.open = saved


class _Scan:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


@contextlib.contextmanager
def shuffled_directories(seed):
    """Directory listings come back in another order (the operating system promises none)."""
    rng = random.Random(seed)
    scan, lst = os.scandir, os.listdir

    def scandir(path="."):
        with scan(path) as it:
            entries = sorted(it, key=lambda e: e.name)
        rng.shuffle(entries)
        return _Scan(entries)

    def listdir(path="."):
        names = sorted(lst(path))
        rng.shuffle(names)
        return names

    os.scandir, os.listdir = scandir, listdir
    try:
        yield
    finally:
        os.scandir, os.listdir = scan, lst


def quiet_logging():
    """Keep the library's download warnings off the check's output."""
    import logging

    log = logging.getLogger("torchrir.datasets")
    if not any(isinstance(h, logging.NullHandler) for h in log.handlers):
        log.addHandler(logging.NullHandler())
