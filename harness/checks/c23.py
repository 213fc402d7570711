"""C23: interrupted or failing downloads never leave a broken dataset in place."""

import bz2
import functools
import gzip
import http.client
import io
import os
from pathlib import Path
import signal
import socket
import sys
import tarfile
import time
import urllib.error
import urllib.request
import zlib

from hypothesis import strategies as st
import numpy as np

from .. import corpora
from ..core import ROOTS, Check, HarnessError, Law, Violation, require

SPK, SUB = "bdl", "dev-clean"


# ------------------------------------------------------------------ archives


@functools.lru_cache(maxsize=None)
def files(kind, big):
    out = {}
    if kind == "cmu":
        d = f"cmu_us_{SPK}_arctic"
        out[f"{d}/etc/txt.done.data"] = b'( arctic_a0001 "one" )\n( arctic_a0002 "two" )\n'
        out[f"{d}/wav/arctic_a0001.wav"] = _noise(1, 3000)
        out[f"{d}/wav/arctic_a0002.wav"] = _noise(2, 2500)
        out[f"{d}/COPYING"] = b"licence\n" * 40
        if big:
            out[f"{d}/wav/arctic_a0003.wav"] = _noise(3, 2_300_000)
    else:
        out["LibriSpeech/README.TXT"] = b"readme\n" * 30
        out[f"LibriSpeech/{SUB}/12/34/12-34.trans.txt"] = b"12-34-0000 ONE\n12-34-0001 TWO\n"
        out[f"LibriSpeech/{SUB}/12/34/12-34-0000.flac"] = _noise(4, 3000)
        out[f"LibriSpeech/{SUB}/12/34/12-34-0001.flac"] = _noise(5, 1500)
        if big:
            out[f"LibriSpeech/{SUB}/56/7/56-7-0000.flac"] = _noise(6, 2_300_000)
        out[f"LibriSpeech/{SUB}/99/1/99-1.trans.txt"] = b"99-1-0000 X\n"
    return out


def _noise(seed, n):
    return np.random.default_rng(seed).integers(0, 256, n).astype(np.uint8).tobytes()


@functools.lru_cache(maxsize=None)
def archive(kind, big):
    raw = io.BytesIO()
    with tarfile.open(fileobj=raw, mode="w") as tar:
        made = set()
        for name, data in files(kind, big).items():
            for p in reversed(Path(name).parents):
                if str(p) != "." and p not in made:
                    made.add(p)
                    info = tarfile.TarInfo(str(p))
                    info.type, info.mode = tarfile.DIRTYPE, 0o755
                    tar.addfile(info)
            info = tarfile.TarInfo(name)
            info.size = len(data)
            tar.addfile(info, io.BytesIO(data))
    return bz2.compress(raw.getvalue(), 1) if kind == "cmu" else gzip.compress(raw.getvalue(), 1, mtime=0)


def _raw(kind, data):
    return bz2.decompress(data) if kind == "cmu" else gzip.decompress(data)


@functools.lru_cache(maxsize=64)
def damaged(kind, big, how, frac):
    """Bytes of an archive that cannot be read to its end."""
    good = archive(kind, big)
    if how == "empty":
        return b""
    if how == "garbage":
        return _noise(77, 2000)
    if how == "html":
        return b"<html><body>503 Service Unavailable</body></html>" * 5
    if how == "truncated":
        # at most to where member data is certainly missing: the small members sit in the last 40 %
        return good[: max(1, int(len(good) * 0.9 * frac))] if not big else good[: int(len(good) * 0.9 * frac) + 1]
    if how == "other compression":
        return gzip.compress(b"x" * 5000) if kind == "cmu" else bz2.compress(b"x" * 5000)
    if how == "zeroed":
        k = int(len(good) * (0.2 + 0.5 * frac))
        return good[:k] + bytes(600) + good[k + 600:]
    if how == "flipped":
        raw = _raw(kind, good)
        for k in range(int(len(good) * (0.1 + 0.8 * frac)), len(good)):
            bad = good[:k] + bytes([good[k] ^ (1 << k % 8)]) + good[k + 1:]
            try:
                if _raw(kind, bad) != raw:
                    break
            except (OSError, EOFError, zlib.error, ValueError):
                break
        return bad
    raise HarnessError(how)


# ------------------------------------------------------------------ server


class _Interrupt(KeyboardInterrupt):
    pass


class Raw(io.RawIOBase):
    """The bytes of one HTTP response; fails after ``limit`` bytes."""

    def __init__(self, data, limit=None, error=None):
        self._data, self._pos, self._limit, self._error = data, 0, limit, error

    def readable(self):
        return True

    def readinto(self, b):
        end = len(self._data) if self._limit is None else self._limit
        n = min(len(b), end - self._pos, 65536)
        if n <= 0:
            if self._error is not None:
                raise self._error
            return 0
        b[:n] = self._data[self._pos:self._pos + n]
        self._pos += n
        return n


class _Sock:
    def __init__(self, raw):
        self._raw = raw

    def makefile(self, *a, **k):
        return io.BufferedReader(self._raw)

    def close(self):
        pass


ERRORS = {
    "refused": lambda: ConnectionRefusedError(111, "Connection refused"), "reset": lambda: ConnectionResetError(104, "Connection reset by peer"), "timeout": lambda: socket.timeout("timed out"),
    "dns": lambda: socket.gaierror(-2, "Name or service not known"), "gone": lambda: http.client.RemoteDisconnected("closed without response"),
    "broken": lambda: http.client.IncompleteRead(b"", 10), "interrupt": lambda: _Interrupt(),
}


class Server(urllib.request.BaseHandler):
    """Answers each request with the next planned response, then with the good archive."""

    handler_order = 1

    def __init__(self, kind, big, plan):
        self.kind, self.big, self.plan, self.requests = kind, big, list(plan), []

    def http_open(self, req):
        self.requests.append(req.full_url)
        step = self.plan.pop(0) if self.plan else dict(kind="good", framing="length")
        k = step["kind"]
        if k == "connect":
            err = ERRORS[step["error"]]()
            raise err if step["error"] == "interrupt" else urllib.error.URLError(err)
        body = body_of(self.kind, self.big, step)
        status = step["status"] if k == "status" else 200
        framing = step.get("framing", "length")
        head = f"HTTP/1.1 {status} X\r\nContent-Type: application/x-tar\r\n"
        if framing == "length":
            payload = body
            head += f"Content-Length: {len(body)}\r\n"
        elif framing == "chunked":
            head += "Transfer-Encoding: chunked\r\n"
            payload = b"".join(f"{len(body[i:i + 70000]):x}\r\n".encode() + body[i:i + 70000] + b"\r\n" for i in range(0, len(body), 70000)) + b"0\r\n\r\n"
        else:
            payload = body
        head = (head + "Connection: close\r\n\r\n").encode()
        limit = error = None
        if k == "cut":
            limit = len(head) + min(int(len(payload) * step["frac"]), len(payload) - 6)
            if step.get("last") and framing == "length":
                limit = len(head) + max(0, len(payload) - step["last"])
            error = None if step["error"] == "eof" else ERRORS[step["error"]]()
        resp = http.client.HTTPResponse(_Sock(Raw(head + payload, limit, error)))
        resp.begin()
        resp.url, resp.msg = req.full_url, resp.reason
        return resp

    https_open = http_open


def body_of(kind, big, step):
    if step["kind"] == "corrupt":
        return damaged(kind, big, step["how"], step["frac"])
    if step["kind"] == "status":
        return b"<html>no</html>"
    return archive(kind, big)


class serving:
    """urllib answers from the server; nothing else may connect."""

    def __init__(self, server):
        self.server = server

    def __enter__(self):
        self.saved = (urllib.request._opener, socket.socket.connect, socket.create_connection)
        opener = urllib.request.OpenerDirector()
        for h in (self.server, urllib.request.HTTPDefaultErrorHandler(), urllib.request.HTTPErrorProcessor(), urllib.request.HTTPRedirectHandler()):
            opener.add_handler(h)
        urllib.request.install_opener(opener)

        def refuse(*a, **k):
            raise Violation("a connection was opened outside urllib")

        socket.socket.connect = socket.create_connection = refuse
        return self.server

    def __exit__(self, *a):
        urllib.request.install_opener(self.saved[0])
        socket.socket.connect, socket.create_connection = self.saved[1:]


# ------------------------------------------------------------------ cases


FAIL = ["refused", "reset", "timeout", "dns", "gone"]


@st.composite
def steps(draw, interrupts=True):
    kind = draw(st.sampled_from(["connect", "cut", "cut", "status", "corrupt", "corrupt", "good"]))
    framing = draw(st.sampled_from(["length", "length", "chunked", "close"]))
    frac = draw(st.integers(0, 100)) / 100
    if kind == "connect":
        return dict(kind=kind, error=draw(st.sampled_from(FAIL + (["interrupt"] if interrupts else []))))
    if kind == "cut":
        errs = ["reset", "timeout", "broken", "reset"] + (["interrupt"] if interrupts else [])
        if framing != "close":
            errs += ["eof", "eof", "eof"]
        return dict(kind=kind, framing=framing, frac=frac, error=draw(st.sampled_from(errs)), last=draw(st.sampled_from([0, 0, 1, 2, 30, 400, 511])))
    if kind == "status":
        return dict(kind=kind, status=draw(st.sampled_from([404, 500, 503, 403])))
    if kind == "corrupt":
        return dict(kind=kind, framing=framing, frac=frac, how=draw(st.sampled_from(["empty", "garbage", "html", "truncated", "truncated", "other compression", "zeroed", "flipped", "flipped"])))
    return dict(kind=kind, framing=framing)


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["cmu", "libri"]))
    big = draw(st.integers(0, 5)) == 0
    start = draw(st.sampled_from(["empty", "empty", "empty", "empty", "no root", "part", "part", "good archive", "corrupt archive", "corrupt archive", "dataset", "dataset and archive", "dataset and bad archive"]))
    plan = st.integers(0, 4).flatmap(lambda n: st.lists(steps(), min_size=n, max_size=n))
    attempts = draw(st.integers(1, 3).flatmap(lambda n: st.lists(plan, min_size=n, max_size=n)))
    return dict(root=draw(st.sampled_from(ROOTS)), kind=kind, big=big, start=start, attempts=attempts, bad=draw(st.sampled_from(["empty", "garbage", "html", "truncated", "other compression", "zeroed", "flipped", "flipped"])),
                frac=draw(st.integers(0, 100)) / 100, other=draw(st.booleans()), speaker=draw(st.sampled_from([None, None, "12"])))


class Site:
    """One dataset root and what is known about it."""

    def __init__(self, root, case):
        self.case, self.kind, self.big = case, case["kind"], case["big"]
        self.root = root
        k = self.kind
        self.base = root / "ARCTIC" if k == "cmu" else root
        self.archive = self.base / (f"cmu_us_{SPK}_arctic.tar.bz2" if k == "cmu" else f"{SUB}.tar.gz")
        self.dataset = root / "ARCTIC" / f"cmu_us_{SPK}_arctic" if k == "cmu" else root / "LibriSpeech" / SUB
        self.files = files(k, self.big)
        rel = f"cmu_us_{SPK}_arctic/" if k == "cmu" else f"LibriSpeech/{SUB}/"
        self.dataset_files = {n[len(rel):]: d for n, d in self.files.items() if n.startswith(rel)}
        self.served = []

    def prepare(self):
        c = self.case
        if c["start"] == "no root":
            return
        self.base.mkdir(parents=True, exist_ok=True)
        if "good archive" in c["start"] or c["start"] == "dataset and archive":
            self.archive.write_bytes(archive(self.kind, self.big))
        if c["start"] in ("corrupt archive", "dataset and bad archive"):
            self.archive.write_bytes(damaged(self.kind, self.big, c["bad"], c["frac"]))
        if c["start"] == "part":
            for suffix in (".part", ".tmp", ".partial"):
                Path(str(self.archive) + suffix).write_bytes(_noise(9, 50000))
        if c["start"].startswith("dataset"):
            for n, d in self.dataset_files.items():
                p = self.dataset / n
                p.parent.mkdir(parents=True, exist_ok=True)
                p.write_bytes(d)
        if c["other"]:
            o = self.other()
            o.mkdir(parents=True, exist_ok=True)
            (o / "kept.txt").write_text("another dataset")

    def other(self):
        return self.root / "ARCTIC" / "cmu_us_slt_arctic" if self.kind == "cmu" else self.root / "LibriSpeech" / "test-clean"

    def open(self, download=True):
        from torchrir.datasets import CmuArcticDataset, LibriSpeechDataset

        if self.kind == "cmu":
            return CmuArcticDataset(self.root, speaker=SPK, download=download)
        return LibriSpeechDataset(self.root, subset=SUB, speaker=self.case["speaker"], download=download)

    def archive_state(self):
        if not os.path.lexists(self.archive):
            return "absent"
        return "good" if self.archive.read_bytes() == archive(self.kind, self.big) else "corrupt"

    def complete(self):
        return {str(p.relative_to(self.dataset)): p.read_bytes() for p in self.dataset.rglob("*") if p.is_file()} == self.dataset_files

    def invariants(self, when, bodies):
        """bodies: complete archives that were there before or were sent completely."""
        if os.path.lexists(self.archive):
            data = self.archive.read_bytes()
            require(data in bodies, f"{when}: the archive file holds {len(data)} bytes that were never received completely (good archive: {len(archive(self.kind, self.big))} bytes)")
        try:
            self.open(download=False)
        except FileNotFoundError:
            require(not self.dataset.exists() or self.case["speaker"], f"{when}: dataset directory there but not accepted")
        else:
            require(self.complete(), lambda: f"{when}: a partial tree passes for the dataset: {sorted(str(p.relative_to(self.dataset)) for p in self.dataset.rglob('*'))} of {sorted(self.dataset_files)}")
        if self.case["other"] and self.case["start"] != "no root":
            require((self.other() / "kept.txt").read_text() == "another dataset", f"{when}: another dataset below the same root was changed")


def bodies_of(site, case):
    out = [archive(site.kind, site.big), damaged(site.kind, site.big, case["bad"], case["frac"])] if "corrupt archive" in case["start"] or "bad archive" in case["start"] \
        else [archive(site.kind, site.big)]
    for plan in case["attempts"]:
        out += [body_of(site.kind, site.big, s) for s in plan if s["kind"] == "corrupt"]
    return out


def outcome_of(step):
    if step["kind"] in ("good", "corrupt"):
        return step["kind"]
    if step["kind"] == "status":
        return "fail"
    return "interrupt" if step["error"] == "interrupt" else "fail"


def predict(state, has_dataset, plan):
    """(requests made, 'ok' | 'error' | 'interrupt') for one attempt."""
    if has_dataset:
        return 0, "ok"
    plan = [outcome_of(s) for s in plan]
    made = 0

    def download():
        nonlocal made
        for _ in range(2):
            made += 1
            r = plan.pop(0) if plan else "good"
            if r != "fail":
                return r
        return "error"

    if state == "absent":
        state = download()
        if state in ("error", "interrupt"):
            return made, state
    if state == "corrupt":
        state = download()
        if state in ("error", "interrupt"):
            return made, state
    return made, "ok" if state == "good" else "error"


_monitor = None
_hooked = False


def _watch(event, args):
    if _monitor is not None and event in WATCH:
        _monitor()


class watching:
    """Looks at the archive's final name at every file-system event of the process."""

    def __init__(self, site, bodies):
        self.site, self.bodies, self.bad, self.seen, self.busy = site, bodies, None, None, False

    def look(self):
        if self.busy or self.bad:
            return
        self.busy = True
        try:
            st_ = os.stat(self.site.archive)
            stamp = (st_.st_ino, st_.st_size, st_.st_mtime_ns)
            if stamp != self.seen:
                self.seen = stamp
                data = self.site.archive.read_bytes()
                if data not in self.bodies:
                    self.bad = f"{len(data)} bytes that were never received completely (good archive: {len(archive(self.site.kind, self.site.big))} bytes)"
        except OSError:
            self.seen = None
        finally:
            self.busy = False

    def __enter__(self):
        global _monitor, _hooked
        if not _hooked:
            sys.addaudithook(_watch)
            _hooked = True
        _monitor = self.look
        return self

    def __exit__(self, *a):
        global _monitor
        _monitor = None


def attempt(site, plan, bodies=None):
    server = Server(site.kind, site.big, plan)
    with serving(server):
        try:
            if bodies is None:
                site.open()
            else:
                with watching(site, bodies) as w:
                    try:
                        site.open()
                    finally:
                        server.bad = w.bad
            got = "ok"
        except _Interrupt:
            got = "interrupt"
        except (Violation, HarnessError):
            raise
        except Exception as exc:  # noqa: BLE001
            got = "error"
            server.exc = exc
    return server, got


def run(case, ctx):
    corpora.quiet_logging()
    root = Path(ctx.scratch(case["root"])) / "root"
    site = Site(root, case)
    site.prepare()
    bodies = bodies_of(site, case)
    name = site.archive.name
    ctx.label(case["kind"], case["start"], "several chunks" if case["big"] else "one chunk")
    ctx.trivial(case["start"].startswith("dataset") and case["start"] != "dataset" or not any(s["kind"] != "good" for p in case["attempts"] for s in p) and case["start"] in ("empty", "no root"))
    for plan in case["attempts"]:
        ctx.label(*(f"{s['kind']} {s.get('error') or s.get('how') or ''} {s.get('framing', '')}" for s in plan))
    for i, plan in enumerate(case["attempts"] + [[]]):
        when = f"after attempt {i + 1} ({[outcome_of(s) for s in plan]})"
        want_n, want = predict(site.archive_state(), site.dataset.exists(), plan)
        before_archive = site.archive.read_bytes() if site.archive.exists() else None
        server, got = attempt(site, plan, bodies)
        require(server.bad is None, f"{when}: on the way the archive file held {server.bad}")
        require(len(server.requests) == want_n, f"{when}: {len(server.requests)} requests, expected {want_n}")
        require(got == want, f"{when}: {got}, expected {want} ({getattr(server, 'exc', None)!r})")
        require(all(u.endswith("/" + name) for u in server.requests), f"{when}: requested {server.requests}")
        if want_n == 0:
            require((site.archive.read_bytes() if site.archive.exists() else None) == before_archive, f"{when}: archive changed without a download")
        if got == "ok":
            require(site.dataset.is_dir() and site.complete(), f"{when}: success without the complete dataset")
        site.invariants(when, bodies)
        ctx.label(f"attempt: {got}")
    require(got == "ok", "a fault-free attempt does not recover")
    if case["kind"] == "libri" and not case["start"].startswith("dataset"):
        require((root / "LibriSpeech/README.TXT").read_bytes() == site.files["LibriSpeech/README.TXT"], "a file of the archive beside the subset is missing")
    left = [str(p.relative_to(root)) for p in root.rglob("*") if p.is_file() and not _known(site, p)]
    require(not left or case["start"] == "part" and all(x.endswith((".part", ".tmp", ".partial")) for x in left), f"left behind after success: {left[:4]}")


def _known(site, p):
    return p.name.startswith(site.archive.name) or site.dataset in p.parents or site.other() in p.parents or p == site.root / "LibriSpeech/README.TXT"


# ------------------------------------------------------------------ crash points and failing file operations


WATCH = {"open", "os.rename", "os.mkdir", "os.remove", "os.rmdir", "os.chmod", "os.utime", "os.chown", "shutil.rmtree", "shutil.move", "os.link", "os.symlink", "os.truncate"}


@st.composite
def crash_cases(draw):
    kind = draw(st.sampled_from(["cmu", "libri"]))
    start = draw(st.sampled_from(["empty", "empty", "good archive", "good archive", "corrupt archive", "part"]))
    hits = draw(st.lists(st.tuples(st.one_of(st.integers(1, 25), st.integers(1, 60)), st.sampled_from(["crash", "crash", "enospc", "eio"]), st.integers(0, 1), st.booleans()).map(list), min_size=1, max_size=3))
    return dict(kind=kind, big=draw(st.integers(0, 9)) == 0, start=start, hits=hits, attempts=[[]], bad=draw(st.sampled_from(["garbage", "truncated", "zeroed", "flipped"])), frac=draw(st.integers(0, 100)) / 100,
                other=draw(st.booleans()), speaker=None)


def child(site, point, mode, extra, bad_first):
    """One attempt in a forked process that dies (or whose file operation fails) at the given file-system event."""
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid:
        return pid
    code = 7
    try:
        signal.setitimer(signal.ITIMER_REAL, 0)
        root = str(site.root)
        count = 0

        def hook(event, args):
            nonlocal count
            if event not in WATCH:
                return
            path = args[0] if args else None
            if isinstance(path, bytes):
                path = path.decode(errors="replace")
            if not isinstance(path, (str, os.PathLike)) or not str(path).startswith(root):
                return
            if event == "open" and not (args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)):
                return
            count += 1
            if count == point or mode != "crash" and point <= count <= point + extra:
                if mode == "crash":
                    os._exit(9)
                raise OSError(28 if mode == "enospc" else 5, "injected")

        sys.addaudithook(hook)
        plan = [dict(kind="corrupt", how="garbage", frac=0.5)] if bad_first else []
        _, got = attempt(site, plan)
        code = {"ok": 0, "error": 1, "interrupt": 2}[got]
    except BaseException:  # noqa: BLE001
        code = 8
    finally:
        os._exit(code)


def run_crash(case, ctx):
    corpora.quiet_logging()
    root = Path(ctx.scratch()) / "root"
    site = Site(root, case)
    site.prepare()
    bodies = bodies_of(site, case) + [damaged(site.kind, site.big, "garbage", 0.5)]
    hit = False
    for i, (point, mode, extra, bad_first) in enumerate(case["hits"]):
        pid = child(site, point, mode, extra, bad_first)
        _, status = os.waitpid(pid, 0)
        code = os.waitstatus_to_exitcode(status)
        if code in (7, 8) or code < 0:
            raise HarnessError(f"the attempt's process ended with {code}")
        hit |= code != 0
        when = f"after {mode} at file operation {point} of attempt {i + 1}"
        if code == 0:
            require(site.dataset.is_dir() and site.complete(), f"{when}: success reported without the complete dataset")
        site.invariants(when, bodies)
        ctx.label(f"{mode}: " + {9: "died", 0: "finished before", 1: "error", 2: "interrupted"}[code])
    ctx.trivial(not hit)
    server, got = attempt(site, [])
    require(got == "ok", f"a fault-free attempt does not recover: {getattr(server, 'exc', None)!r}")
    require(site.dataset.is_dir() and site.complete(), "recovered without the complete dataset")
    site.invariants("after recovery", bodies)


CHECK = Check(
    "C23",
    [
        Law("faults", cases, run, quick=500, thorough=10000,
            rule="histories of up to three attempts against planned HTTP responses (real http.client parsing) from eleven starting states, then a fault-free attempt"),
        Law("crash", crash_cases, run_crash, quick=250, thorough=6000,
            rule="the process dies, or a file operation fails, at the n-th file-system event below the root (audit hook in a forked process); then recovery"),
    ],
    rule="at least one fault or a pre-existing archive, part file or dataset; crash histories in which at least one injected fault was reached",
    assumptions=["an archive is corrupt when it cannot be read to its end without a checksum or format error (cuts of responses that announce no length are seen only that way)", "corpora are fetched with urllib"],
)
