"""C22: archive extraction never escapes the destination and never half-accepts."""

import io
import os
from pathlib import Path
import stat
import tarfile

from hypothesis import strategies as st

from .. import corpora
from ..core import Check, HarnessError, Law, Violation, require

# Every path in a case climbs at most 3 levels per component group, and the tree hangs DEPTH directories below the
# scratch directory, so that even code that extracts anything cannot reach beyond it.
DEPTH = 40
COMP = ["a", "b", "c", "wav", "f.txt", "ünï", "with space", "in", "out", "cut", "name.part", "DATA"]


def comps():
    return st.one_of(st.sampled_from(COMP), st.sampled_from(COMP), st.sampled_from(["in", "out", "up", "DATA", "filelink", "dangling", "hop"]))


@st.composite
def names(draw):
    parts = [draw(comps()) for _ in range(draw(st.integers(1, 4)))]
    kind = draw(st.sampled_from(["plain"] * 6 + ["dots", "dots", "lead", "lead", "abs out", "abs in", "sibling", "self", "odd"]))
    if kind == "dots":
        parts.insert(draw(st.integers(0, len(parts))), "..")
        if draw(st.booleans()):
            parts.insert(draw(st.integers(0, len(parts))), "..")
    elif kind == "lead":
        parts = [".."] * draw(st.integers(1, 3)) + parts
    elif kind == "sibling":
        parts = ["..", "<dest>" + draw(st.sampled_from(["-evil", "2", "x/", ".bak"]))] + parts
    elif kind == "self":
        parts = ["..", "<dest>"] + parts
    name = "/".join(parts)
    if kind == "abs out":
        name = "<root>/outside/" + name
    elif kind == "abs in":
        name = "<root>/<dest>/" + name
    elif kind == "odd":
        name = draw(st.sampled_from(["./", ".//", "a//../", "./a/./"])) + name
    return name


def targets():
    return st.sampled_from(["a", "b", "c/wav", "..", "../outside", "../../..", "<root>/outside", "<root>/outside/new", "../outside/keep.txt", "missing", "../outside/missing", "<root>/<dest>/c", "f.txt", "a/f.txt", "."])


@st.composite
def cases(draw):
    members = []
    for _ in range(draw(st.integers(1, 6))):
        kind = draw(st.sampled_from(["file"] * 10 + ["dir"] * 3 + ["sym", "hard"]))
        if kind in ("sym", "hard") and draw(st.booleans()):
            kind = "file"
        members.append(dict(kind=kind, name=draw(names()), data=draw(st.integers(0, 3000)), seed=draw(st.integers(0, 99)), link=draw(targets()), mode=draw(st.sampled_from([0o644, 0o755, 0o600]))))
    if draw(st.booleans()):
        for m in members:
            m["name"] = "DATA/" + m["name"].replace("../", "").replace("<root>/", "").replace("<dest>", "d").lstrip("/") if draw(st.integers(0, 6)) else m["name"]
            m["kind"] = m["kind"] if m["kind"] in ("file", "dir") else draw(st.sampled_from(["file", m["kind"]]))
    pre = []
    for _ in range(draw(st.integers(0, 4))):
        pre.append(dict(kind=draw(st.sampled_from(["sym", "sym", "sym", "file", "dir"])), name=draw(st.sampled_from(["in", "out", "up", "a", "b", "c", "a/in", "c/wav", "filelink", "dangling", "hop", "f.txt", "LibriSpeech", "a/f.txt"])),
                        target=draw(targets())))
    pick = draw(st.integers(0, 9))
    if pick < 3:
        pre = []
    elif pick < 5:
        pre = [dict(kind="sym", name="in", target="a"), dict(kind="dir", name="a", target="")] + pre[:1]
    elif pick < 7:
        pre = [dict(kind="sym", name=members[0]["name"].split("/")[0] if not members[0]["name"].startswith(("<", ".")) else "out", target=draw(st.sampled_from(["../outside", "<root>/outside", "../outside/keep.txt"])))] + pre[:1]
    pad = draw(st.sampled_from([1500, 30, 300])) if draw(st.integers(0, 14)) == 9 else 0
    return dict(members=members, pad=pad, pre=pre, via=draw(st.sampled_from(["cmu", "libri", "function"])), spelled=draw(st.sampled_from(["", "", "", "relative", "dots", "link"])), format=draw(st.sampled_from(["gnu", "pax"])), speaker=draw(st.sampled_from(["bdl", "slt"])),
                subset=draw(st.sampled_from(["dev-clean", "test-other"])))


def snapshot(root, skip=None):
    out = {}
    for d, dirs, files in os.walk(root):
        if skip and Path(d) == skip:
            dirs[:] = []
            continue
        for n in dirs + files:
            p = os.path.join(d, n)
            s = os.lstat(p)
            rel = os.path.relpath(p, root)
            if stat.S_ISLNK(s.st_mode):
                out[rel] = ("link", os.readlink(p))
            elif stat.S_ISDIR(s.st_mode):
                out[rel] = ("dir", stat.S_IMODE(s.st_mode))
            else:
                out[rel] = ("file", stat.S_IMODE(s.st_mode), s.st_size, Path(p).read_bytes())
    return out


def content(m):
    return bytes((m["seed"] * 31 + i * 7 + i // 251) % 256 for i in range(m["data"]))


def pack(case, path, sub, data_dir):
    fmt = {"gnu": tarfile.GNU_FORMAT, "pax": tarfile.PAX_FORMAT}[case["format"]]
    mode = {"cmu": "w:bz2", "libri": "w:gz", "function": "w"}[case["via"]]
    out = []
    with tarfile.open(path, mode, format=fmt) as tar:
        for m in case["members"]:
            name = sub(m["name"]).replace("DATA", data_dir)
            info = tarfile.TarInfo(name)
            info.mode = m["mode"] if m["kind"] != "dir" else 0o755
            info.mtime = 1000000
            if m["kind"] == "file":
                data = content(m)
                info.size = len(data)
                tar.addfile(info, io.BytesIO(data))
            else:
                info.type = {"dir": tarfile.DIRTYPE, "sym": tarfile.SYMTYPE, "hard": tarfile.LNKTYPE}[m["kind"]]
                if m["kind"] in ("sym", "hard"):
                    info.linkname = sub(m["link"])
                tar.addfile(info)
            # what a reader of the archive sees
            out.append((m["kind"], name, content(m) if m["kind"] == "file" else None))
    return out


def lexical(name):
    """Components after '.', '//' are dropped; None when absolute or leaving the start at any prefix."""
    if name.startswith("/"):
        return None
    parts = []
    for p in name.split("/"):
        if p in ("", "."):
            continue
        if p == "..":
            if not parts:
                return None
            parts.pop()
        else:
            parts.append(p)
    return parts


def run(case, ctx):
    from torchrir.datasets import CmuArcticDataset, LibriSpeechDataset

    corpora.quiet_logging()
    if case.get("pad"):
        filler = [dict(kind="file", name=f"DATA/pad/f{i}", data=1, seed=i, link="", mode=0o644) for i in range(case["pad"])]
        case = dict(case, members=filler + case["members"])
    top = Path(ctx.scratch())
    base = top
    for i in range(DEPTH):
        base = base / "d"
    via = case["via"]
    dest_name = {"cmu": "ARCTIC", "libri": "root", "function": "dest"}[via]
    dest = base / dest_name
    dest.mkdir(parents=True)
    outside = base / "outside"
    outside.mkdir()
    (outside / "keep.txt").write_text("keep me")
    (outside / "a").mkdir()
    for extra in ("-evil", "2", ".bak"):
        (base / (dest_name + extra)).mkdir()
    data_dir = {"cmu": f"cmu_us_{case['speaker']}_arctic", "libri": f"LibriSpeech/{case['subset']}", "function": "DATA"}[via]

    def sub(s):
        return s.replace("<root>", str(base)).replace("<dest>", dest_name)

    has_link = False
    for p in case["pre"]:
        path = dest / p["name"]
        if path.parent != dest and not path.parent.is_dir() or os.path.lexists(path):
            continue
        if os.path.realpath(path.parent) != str(path.parent.absolute()) and path.parent.is_symlink():
            continue
        try:
            if p["kind"] == "sym":
                os.symlink(sub(p["target"]), path)
                if os.path.realpath(path) == str(path) or _loops(path):
                    os.unlink(path)
                    continue
                has_link = True
            elif p["kind"] == "dir":
                path.mkdir()
            else:
                path.write_text("old " + p["name"])
        except OSError:
            continue
    # links made later may close a loop through earlier ones
    for d, dirs, files in os.walk(dest):
        for n in dirs + files:
            if os.path.islink(os.path.join(d, n)) and _loops(Path(d) / n):
                return ctx.trivial()
    archive = {"cmu": dest / f"cmu_us_{case['speaker']}_arctic.tar.bz2", "libri": dest / f"{case['subset']}.tar.gz", "function": base / "x.tar"}[via]
    members = pack(case, archive, sub, data_dir)
    if via != "function" and (dest / data_dir).exists():
        return ctx.trivial()
    # the same destination as a caller may spell it
    if case.get("spelled") == "link":
        os.symlink(base, top / "alias")
    s_base = {"relative": Path(os.path.relpath(base)), "dots": base / "outside" / "..", "link": top / "alias"}.get(case.get("spelled"), base)
    s_dest = s_base / dest_name
    ctx.label(f"destination {case.get('spelled') or 'plain'}")
    before_out = snapshot(top, skip=dest)
    before_in = snapshot(dest)

    links = any(k in ("sym", "hard") for k, _, _ in members)
    real_dest = os.path.realpath(dest)
    escapes = [n for _, n, _ in members if not _inside(os.path.realpath(os.path.join(real_dest, n)), real_dest)]
    lex = [lexical(n) for _, n, _ in members]
    odd = any(p is None for p in lex) or any(".." in n.split("/") for _, n, _ in members) and has_link
    reject = links or bool(escapes)

    exc = None
    with corpora.no_network() as net:
        try:
            if via == "cmu":
                CmuArcticDataset(s_base, speaker=case["speaker"], download=True)
            elif via == "libri":
                LibriSpeechDataset(s_dest, subset=case["subset"], download=True)
            else:
                from torchrir.datasets import _archive

                with tarfile.open(archive) as tar:
                    _archive.safe_extractall(tar, s_dest)
        except ImportError:
            if via == "function":
                return ctx.trivial()
            raise
        except AttributeError:
            if via == "function" and not hasattr(__import__("torchrir.datasets._archive", fromlist=["x"]), "safe_extractall"):
                return ctx.trivial()
            raise
        except Exception as e:  # noqa: BLE001
            exc = e

    after_out = snapshot(top, skip=dest)
    if after_out != before_out:
        diff = [k for k in sorted(set(before_out) | set(after_out)) if before_out.get(k) != after_out.get(k)]
        raise Violation(f"{via}: extraction changed {[d.replace('d/' * DEPTH, '') for d in diff][:4]} outside the destination")
    ctx.label(via, "links in the archive" if links else "escaping member" if escapes else "re-entering names" if odd else "ordinary", "links in place" if has_link else "no links in place")
    after_in = snapshot(dest)
    if reject:
        what = "a link" if links else f"member {escapes[0]!r} leaving the destination"
        require(isinstance(exc, ValueError), f"{via}: archive with {what}: {type(exc).__name__ if exc else 'accepted'} ({exc}), not ValueError")
        require(after_in == before_in, lambda: f"{via}: archive with {what} rejected after writing {[k for k in after_in if after_in[k] != before_in.get(k)][:4]}")
        return
    if odd and exc is not None:
        # neither clearly inside nor outside: refusing is fine, but then wholly
        require(not isinstance(exc, ValueError) or after_in == before_in, f"{via}: refused after writing")
        return
    # the tree the archive describes, if it describes one
    tree, ok = {}, not odd
    for (kind, name, data), parts in zip(members, lex):
        if not ok:
            break
        for i in range(1, len(parts)):
            if tree.get(tuple(parts[:i]), "dir") != "dir":
                ok = False
            tree.setdefault(tuple(parts[:i]), "dir")
        key = tuple(parts)
        if not parts:
            ok = ok and kind == "dir"
        elif kind == "dir":
            ok = ok and tree.get(key, "dir") == "dir"
            tree[key] = "dir"
        else:
            ok = ok and tree.get(key) != "dir"
            tree[key] = data
    # ".." across a directory that nothing creates is not a path
    for _, name, _ in members:
        if ".." in name.split("/"):
            ok = False
    for key, want in tree.items():
        p = dest.joinpath(*key)
        rel = "/".join(key)
        if os.path.lexists(p) and rel not in before_in and not _parent_link(dest, key):
            continue
        if rel in before_in and (before_in[rel][0] == "link" and not _linked_dir(before_in, dest, rel, want)
                                 or (before_in[rel][0] == "file") == (want == "dir")):
            ok = False
        q = dest
        for c in key[:-1]:
            q = q / c
            r = str(q.relative_to(dest))
            if r in before_in and before_in[r][0] == "file" or q.is_symlink() and not q.is_dir():
                ok = False
        if _parent_link(dest, key) and p.is_symlink():
            ok = False
    if not ok:
        ctx.label("no consistent tree")
        return
    ready = any(tuple(data_dir.split("/")) == k[:len(data_dir.split("/"))] for k in tree) if via != "function" else True
    if exc is not None and not (isinstance(exc, FileNotFoundError) and not ready):
        raise Violation(f"{via}: ordinary archive refused: {type(exc).__name__}: {exc}")
    require(not net.attempts, f"network access {net.attempts} although the archive is present")
    for key, want in tree.items():
        p = dest.joinpath(*key)
        if want == "dir":
            require(p.is_dir(), f"{via}: directory {'/'.join(key)} not extracted")
        else:
            require(p.is_file() and p.read_bytes() == want, f"{via}: {'/'.join(key)} is not extracted with its contents")
    if not has_link:
        known = {"/".join(k) for k in tree} | set(before_in)
        require(set(after_in) <= known, f"{via}: extraction created {sorted(set(after_in) - known)[:4]}")
        kept = [k for k in before_in if tuple(k.split("/")) not in tree and after_in.get(k) != before_in[k]]
        require(not kept, f"{via}: extraction changed {kept[:4]}, which the archive does not contain")
    ctx.label("extracted")


def _loops(path):
    seen = 0
    p = str(path)
    try:
        os.stat(p)
        return False
    except OSError as e:
        import errno

        return e.errno == errno.ELOOP
    return seen > 20


def _inside(p, root):
    return p == root or p.startswith(root + os.sep)


def _parent_link(dest, key):
    q = dest
    for c in key[:-1]:
        q = q / c
        if q.is_symlink():
            return True
    return False


def _linked_dir(before, dest, rel, want):
    """An existing link that leads to a directory inside can stand for a directory member."""
    return want == "dir" and (dest / rel).is_dir()


CHECK = Check(
    "C22",
    [Law("extract", cases, run, quick=1200, thorough=25000,
         rule="archives of files, directories and links with ordinary, climbing, absolute and prefix-sibling names, over destinations that already hold links, through both dataset classes and the extraction helper")],
    rule="distinct archives over a destination where extraction is attempted",
    assumptions=["members are regular files, directories and links; absolute names and names that leave the destination and re-enter it may be refused or extracted",
                 "the scratch tree hangs 40 directories deep and names climb at most 3 levels per step, so nothing a case names lies outside the scratch directory"],
)
