"""Create and evaluate planted bugs (development tool; no check reads seeded/).

  plant.py make SPEC.py [NAME...]   build seeded/<id>/ from a spec and validate it in a scratch copy
  plant.py run [--tier T] [NAME...] apply each planted bug to /repo, run its property's check, undo, report
  plant.py par [--tier T] [NAME...] the same in scratch clones of /repo, two at a time, leaving /repo alone
"""

import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
DEMO_SH = '#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec timeout 250 /opt/venv/bin/python "$here/demo.py"\n'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/torchrir/mplconfig")


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, env=ENV, **kw)


def make(spec, names):
    plants = runpy.run_path(spec)["PLANTS"]
    for p in plants:
        if names and p["id"] not in names:
            continue
        d = os.path.join(SEEDED, p["id"])
        work = tempfile.mkdtemp(prefix="plant-")
        try:
            copy = os.path.join(work, "repo")
            subprocess.run(["git", "clone", "-q", "--shared", "/repo", copy], check=True)
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, "demo.py"), "w") as f:
                f.write(p["demo"].lstrip("\n"))
            with open(os.path.join(d, "demo.sh"), "w") as f:
                f.write(DEMO_SH)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            problems = []
            r = sh(["bash", os.path.join(d, "demo.sh")], copy)
            if r.returncode:
                problems.append("demo fails unpatched: " + (r.stderr or r.stdout)[-400:])
            for path, old, new in p["edits"]:
                full = os.path.join(copy, "src/torchrir", path)
                s = open(full).read()
                if s.count(old) < 1:
                    problems.append(f"text not found in {path}: {old[:60]!r}")
                    continue
                with open(full, "w") as f:
                    f.write(s.replace(old, new, 1))
            diff = sh(["git", "diff"], copy).stdout
            with open(os.path.join(d, "patch.diff"), "w") as f:
                f.write(diff)
            r = sh(["bash", os.path.join(d, "demo.sh")], copy)
            if r.returncode == 0:
                problems.append("demo passes patched")
            elif "AssertionError" not in r.stderr:
                problems.append("note: demo fails with " + r.stderr[-200:])
            e = dict(ENV, PYTHONPATH=os.path.join(copy, "src"))
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=copy, capture_output=True, text=True, env=e)
            if "68 passed" not in r.stdout:
                problems.append("tests: " + r.stdout[-300:])
            # at least one removed/changed original line
            added = sh(["git", "diff", "2a4fa17", "HEAD", "-U0", "--", "src"], copy).stdout.splitlines()
            ours = {l[1:].strip() for l in added if l.startswith("+") and not l.startswith("+++")}
            removed = [l[1:].strip() for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
            if any(l in ours and l for l in removed):
                problems.append("touches lines of our own fixes: " + str([l for l in removed if l in ours]))
            with open(os.path.join(d, "meta.json"), "w") as f:
                json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, f, indent=1)
                f.write("\n")
            print(p["id"], "ok" if not problems else "PROBLEM\n   " + "\n   ".join(problems), flush=True)
        finally:
            shutil.rmtree(work, ignore_errors=True)


def run(names, tier):
    for n in sorted(os.listdir(SEEDED)):
        if names and not any(n == x or n.startswith(x + "-") for x in names):
            continue
        prop = json.load(open(os.path.join(SEEDED, n, "meta.json")))["property"]
        patch = os.path.join(SEEDED, n, "patch.diff")
        if sh(["git", "apply", patch], "/repo").returncode:
            print(n, prop, "DOES NOT APPLY", flush=True)
            continue
        try:
            r = sh([sys.executable, "run.py", prop, "--tier", tier], ROOT)
        finally:
            sh(["git", "checkout", "--", "."], "/repo")
        hit = r.returncode == 1 and f"VIOLATION property={prop} " in r.stdout
        law = [l for l in r.stdout.splitlines() if l.startswith("law ")]
        print(n, prop, "CAUGHT" if hit else f"MISSED (exit {r.returncode})", (law[0][:150] if law else ""), flush=True)


def par(names, tier, workers=int(os.environ.get("WORKERS", "2"))):
    from concurrent.futures import ThreadPoolExecutor

    def one(n):
        prop = json.load(open(os.path.join(SEEDED, n, "meta.json")))["property"]
        work = tempfile.mkdtemp(prefix="plant-")
        try:
            copy, verif = os.path.join(work, "repo"), os.path.join(work, "verif")
            subprocess.run(["git", "clone", "-q", "--shared", "/repo", copy], check=True)
            shutil.copytree(ROOT, verif, ignore=shutil.ignore_patterns("seeded", ".git", "evidence", "replays"), symlinks=True)
            if sh(["git", "apply", os.path.join(SEEDED, n, "patch.diff")], copy).returncode:
                print(n, prop, "DOES NOT APPLY", flush=True)
                return
            r = subprocess.run([sys.executable, "run.py", prop, "--tier", tier], cwd=verif, capture_output=True, text=True, env=dict(ENV, VERIF_REPO=copy))
            hit = r.returncode == 1 and f"VIOLATION property={prop} " in r.stdout
            law = [l for l in r.stdout.splitlines() if l.startswith("law ")]
            print(n, prop, "CAUGHT" if hit else f"MISSED (exit {r.returncode})", (law[0][:150] if law else ""), flush=True)
        finally:
            shutil.rmtree(work, ignore_errors=True)

    todo = [n for n in sorted(os.listdir(SEEDED)) if not names or any(n == x or n.startswith(x + "-") for x in names)]
    with ThreadPoolExecutor(workers) as pool:
        list(pool.map(one, todo))


if __name__ == "__main__":
    a = sys.argv[2:]
    if sys.argv[1] == "make":
        make(a[0], a[1:])
    else:
        tier = "quick"
        if "--tier" in a:
            i = a.index("--tier")
            tier = a[i + 1]
            del a[i:i + 2]
        (par if sys.argv[1] == "par" else run)(a, tier)
