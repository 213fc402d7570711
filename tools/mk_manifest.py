"""Regenerate MANIFEST.json from the check modules (run from /verif: python3 tools/mk_manifest.py)."""

import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from harness import bootstrap  # noqa: E402

bootstrap.setup()

props = [json.loads(line)["id"] for line in open(os.path.join(ROOT, "properties.jsonl"))]
checks, missing = [], []
for pid in props:
    if not os.path.exists(os.path.join(ROOT, "harness", "checks", f"{pid.lower()}.py")):
        missing.append(dict(property=pid, reason="check not built yet"))
        continue
    c = importlib.import_module(f"harness.checks.{pid.lower()}").CHECK
    checks.append(dict(property=pid, quick_cmd=f"python3 run.py {pid} --tier quick",
                       thorough_cmd=f"python3 run.py {pid} --tier thorough",
                       technique=c.technique, level=c.level, level_note=c.note or c.rule))
out = dict(
    version=1,
    setup_cmd="python3 tools/setup.py",
    checks=checks,
    not_applicable=missing,
    notes="No hooks: every check observes the public API of /repo/src imported from the current working tree.",
)
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(missing), "missing")
