"""python3 run.py <PROPERTY> [--tier quick|thorough] [--replay FILE]"""

import argparse
import importlib
import os
import sys
import tempfile
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from harness import bootstrap  # noqa: E402

bootstrap.setup()


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--replay")
    ap.add_argument("--law", help="restrict to one law (development)")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"

    with tempfile.TemporaryDirectory(prefix="verif-mpl-") as mpl:
        os.environ["MPLCONFIGDIR"] = mpl
        from harness import core

        try:
            import torch

            torch.set_num_threads(1)
            module = importlib.import_module(f"harness.checks.{a.property.lower()}")
        except Exception:
            # A tree whose package does not even import has no behaviour to judge.
            traceback.print_exc()
            return 2
        import torchrir

        root = os.path.realpath(os.path.join(bootstrap.REPO, "src", "torchrir"))
        if os.path.realpath(os.path.dirname(torchrir.__file__)) != root:
            print(f"wrong torchrir imported: {torchrir.__file__}", file=sys.stderr)
            return 2
        check = module.CHECK
        if a.law:
            check.laws = [x for x in check.laws if x.name == a.law]
        if a.replay:
            return core.replay(check, a.replay)
        return core.run_check(check, tier, a.seed)


if __name__ == "__main__":
    try:
        code = main()
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
