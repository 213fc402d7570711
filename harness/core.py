"""Generated-input search engine shared by all checks.

A check is a list of laws.  A law has a Hypothesis strategy that generates a *plain JSON* case and a
function that runs the case against the real code and compares with an oracle.  The engine shards the
laws over processes, shrinks any failure, writes the shrunk case as a replay file, and writes evidence.
Exit codes: 0 held, 1 violated (with the VIOLATION line), 2 the check itself failed.
"""

from __future__ import annotations

import hashlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib
from dataclasses import dataclass, field
from typing import Any, Callable

from . import bootstrap

VERIF = bootstrap.VERIF
MAX_SHRINK_S = 45
CASE_LIMIT_S = 240


class Violation(Exception):
    """The property is broken on this case (message says how)."""


class HarnessError(Exception):
    """The harness could not decide; never reported as a violation."""


class Ctx:
    """Per-case recorder: labels, non-triviality and a scratch directory."""

    def __init__(self, scratch_root: str):
        self.labels: dict[str, int] = {}
        self.nontrivial = True
        self._scratch_root = scratch_root
        self._dirs: list[str] = []

    def label(self, *names: str) -> None:
        for name in names:
            self.labels[name] = 1

    def trivial(self, cond: bool = True) -> None:
        if cond:
            self.nontrivial = False

    def scratch(self, form: str = "") -> str:
        """A fresh directory; ``form`` (one of ROOTS) says how it is named or spelled."""
        d = tempfile.mkdtemp(prefix="case-", dir=self._scratch_root)
        self._dirs.append(d)
        if not form:
            return d
        self.label(f"directory: {form}")
        if form == "link":
            os.mkdir(os.path.join(d, "real"))
            os.symlink("real", os.path.join(d, "link"))
            return os.path.join(d, "link")
        if form == "dots":
            os.mkdir(os.path.join(d, "other"))
            os.mkdir(os.path.join(d, "r"))
            return os.path.join(d, "other", "..", "r")
        d = os.path.join(d, ODD_NAMES.get(form, "r"))
        os.mkdir(d)
        return os.path.relpath(d) if form == "relative" else d

    def close(self) -> None:
        for d in self._dirs:
            shutil.rmtree(d, ignore_errors=True)
        self._dirs = []


ODD_NAMES = {"wildcards": "a[1] {x}*?", "spaces": " d é 数 'q' ", "percent": "100%s %(a)s {0}", "long": "n" * 200, "dash": "-rf", "suffix": "speech.v1.wav"}
# most directories are plain
ROOTS = ["", "", "", "", "", "", "link", "dots", "relative", *ODD_NAMES]


@dataclass
class Law:
    name: str
    strategy: Callable[[], Any]
    run: Callable[[Any, Ctx], None]
    quick: int = 200
    thorough: int = 2000
    shards: int | None = None
    examples: list = field(default_factory=list)
    rule: str = ""


@dataclass
class Check:
    id: str
    laws: list[Law]
    rule: str
    assumptions: list[str] = field(default_factory=list)
    level: str = "exploration"
    technique: str = "property-based testing (Hypothesis generators with shrinking)"
    note: str = ""


# ---------------------------------------------------------------- assertions


def require(cond: bool, msg: str | Callable[[], str]) -> None:
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def sut(fn: Callable, *args, **kwargs):
    """Call the code under test on valid input: any exception breaks the property."""
    try:
        return fn(*args, **kwargs)
    except (Violation, HarnessError, KeyboardInterrupt, MemoryError):
        raise
    except Exception as exc:  # noqa: BLE001
        tb = traceback.format_exc(limit=-3)
        raise Violation(
            f"unexpected {type(exc).__name__} on valid input: {exc}\n{tb}"
        ) from exc


def expect_raises(types, fn: Callable, *args, what: str = "", **kwargs) -> Exception:
    """The call must raise one of the documented types."""
    try:
        out = fn(*args, **kwargs)
    except (Violation, HarnessError, KeyboardInterrupt, MemoryError):
        raise
    except types as exc:
        return exc
    except Exception as exc:  # noqa: BLE001
        raise Violation(
            f"{what or 'invalid input'}: raised {type(exc).__name__} ({exc}) instead of {types}"
        ) from exc
    raise Violation(f"{what or 'invalid input'}: accepted, returned {str(type(out))}")


# ---------------------------------------------------------------- execution


class _Timeout(BaseException):
    pass


def _alarm(_sig, _frm):
    raise _Timeout()


def run_case(law: Law, case: Any, scratch_root: str) -> Ctx:
    """Run one case; raises Violation or any harness error."""
    from . import reset

    ctx = Ctx(scratch_root)
    reset.before_case()
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT_S)
    try:
        law.run(case, ctx)
        return ctx
    except _Timeout:
        raise Violation(f"no result within {CASE_LIMIT_S} s on a case that takes well under a second") from None
    except (Violation, HarnessError, MemoryError, ImportError):
        raise
    except Exception as exc:  # noqa: BLE001
        # The oracles never raise on results of the documented form.
        tb = traceback.format_exc(limit=-4)
        raise Violation(f"result not of the documented form ({type(exc).__name__}: {exc})\n{tb}") from exc
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        ctx.close()
        reset.after_case()


def _canon(case: Any) -> str:
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def _case_hash(law: str, case: Any) -> bytes:
    return hashlib.blake2b((law + _canon(case)).encode(), digest_size=8).digest()


def _shard_seed(seed: int, check_id: str, law: str, shard: int) -> int:
    return zlib.crc32(f"{seed}|{check_id}|{law}|{shard}".encode())


def run_shard(check: Check, law: Law, n: int, seed: int, shard: int, deadline: float) -> dict:
    """Search one law; returns counters and possibly a shrunk failure."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine

    engine.MAX_SHRINKING_SECONDS = MAX_SHRINK_S
    scratch = tempfile.mkdtemp(prefix=f"verif-{check.id}-")
    res: dict[str, Any] = dict(
        law=law.name, evaluations=0, hashes=set(), labels={}, samples=[], failure=None,
        error=None, skipped=0, gen_distinct=set(),
    )
    last: dict[str, Any] = {}
    history: list = []
    state = {"failed": False}

    def body(case):
        case = json.loads(_canon(case))
        if time.time() > deadline and not state["failed"]:
            res["skipped"] += 1
            return
        if not state["failed"]:
            res["evaluations"] += 1
            history.append(case)
        if _NOTE:
            with open(_NOTE, "w", encoding="utf-8") as f:
                f.write(_canon(case))
        try:
            ctx = run_case(law, case, scratch)
        except Violation as exc:
            state["failed"] = True
            last["case"], last["msg"] = case, str(exc)
            raise
        if state["failed"]:
            return
        h = _case_hash(law.name, case)
        res["gen_distinct"].add(h)
        for k in ctx.labels:
            res["labels"][k] = res["labels"].get(k, 0) + 1
        if ctx.nontrivial:
            if h not in res["hashes"] and len(res["samples"]) < 2:
                res["samples"].append(case)
            res["hashes"].add(h)

    try:
        if shard == 0:
            for ex in law.examples:
                body(ex)
        test = settings(
            max_examples=max(1, n), database=None, deadline=None, derandomize=False,
            report_multiple_bugs=False, print_blob=False,
            phases=(Phase.generate, Phase.target, Phase.shrink),
            suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                   HealthCheck.large_base_example],
        )(hypothesis.seed(_shard_seed(seed, check.id, law.name, shard))(given(law.strategy())(body)))
        test()
    except Violation as exc:
        res["failure"] = dict(law=law.name, case=last["case"], msg=str(exc))
    except BaseException as exc:  # noqa: BLE001
        if state["failed"] and type(exc).__name__ in (
            "Flaky", "FlakyFailure", "FlakyReplay", "FlakyStrategyDefinition", "ExceptionGroup", "BaseExceptionGroup",
        ):
            # The failure was observed on the real code but depends on earlier calls in the process.
            res["failure"] = dict(law=law.name, history=history[-400:], case=last["case"], msg=last["msg"]
                                  + "\n(observed after the recorded history of calls; not reproduced in isolation)")
        else:
            res["error"] = "".join(traceback.format_exception(exc))
            if isinstance(exc, (KeyboardInterrupt, SystemExit)):
                res["error"] = "interrupted\n" + res["error"]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return res


def _worker(args):
    check_id, law_name, n, seed, shard, deadline = args
    check = _CHECKS[check_id]
    law = next(x for x in check.laws if x.name == law_name)
    try:
        return run_shard(check, law, n, seed, shard, deadline)
    except BaseException as exc:  # noqa: BLE001
        return dict(law=law_name, evaluations=0, hashes=set(), labels={}, samples=[], failure=None,
                    error="".join(traceback.format_exception(exc)), skipped=0, gen_distinct=set())


def _child(args, conn, note: str) -> None:
    global _NOTE
    _NOTE = note
    conn.send(_worker(args))
    conn.close()


def _run_all(tasks: list, cpu: int) -> list[dict]:
    """One forked process per shard, at most ``cpu`` at a time; a shard whose process dies still gets an answer."""
    from multiprocessing.connection import wait

    mpc = mp.get_context("fork")
    notes = tempfile.mkdtemp(prefix="verif-notes-")
    waiting = list(enumerate(tasks))[::-1]
    running: dict = {}
    results: list = [None] * len(tasks)
    try:
        while waiting or running:
            while waiting and len(running) < cpu:
                i, task = waiting.pop()
                ours, theirs = mpc.Pipe(duplex=False)
                p = mpc.Process(target=_child, args=(task, theirs, os.path.join(notes, str(i))))
                p.start()
                theirs.close()
                running[ours] = (i, task, p)
            for conn in wait(list(running)):
                i, task, p = running.pop(conn)
                try:
                    results[i] = conn.recv()
                except EOFError:
                    p.join()
                    results[i] = _dead(task, p.exitcode, os.path.join(notes, str(i)))
                conn.close()
                p.join()
    finally:
        for _, _, p in running.values():
            p.kill()
        shutil.rmtree(notes, ignore_errors=True)
    return results


def _dead(task, code: int, note: str) -> dict:
    res = dict(law=task[1], evaluations=0, hashes=set(), labels={}, samples=[], failure=None, error=None, skipped=0, gen_distinct=set())
    if code in (-signal.SIGKILL, -signal.SIGTERM, -signal.SIGINT) or not os.path.exists(note):
        # ended from outside (memory, a stop): nothing is known about its cases
        print(f"{task[0]} {task[1]}: a shard was ended from outside ({code})", file=sys.stderr)
        res["skipped"] = task[2]
        if not os.path.exists(note) and code not in (-signal.SIGKILL, -signal.SIGTERM, -signal.SIGINT):
            res["error"] = f"shard exited with {code} before its first case"
        return res
    with open(note, encoding="utf-8") as f:
        case = json.load(f)
    res["evaluations"] = 1
    res["failure"] = dict(law=task[1], case=case, msg=f"the interpreter died (exit code {code}) in this case")
    return res


_NOTE: str | None = None
_CHECKS: dict[str, Check] = {}


def known_findings(prop: str) -> list[dict]:
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path, encoding="utf-8") as f:
        data = json.load(f)
    return [x for x in data.get("findings", []) if x["property"] == prop]


def write_replay(check: Check, failure: dict) -> str:
    d = os.path.join(VERIF, "replays")
    try:
        os.makedirs(d, exist_ok=True)
    except OSError:
        d = tempfile.mkdtemp(prefix="replays-")
    tag = hashlib.blake2b(_canon(failure).encode(), digest_size=4).hexdigest()
    path = os.path.join(d, f"{check.id}-{failure['law']}-{tag}.json")
    with open(path, "w", encoding="utf-8") as f:
        json.dump(dict(property=check.id, **failure), f, indent=1)
    return path


def replay(check: Check, path: str) -> int:
    with open(path, encoding="utf-8") as f:
        data = json.load(f)
    law = next(x for x in check.laws if x.name == data["law"])
    scratch = tempfile.mkdtemp(prefix=f"verif-{check.id}-")
    try:
        for case in data.get("history", []) + [data["case"]]:
            try:
                run_case(law, case, scratch)
            except Violation as exc:
                print(str(exc))
                print(f"VIOLATION property={check.id} replay={path}")
                return 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print(f"replay passed: {path}")
    return 0


def run_check(check: Check, tier: str, seed: int) -> int:
    t0 = time.time()
    _CHECKS[check.id] = check
    budget = float(os.environ.get("VERIF_BUDGET_S", "420" if tier == "quick" else "3000"))
    deadline = t0 + budget
    cpu = min(8, os.cpu_count() or 1)
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    # Known findings: each must still fail in its own recorded way; reported, never suppressed wholesale.
    findings = known_findings(check.id)
    finding_lines = []
    for item in findings:
        law = next(x for x in check.laws if x.name == item["law"])
        scratch = tempfile.mkdtemp(prefix=f"verif-{check.id}-")
        try:
            run_case(law, item["case"], scratch)
        except Violation:
            finding_lines.append(f"KNOWN-FINDING: property={check.id} {item['what']}")
        finally:
            shutil.rmtree(scratch, ignore_errors=True)

    tasks = []
    for law in check.laws:
        total = max(1, int((law.quick if tier == "quick" else law.thorough) * scale))
        shards = law.shards or max(1, min(cpu, total // 25))
        for s in range(shards):
            tasks.append((check.id, law.name, max(1, total // shards), seed, s, deadline))
    # Long laws first so that the pool drains evenly; order does not affect results.
    if os.environ.get("VERIF_SERIAL") == "1" or len(tasks) == 1:
        results = [_worker(t) for t in tasks]
    else:
        results = _run_all(tasks, cpu)

    per_law: dict[str, dict] = {}
    failures, errors = [], []
    for r in results:
        agg = per_law.setdefault(r["law"], dict(evaluations=0, hashes=set(), labels={}, samples=[], skipped=0))
        agg["evaluations"] += r["evaluations"]
        agg["hashes"] |= r["hashes"]
        agg["skipped"] += r["skipped"]
        for k, v in r["labels"].items():
            agg["labels"][k] = agg["labels"].get(k, 0) + v
        if len(agg["samples"]) < 2:
            agg["samples"].extend(r["samples"][: 2 - len(agg["samples"])])
        if r["failure"]:
            failures.append(r["failure"])
        if r["error"]:
            errors.append((r["law"], r["error"]))

    failures.sort(key=lambda f: (len(_canon(f["case"])) + (10**6 if "history" in f else 0), f["law"]))
    samples = [dict(law=name, case=s) for name, a in per_law.items() for s in a["samples"][:1]]
    evidence = dict(
        property=check.id, tier=tier, seed=seed, level=check.level,
        coverage=dict(
            evaluations=sum(a["evaluations"] for a in per_law.values()),
            distinct_nontrivial=sum(len(a["hashes"]) for a in per_law.values()),
            rule=check.rule,
            samples=samples,
            laws={name: dict(evaluations=a["evaluations"], distinct_nontrivial=len(a["hashes"]),
                             classes=dict(sorted(a["labels"].items())), inconclusive=a["skipped"])
                  for name, a in per_law.items()},
            law_rules={law.name: law.rule for law in check.laws if law.rule},
            known_findings=len(finding_lines),
        ),
        assumptions=check.assumptions,
        wall_s=round(time.time() - t0, 2),
        violations=len(failures),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", f".{check.id}.{os.getpid()}.tmp")
    with open(tmp, "w", encoding="utf-8") as f:
        json.dump(evidence, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{check.id}.json"))

    for line in finding_lines:
        print(line)
    for name, a in per_law.items():
        print(f"{check.id} {name}: {a['evaluations']} cases, {len(a['hashes'])} distinct non-trivial"
              + (f", {a['skipped']} not reached in the time budget" if a["skipped"] else ""))
    if failures:
        f = failures[0]
        path = write_replay(check, f)
        print(f"law {f['law']}: {f['msg']}")
        print("case: " + _canon(f["case"])[:2000])
        print(f"VIOLATION property={check.id} replay={path}")
        return 1
    if errors:
        for name, err in errors[:1]:
            print(f"harness error in law {name}:\n{err[-3000:]}", file=sys.stderr)
        return 2
    return 0
