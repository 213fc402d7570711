"""Process environment for every check: interpreter, offline dependencies, path to the code under test.

Imported first.  Re-executes under the repository's interpreter when started by another one, unpacks
hypothesis from the offline wheelhouse when it is not importable, and puts /repo/src first on sys.path.
"""

from __future__ import annotations

import glob
import os
import sys
import tempfile
import zipfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV_PY = "/opt/venv/bin/python"
WHEELS = "/opt/veriftools/wheels"
_PINNED_ENV = {
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "MPLBACKEND": "Agg",
    "OMP_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
}


def ensure_interpreter() -> None:
    """Re-exec with the repository's interpreter and a pinned environment."""
    wrong_env = any(os.environ.get(k) != v for k, v in _PINNED_ENV.items())
    wrong_py = os.path.exists(VENV_PY) and os.path.realpath(sys.prefix) != os.path.realpath(
        os.path.dirname(os.path.dirname(VENV_PY))
    )
    if (wrong_env or wrong_py) and os.environ.get("VERIF_REEXEC") != "1":
        env = dict(os.environ, **_PINNED_ENV, VERIF_REEXEC="1")
        for name in ("PYTHONPATH", "PYTHONHOME", "PYTEST_ADDOPTS"):
            env.pop(name, None)
        py = VENV_PY if os.path.exists(VENV_PY) else sys.executable
        os.execve(py, [py, *sys.argv], env)


def _unpack(target: str) -> None:
    tag = f"cp{sys.version_info[0]}{sys.version_info[1]}"
    wanted = [f"hypothesis-*-{tag}-*.whl", "sortedcontainers-*.whl"]
    os.makedirs(os.path.dirname(target), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="deps-", dir=os.path.dirname(target))
    for pattern in wanted:
        hits = sorted(glob.glob(os.path.join(WHEELS, pattern)))
        if not hits:
            raise RuntimeError(f"no wheel {pattern} in {WHEELS}")
        with zipfile.ZipFile(hits[-1]) as zf:
            zf.extractall(tmp)
    try:
        os.rename(tmp, target)
    except OSError:
        if not os.path.isdir(target):
            raise


def ensure_deps() -> None:
    deps = os.path.join(VERIF, ".deps")
    try:
        import hypothesis  # noqa: F401

        return
    except ImportError:
        pass
    if not os.path.isdir(os.path.join(deps, "hypothesis")):
        try:
            _unpack(deps)
        except OSError:
            deps = os.path.join(tempfile.gettempdir(), f"verif-deps-{os.getpid()}", "d")
            _unpack(deps)
    sys.path.append(deps)
    import hypothesis  # noqa: F401,F811


def ensure_repo() -> None:
    src = os.path.join(REPO, "src")
    sys.path[:] = [p for p in sys.path if os.path.realpath(p or ".") != os.path.realpath(src)]
    sys.path.insert(0, src)


def setup() -> None:
    os.environ.setdefault("HYPOTHESIS_STORAGE_DIRECTORY", os.path.join(tempfile.gettempdir(), "verif-hypothesis"))
    ensure_interpreter()
    ensure_deps()
    ensure_repo()
