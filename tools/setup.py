"""Unpack hypothesis from the offline wheelhouse and confirm that the code under test imports."""

import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from harness import bootstrap  # noqa: E402

bootstrap.setup()
import hypothesis  # noqa: E402

print("hypothesis", hypothesis.__version__, "python", sys.version.split()[0])
