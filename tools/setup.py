"""Setup: the framework is pure Python; check that what it needs is there (nothing is built or written)."""
import os
import shutil
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import core  # noqa: F401  (imports z3 from the tooling venv)
import numpy

print("python", sys.version.split()[0], "numpy", numpy.__version__, "z3", core.z3.get_version_string(), "cvc5", shutil.which("cvc5"))
