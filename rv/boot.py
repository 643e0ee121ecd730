"""Import the code under test from /repo's current working tree, never from a stale byte code cache."""
from __future__ import annotations

import os
import sys

REPO = os.environ.get("RV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.dont_write_bytecode = True
# a prefix that holds nothing: only sources are ever executed
sys.pycache_prefix = "/nonexistent/rv-pycache"

# drop an installed finder/location in favour of the working tree
sys.path.insert(0, REPO)
for _name in [m for m in sys.modules if m == "dissect" or m.startswith("dissect.")]:
    del sys.modules[_name]

import dissect.cstruct as _pkg  # noqa: E402

if not os.path.realpath(_pkg.__file__).startswith(os.path.realpath(REPO) + os.sep):
    raise SystemExit(f"harness error: dissect.cstruct imported from {_pkg.__file__}, not from {REPO}")

PKG_DIR = os.path.dirname(os.path.realpath(_pkg.__file__)) + os.sep

from dissect.cstruct import cstruct  # noqa: E402,F401
from dissect.cstruct import compiler  # noqa: E402,F401
