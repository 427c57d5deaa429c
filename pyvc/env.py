"""Process set-up shared by all checks: paths, scratch cache, determinism."""
from __future__ import annotations

import atexit
import os
import shutil
import sys
import tempfile

REPO = os.environ.get("PYVC_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.join(REPO, "src")
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

sys.dont_write_bytecode = True
if SRC in sys.path:
    sys.path.remove(SRC)
sys.path.insert(0, SRC)
if _VT not in sys.path:
    sys.path.append(_VT)  # z3, cvc5 (everything else comes from /opt/venv)

SCRATCH = tempfile.mkdtemp(prefix="pyvc-")
atexit.register(shutil.rmtree, SCRATCH, ignore_errors=True)
os.environ["COMPWA_CACHE_DIR"] = os.path.join(SCRATCH, "cache")
os.environ["XDG_CACHE_HOME"] = os.path.join(SCRATCH, "xdg")
os.environ.setdefault("JAX_PLATFORMS", "cpu")

import ampform_dpd  # noqa: E402

if not os.path.abspath(ampform_dpd.__file__).startswith(os.path.abspath(SRC) + os.sep):
    raise SystemExit(f"ampform_dpd is not imported from {SRC}: {ampform_dpd.__file__}")
