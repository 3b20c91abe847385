#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough]: decide one property by symbolic execution of /repo's current source."""
import os
import sys

os.environ.setdefault("PYTHONHASHSEED", "0")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)          # z3; appended, so the repository's own dependencies come from its own environment

from symx.runner import main      # noqa: E402

if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
