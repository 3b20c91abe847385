#!/bin/bash
# Nothing to build: checks that the interpreter, z3 and the engine work together.
cd "$(dirname "$0")" && exec /opt/venv/bin/python -W ignore -c '
import sys; sys.dont_write_bytecode = True
sys.path.insert(0, "."); sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3, symx.runner, symx.engine
from symx.engine import Explorer
e = Explorer(lambda e: e.check(e.assume(e.var("x", "real") > 1) or e.var("x", "real") * 2 > 2, "self-test"), [])
kind, info = e.explore(10, lambda e: None)
assert kind == "done", (kind, info)
print("ready: z3", z3.get_version_string())
'
