"""symx: a small symbolic executor for the pure-Python code of dvirg/auctions.

The real functions of /repo are executed by CPython on proxy numbers (terms.Sym) whose values are
linear (or, rarely, nonlinear) expressions over solver variables.  Every branch on a proxy is decided
by z3 (engine.Explorer): both outcomes are followed whenever both are satisfiable.
"""
