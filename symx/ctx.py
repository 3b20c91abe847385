"""What a harness sees: one interface for symbolic exploration and for replaying concrete values on the real code."""
import logging
import math
import os
import re
import sys
from fractions import Fraction

from . import terms
from .terms import And, Not, Or, Sym, SymBool
from .loader import Loader, REPO

INF = float("inf")


def _clear_handlers():
    for lg in logging.Logger.manager.loggerDict.values():
        if isinstance(lg, logging.Logger) and lg.handlers:
            lg.handlers.clear()


class SymCtx:
    """One path of the symbolic execution. Comparisons are exact; values are unbounded-precision reals."""
    symbolic = True

    def __init__(self, explorer, repo=None):
        self.e = explorer
        self.repo = repo
        self.loader = Loader(repo=repo)
        self.covered = set()

    # --- code under test
    def override(self, modules):
        """Replace library modules (randomness, tables, ...) by stand-ins for this run; call before load."""
        self.loader.overrides.update(modules)

    def load(self, name, file=None):
        return self.loader.load(name, file and os.path.join(self.loader.repo, file))

    def fresh(self):
        """From now on modules are loaded anew, as in a new process."""
        self.loader = Loader(repo=self.loader.repo, overrides=self.loader.overrides)

    # --- inputs
    def real(self, name, lo=None, hi=None):
        return self._var(name, "real", lo, hi)

    def int(self, name, lo=None, hi=None):
        return self._var(name, "int", lo, hi)

    def _var(self, name, kind, lo, hi):
        x = self.e.var(name, kind)
        if lo is not None:
            self.e.assume(x >= lo)
        if hi is not None:
            self.e.assume(x <= hi)
        return x

    def choose(self, name, lo, hi):
        """An integer variable whose value is fixed by forking: a plain int on every path."""
        x = self.int(name, lo, hi)
        for k in range(lo, hi):
            if x == k:
                return k
        return hi

    def assume(self, c):
        self.e.assume(c)

    def check(self, c, label):
        self.e.check(c, label)

    def fail(self, label):
        self.e.check(False, label)

    def cover(self, label):
        self.covered.add(label)

    def observe(self, name, value):
        self.e.observed.append((name, value))

    def flush(self):
        self.e.flush()

    def exponents(self):
        """From now on small numbers are written with an exponent, as floats are."""
        self.e.exponents = True

    def number_of_token(self, text):
        """The symbolic value that this piece of printed text stands for (None if it is not such a token)."""
        t = text.strip()
        if len(t) > 2 and t[0] == "\u27e6" and t[-1] == "\u27e7" and t[1:-1].isdigit():
            return self.e.tokens[int(t[1:-1])]
        return parse_number(t)

    # --- conditions
    eq = staticmethod(lambda a, b: a == b if isinstance(a, Sym) or not isinstance(b, Sym) else b == a)
    ne = staticmethod(lambda a, b: Not(SymCtx.eq(a, b)))
    le = staticmethod(lambda a, b: a <= b)
    lt = staticmethod(lambda a, b: a < b)
    ge = staticmethod(lambda a, b: a >= b)
    gt = staticmethod(lambda a, b: a > b)
    And = staticmethod(And)
    Or = staticmethod(Or)
    Not = staticmethod(Not)

    @staticmethod
    def implies(a, b):
        return Or(Not(a), b)

    def all_eq(self, xs, ys):
        """Two number sequences are equal, position by position."""
        xs, ys = list(xs), list(ys)
        if len(xs) != len(ys):
            return False
        return And(*[self.eq(a, b) for a, b in zip(xs, ys)])


def parse_number(text):
    """A printed number: 3, 3.5, 7/2 or Fraction(7, 2); None if it is none of these."""
    t = text.strip()
    m = re.fullmatch(r"Fraction\((-?\d+), (\d+)\)", t)
    if m:
        return Fraction(int(m.group(1)), int(m.group(2)))
    try:
        return Fraction(t)
    except (ValueError, ZeroDivisionError):
        try:
            return float(t)
        except ValueError:
            return None


class HarnessAbort(BaseException):
    pass


class ConcCtx:
    """The same interface on the unmodified code with concrete numbers (tolerant comparisons: the code uses floats)."""
    symbolic = False

    def __init__(self, values, exact=False):
        self.values = values
        self.exact = exact
        self.floats = False
        self.failed = []
        self.observed = []
        self.covered = set()

    def override(self, modules):
        self.fresh()
        sys.modules.update(modules)

    def fresh(self):
        for k, m in list(sys.modules.items()):
            if (getattr(m, "__file__", None) or "").startswith(REPO + "/"):
                del sys.modules[k]

    def load(self, name, file=None):
        import importlib.util
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        if file and name not in sys.modules:
            spec = importlib.util.spec_from_file_location(name, os.path.join(REPO, file))
            sys.modules[name] = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(sys.modules[name])
        return importlib.import_module(name)

    def _num(self, f):
        if f.denominator == 1 and not self.exact:
            return int(f)
        if self.floats:
            return float(f)
        if not self.exact and Fraction(float(f)) == f:
            return float(f)
        return f

    def _get(self, name):
        if name not in self.values:
            return 0
        return self._num(Fraction(self.values[name]))

    def real(self, name, lo=None, hi=None):
        return self._range(self._get(name), lo, hi)

    def int(self, name, lo=None, hi=None):
        return int(self._range(self._get(name), lo, hi))

    def choose(self, name, lo, hi):
        return int(self._range(self._get(name), lo, hi))

    def _range(self, x, lo, hi):
        if lo is not None and x < lo or hi is not None and x > hi:
            raise HarnessAbort("input outside its range")
        return x

    def assume(self, c):
        if not c:
            raise HarnessAbort("assumption does not hold")

    def check(self, c, label):
        if not c:
            self.failed.append(label)

    def fail(self, label):
        self.failed.append(label)

    def cover(self, label):
        self.covered.add(label)

    def observe(self, name, value):
        self.observed.append((name, value))

    def flush(self):
        pass

    def exponents(self):
        self.floats = True

    def number_of_token(self, text):
        return parse_number(text)

    @staticmethod
    def _tol(a, b):
        return 1e-6 + 1e-9 * max(abs(a), abs(b))

    def eq(self, a, b):
        if not _isnum(a) or not _isnum(b):
            return a == b
        if _isinf(a) or _isinf(b):
            return a == b
        return abs(a - b) <= self._tol(a, b)

    def ne(self, a, b):
        return not self.eq(a, b)

    def le(self, a, b):
        return a <= b or self.eq(a, b)

    def ge(self, a, b):
        return a >= b or self.eq(a, b)

    def lt(self, a, b):
        return a < b and not self.eq(a, b)

    def gt(self, a, b):
        return a > b and not self.eq(a, b)

    And = staticmethod(lambda *a: all(a))
    Or = staticmethod(lambda *a: any(a))
    Not = staticmethod(lambda a: not a)
    implies = staticmethod(lambda a, b: (not a) or bool(b))

    def all_eq(self, xs, ys):
        xs, ys = list(xs), list(ys)
        return len(xs) == len(ys) and all(self.eq(a, b) for a, b in zip(xs, ys))


def _isnum(x):
    return isinstance(x, (int, float, Fraction)) or hasattr(x, "__float__")


def _isinf(x):
    return isinstance(x, float) and math.isinf(x)


def plain(x, val=None):
    """JSON-able form of an observed value; val maps a Sym to a number."""
    if isinstance(x, Sym):
        x = val(x)
    elif isinstance(x, SymBool):
        return bool(x.ev(val))
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return x
    if isinstance(x, (list, tuple)):
        return [plain(y, val) for y in x]
    if isinstance(x, dict):
        return {str(k): plain(v, val) for k, v in x.items()}
    f = terms.to_frac(x)
    if f is None:
        return {"inf": x > 0}
    if f is NotImplemented:
        return repr(x)
    return {"n": str(f)}


def same(a, b):
    """Compare two plain() values, numbers up to floating-point noise."""
    if isinstance(a, dict) and "n" in a and isinstance(b, dict) and "n" in b:
        x, y = Fraction(a["n"]), Fraction(b["n"])
        return abs(x - y) <= Fraction(1, 10 ** 6) + max(abs(x), abs(y)) / 10 ** 9
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b
