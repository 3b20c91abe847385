"""Import the modules of /repo for symbolic execution.

The source is read from the working tree on every run.  The only changes made to it:
  * `a / b` is evaluated exactly (a Fraction for concrete numbers) instead of in floating point,
  * float literals become the exact decimal fraction they spell,
  * `"..." % x` writes a symbolic x as a token,
  * the builtins float/int and the modules math/random/scipy.optimize seen by the code accept symbolic numbers.
Nothing else of the code is rewritten: control flow, data structures and calls are executed as they are.
"""
import ast
import builtins
import importlib
import math
import os
import re
import sys
import types
from fractions import Fraction

from . import terms
from .terms import Sym, SymBool, Unsupported, to_frac

REPO = os.environ.get("SYMX_REPO", "/repo")


def exact_div(a, b):
    if isinstance(a, (Sym, SymBool)) or isinstance(b, (Sym, SymBool)):
        return a / b
    ta, tb = type(a), type(b)
    if ta in (int, bool, float, Fraction) and tb in (int, bool, float, Fraction):
        fa, fb = to_frac(a), to_frac(b)
        if fa is None or fb is None:
            return a / b
        if fb == 0:
            raise ZeroDivisionError("division by zero")
        return Fraction(fa) / fb
    return a / b


_SPEC = re.compile(r"%(?:\((?P<name>[^)]*)\))?(?P<flags>[-+ #0]*)(?P<width>\d+)?(?:\.(?P<places>\d+))?(?P<kind>[diouxXeEfFgGrsac%])")


def safe_mod(a, b):
    """a % b; in text formatting, symbolic numbers become tokens (as in format)."""
    if not isinstance(a, str):
        return a % b
    whole = b.values() if isinstance(b, dict) else b if isinstance(b, tuple) else (b,)
    if not any(isinstance(x, Sym) for x in whole):
        return a % b
    args = list(whole)

    def one(m):
        if m["kind"] == "%":
            return "%"
        if m["name"] is not None:
            x = b[m["name"]]
        elif not args:
            raise TypeError("not enough arguments for format string")
        else:
            x = args.pop(0)
        if not isinstance(x, Sym):
            return re.sub(r"\(.*?\)", "", m[0], count=1) % (x,) if m["name"] is not None else m[0] % (x,)
        return str(terms.sym_trunc(x)) if m["kind"] in "diu" else str(x) if m["kind"] in "rs" else format(x, "")
    text = _SPEC.sub(one, a)
    if args and not isinstance(b, dict):
        raise TypeError("not all arguments converted during string formatting")
    return text


def exact_const(s):
    return Fraction(s)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return type(x) is Sym and not terms.is_whole(x) or type(x) in (float, Fraction) or builtins.isinstance(x, _real_float)

    def __subclasscheck__(cls, c):
        return issubclass(c, _real_float)

    def __eq__(cls, o):
        return o is cls or o is _real_float

    def __hash__(cls):
        return hash(_real_float)


_real_float, _real_int = float, int


class exact_float(_real_float, metaclass=_FloatMeta):
    def __new__(cls, x=0):
        if isinstance(x, Sym):
            return x
        if isinstance(x, SymBool):
            return Fraction(int(x))
        if isinstance(x, str):
            v = _real_float(x)
            return v if math.isinf(v) or math.isnan(v) else Fraction(x.strip().replace("_", ""))
        f = to_frac(x)
        if f is NotImplemented or f is None:
            return _real_float(x)
        return Fraction(f)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return type(x) is Sym and terms.is_whole(x) or builtins.isinstance(x, _real_int)

    def __subclasscheck__(cls, c):
        return issubclass(c, _real_int)

    def __eq__(cls, o):
        return o is cls or o is _real_int

    def __hash__(cls):
        return hash(_real_int)


class exact_int(_real_int, metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, Sym):
            return terms.sym_trunc(x)
        return _real_int(x, *a)


class _Rewrite(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        name = {ast.Div: "__symx_div__", ast.Mod: "__symx_mod__"}.get(type(n.op))
        if name is None:
            return n
        return ast.copy_location(ast.Call(ast.Name(name, ast.Load()), [n.left, n.right], []), n)

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if not isinstance(n.op, (ast.Div, ast.Mod)):
            return n
        name = "__symx_div__" if isinstance(n.op, ast.Div) else "__symx_mod__"
        load = ast.parse(ast.unparse(n.target), mode="eval").body
        return ast.copy_location(ast.Assign([n.target], ast.Call(ast.Name(name, ast.Load()), [load, n.value], [])), n)

    def visit_Constant(self, n):
        if type(n.value) is float and not (math.isinf(n.value) or math.isnan(n.value)):
            return ast.copy_location(ast.Call(ast.Name("__symx_const__", ast.Load()), [ast.Constant(repr(n.value))], []), n)
        return n

    def visit_JoinedStr(self, n):
        # format specs contain constants that must stay as they are
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
        return n

    def visit_MatchValue(self, n):
        return n


# ---------------------------------------------------------------- shims of library modules
def _math_shim():
    m = types.ModuleType("math")
    for k in dir(math):
        if not k.startswith("__"):
            setattr(m, k, getattr(math, k))

    def wrap1(name, symfn, fracfn=None):
        real = getattr(math, name)

        def f(x, *a):
            if isinstance(x, Sym):
                return symfn(x)
            if isinstance(x, Fraction) and fracfn is not None:
                return fracfn(x)
            return real(x, *a)
        f.__name__ = name
        setattr(m, name, f)
    wrap1("floor", lambda x: x.__floor__())
    wrap1("ceil", lambda x: x.__ceil__())
    wrap1("trunc", lambda x: x.__trunc__())
    wrap1("fabs", lambda x: abs(x), lambda x: abs(x))
    wrap1("isinf", lambda x: False)
    wrap1("isnan", lambda x: False)
    wrap1("isfinite", lambda x: True)
    m.fsum = lambda it: sum(it, Fraction(0))

    def isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
        if isinstance(a, Sym) or isinstance(b, Sym):
            return a == b
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    m.isclose = isclose

    def sumprod(a, b):
        return sum((x * y for x, y in zip(a, b)), 0)
    m.sumprod = sumprod

    def copysign(a, b):
        return abs(a) if b >= 0 else -abs(a)
    m.copysign = copysign
    return m


def snap(x):
    """A number computed by the floating-point LP solver: the nearest multiple of 1/1000."""
    return Fraction(round(Fraction(float(x)) * 1000), 1000)


def _leaves(o):
    if type(o).__name__ == "ndarray":
        o = o.tolist()
    if isinstance(o, (list, tuple)):
        for x in o:
            yield from _leaves(x)
    else:
        yield o


def _scaled(o, scale, unit):
    """The limits o, each of them a multiple of scale, for the scale unit (1, -1 or 0)."""
    if type(o).__name__ == "ndarray":
        o = o.tolist()
    if isinstance(o, (list, tuple)):
        return type(o)(_scaled(x, scale, unit) for x in o)
    if o is None or (not isinstance(o, Sym) and o == 0):
        return o
    if isinstance(o, Sym):
        for f in (1, 2, 3, Fraction(1, 2), -1, -2, -3):
            d = o - scale * f
            if not isinstance(d, Sym) and d == 0:
                return f * unit
    raise Unsupported("a linear program whose limits are not multiples of one symbolic number")


def _linprog(*a, **k):
    """The real solver on the numbers of the problem. Limits (bounds and right-hand sides) that are all multiples of one symbolic
    number are solved for its sign and scaled: the solutions of a linear program scale with its limits."""
    import warnings
    import numpy as np
    from scipy.optimize import linprog
    names = ("c", "A_ub", "b_ub", "A_eq", "b_eq", "bounds")
    limits = [k.get(n, a[i] if i < len(a) else None) for i, n in enumerate(names) if n in ("b_ub", "b_eq", "bounds")]
    numbers = [x for x in _leaves(limits) if x is not None]
    symbolic = [x for x in numbers if isinstance(x, Sym)]
    scale = None
    if symbolic:
        scale = symbolic[0]
        if scale == 0:
            return _linprog(*[_scaled(x, scale, 0) if i in (2, 4, 5) else x for i, x in enumerate(a)],
                            **{n: _scaled(v, scale, 0) if n in ("b_ub", "b_eq", "bounds") else v for n, v in k.items()})
        unit = 1 if scale > 0 else -1
        a = [_scaled(x, scale, unit) if i in (2, 4, 5) else x for i, x in enumerate(a)]
        k = {n: _scaled(v, scale, unit) if n in ("b_ub", "b_eq", "bounds") else v for n, v in k.items()}

    def fl(o):
        if isinstance(o, np.ndarray):
            o = o.tolist()
        if isinstance(o, (list, tuple)):
            return type(o)(fl(x) for x in o)
        if isinstance(o, Fraction):
            return float(o)
        return o
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = linprog(*[fl(x) for x in a], **{n: fl(v) for n, v in k.items()})
    if r.x is not None:
        arr = np.empty(len(r.x), dtype=object)
        for i, v in enumerate(r.x):
            arr[i] = snap(v) if scale is None else snap(v) * (scale * unit)
        r.x = arr
    return r


def _operator_shim():
    import operator
    m = types.ModuleType("operator")
    for k in dir(operator):
        if not k.startswith("__"):
            setattr(m, k, getattr(operator, k))
    m.truediv = exact_div
    return m


def _statistics_shim():
    import statistics
    m = types.ModuleType("statistics")
    for k in dir(statistics):
        if not k.startswith("__"):
            setattr(m, k, getattr(statistics, k))

    def mean(xs):
        xs = list(xs)
        if not xs:
            raise statistics.StatisticsError("mean requires at least one data point")
        return exact_div(sum(xs), len(xs))
    m.mean = m.fmean = mean
    return m


_CODE = {}          # compiled once per process: a check's processes live only as long as the check


class Loader:
    """Loads instrumented copies of /repo modules; overrides: {module name: replacement}."""

    def __init__(self, repo=None, overrides=None):
        self.repo = repo or REPO
        self.mods = {}
        self.overrides = {"math": _math_shim(), "operator": _operator_shim(), "statistics": _statistics_shim()}
        self.overrides.update(overrides or {})
        so = types.ModuleType("scipy.optimize")
        so.linprog = _linprog
        self.scipy_optimize = so
        self.files = []
        b = dict(vars(builtins))
        b["__import__"] = self._import
        b["float"] = exact_float
        b["int"] = exact_int
        b["print"] = lambda *a, **k: None
        self.builtins = b

    def _find(self, name):
        p = os.path.join(self.repo, *name.split("."))
        for q in (p + ".py", os.path.join(p, "__init__.py")):
            if os.path.isfile(q):
                return q
        return None

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            if name in self.overrides:
                return self.overrides[name]
            if name == "scipy.optimize" and fromlist:
                return self.scipy_optimize
            if name.split(".")[0] == "scipy":
                real = builtins.__import__(name, globals, locals, fromlist, level)
                if name == "scipy" and fromlist and "optimize" in fromlist or not fromlist:
                    sc = types.ModuleType("scipy")
                    sc.optimize = self.scipy_optimize
                    return sc
                return real
            if self._find(name):
                m = self.load(name)
                if "." in name and not fromlist:
                    return sys.modules.get(name.split(".")[0], m)
                return m
        return builtins.__import__(name, globals, locals, fromlist, level)

    def load(self, name, file=None):
        if name in self.mods:
            return self.mods[name]
        path = file or self._find(name)
        if path is None:
            raise Unsupported("module %s not found in %s" % (name, self.repo))
        code = _CODE.get(path)
        if code is None:
            with open(path, encoding="utf-8") as f:
                src = f.read()
            tree = _Rewrite().visit(ast.parse(src, path))
            ast.fix_missing_locations(tree)
            code = _CODE[path] = compile(tree, path, "exec")
        m = types.ModuleType(name)
        m.__file__ = path
        m.__builtins__ = self.builtins
        m.__dict__["__symx_div__"] = exact_div
        m.__dict__["__symx_mod__"] = safe_mod
        m.__dict__["__symx_const__"] = exact_const
        self.mods[name] = m
        sys.modules[name] = m          # some library code looks its caller's module up (dataclasses, pickle, ...)
        self.files.append(path)
        exec(code, m.__dict__)
        return m
