"""Symbolic numbers and booleans.

A Sym is an exact real expression: a linear combination of solver variables plus a constant
(coefficients are Fractions), or, when products/quotients of symbolic values occur, an opaque z3 term
treated as one more "variable".  A SymBool is a formula over linear atoms.
"""
import functools
import math
import numbers
from fractions import Fraction

import z3

INF = float("inf")


class Unsupported(BaseException):
    """The encoding cannot follow this operation. BaseException: the code under test must not swallow it."""


_ENGINE = [None]


def engine():
    e = _ENGINE[0]
    if e is None:
        raise Unsupported("symbolic value used outside of an exploration")
    return e


def set_engine(e):
    _ENGINE[0] = e


def to_frac(x):
    """Exact value of a concrete number; None for infinities; NotImplemented if not a number."""
    t = type(x)
    if t is int:
        return x
    if t is Fraction:
        return x if x.denominator != 1 else x.numerator
    if t is bool:
        return int(x)
    if isinstance(x, (int, Fraction)):
        return Fraction(x)
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            return None
        return _float_frac(float(x))
    try:
        import numpy as np
        if isinstance(x, np.integer):
            return Fraction(int(x))
        if isinstance(x, np.floating):
            return to_frac(float(x))
    except ImportError:      # pragma: no cover
        pass
    return NotImplemented


@functools.lru_cache(maxsize=4096)
def _float_frac(x):
    """The number that a float stands for: a quotient of small numbers that libraries rounded, or else the decimal number it prints as."""
    shown = Fraction(repr(x))
    if shown.denominator > 10 ** 9:
        simple = Fraction(x).limit_denominator(1000)
        if abs(simple - Fraction(x)) <= abs(Fraction(x)) / 2 ** 51:
            return simple
    return shown


# ---------------------------------------------------------------- variables
class Var:
    """A solver variable (or an opaque nonlinear term)."""
    __slots__ = ("name", "kind", "z", "idx", "term")
    _table = {}
    _list = []

    def __init__(self, name, kind, z, term=None):
        self.name, self.kind, self.z, self.term = name, kind, z, term
        self.idx = len(Var._list)
        Var._list.append(self)

    @classmethod
    def get(cls, name, kind="real"):
        v = cls._table.get((name, kind))
        if v is None:
            z = z3.Real(name) if kind == "real" else z3.ToReal(z3.Int(name))
            v = cls._table[name, kind] = Var(name, kind, z)
        return v

    @classmethod
    def opaque(cls, zterm):
        key = "#" + str(zterm.get_id())
        v = cls._table.get(key)
        if v is None:
            v = cls._table[key] = Var(key, "term", zterm, term=zterm)
        return v

    def __reduce__(self):
        if self.kind == "term":
            raise Unsupported("opaque term cannot be shipped to another process")
        return (Var.get, (self.name, self.kind))


_NUM = {}
_MUL = {}


def znum(n):
    """z3 real numeral of an int (cached)."""
    r = _NUM.get(n)
    if r is None:
        r = _NUM[n] = z3.RealVal(n)
    return r


def zmul(v, n):
    r = _MUL.get((v.idx, n))
    if r is None:
        r = _MUL[(v.idx, n)] = v.z if n == 1 else znum(n) * v.z
    return r


import z3.z3core as _core      # noqa: E402


def _raw(name):
    """The C entry point without the per-call error check (the terms built here are well-sorted by construction)."""
    f = getattr(_core, name)
    return f.__defaults__[0].f if f.__defaults__ and hasattr(f.__defaults__[0], "f") else f


_mk_add, _mk_lt, _mk_gt, _mk_le, _mk_ge, _mk_eq, _mk_not = [_raw("Z3_mk_" + n) for n in ("add", "lt", "gt", "le", "ge", "eq", "not")]
_CTX = z3.main_ctx()
_CREF = _CTX.ref()


def zsum_cmp(key, mask):
    """z3 formula for sign(key) in mask, for a canonical integer linear form."""
    items, k = key
    pos = [zmul(Var._list[i], a) for i, a in items]
    if len(pos) == 1:
        lhs = pos[0]
    else:
        arr = (z3.Ast * len(pos))(*[p.ast for p in pos])
        lhs = z3.ArithRef(_mk_add(_CREF, len(pos), arr), _CTX)
    rhs = znum(-k)
    if mask == NEG:
        a = _mk_lt(_CREF, lhs.ast, rhs.ast)
    elif mask == POS:
        a = _mk_gt(_CREF, lhs.ast, rhs.ast)
    elif mask == ZERO:
        a = _mk_eq(_CREF, lhs.ast, rhs.ast)
    elif mask == NEG | ZERO:
        a = _mk_le(_CREF, lhs.ast, rhs.ast)
    elif mask == POS | ZERO:
        a = _mk_ge(_CREF, lhs.ast, rhs.ast)
    elif mask == NEG | POS:
        e = z3.BoolRef(_mk_eq(_CREF, lhs.ast, rhs.ast), _CTX)
        a = _mk_not(_CREF, e.ast)
    else:
        return z3.BoolVal(mask == 7)
    return z3.BoolRef(a, _CTX)


def _zc(f):
    return z3.RealVal("%d/%d" % (f.numerator, f.denominator)) if f.denominator != 1 else z3.RealVal(f.numerator)


def lin_z3(coeffs, const):
    parts = []
    for v, c in coeffs.items():
        parts.append(v.z if c == 1 else _zc(c) * v.z)
    if const != 0 or not parts:
        parts.append(_zc(const))
    if len(parts) == 1:
        return parts[0]
    return z3.Sum(parts)


class Sym:
    __slots__ = ("c", "k")
    __array_ufunc__ = None          # numpy scalars defer to our reflected operators
    __array_priority__ = 1000

    def __init__(self, coeffs, const):
        self.c = coeffs
        self.k = const

    # --- construction
    @staticmethod
    def of_var(v):
        return Sym({v: 1}, 0)

    @staticmethod
    def make(coeffs, const):
        """Returns a plain Fraction when the expression is constant."""
        return Sym(coeffs, const) if coeffs else const

    def z(self):
        return lin_z3(self.c, self.k)

    def __reduce__(self):
        return (Sym, (self.c, self.k))

    # --- arithmetic
    def _add(self, o, s):
        if isinstance(o, Sym):
            c = dict(self.c)
            for v, a in o.c.items():
                b = c.get(v, 0) + (a if s > 0 else -a)
                if b == 0:
                    c.pop(v, None)
                else:
                    c[v] = b
            return Sym.make(c, self.k + o.k * s)
        f = to_frac(o)
        if f is NotImplemented:
            return NotImplemented
        if f is None:
            return o * s if not math.isnan(o) else o
        return Sym(self.c, self.k + f * s)

    def __add__(self, o):
        return self._add(o, 1)
    __radd__ = __add__

    def __sub__(self, o):
        return self._add(o, -1)

    def __neg__(self):
        return Sym({v: -a for v, a in self.c.items()}, -self.k)

    def __pos__(self):
        return self

    def __rsub__(self, o):
        f = to_frac(o)
        if f is NotImplemented:
            return NotImplemented
        if f is None:
            return o
        return Sym({v: -a for v, a in self.c.items()}, f - self.k)

    def __mul__(self, o):
        if isinstance(o, Sym):
            return Sym.of_var(Var.opaque(z3.simplify(self.z() * o.z(), som=True)))
        f = to_frac(o)
        if f is NotImplemented:
            return NotImplemented
        if f is None:
            if math.isnan(o):
                return o
            if self > 0:
                return o
            if self < 0:
                return -o
            return float("nan")
        if f == 0:
            return 0
        if f == 1:
            return self
        return Sym({v: a * f for v, a in self.c.items()}, self.k * f)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, Sym):
            return _divide(self, o)
        f = to_frac(o)
        if f is NotImplemented:
            return NotImplemented
        if f is None:
            return 0
        if f == 0:
            raise ZeroDivisionError("division by zero")
        return self * (Fraction(1) / f)

    def __rtruediv__(self, o):
        f = to_frac(o)
        if f is NotImplemented:
            return NotImplemented
        if f is None:
            return o if self > 0 else -o
        return _divide(f, self)

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 6:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        raise Unsupported("power of a symbolic value")

    def __rpow__(self, o):
        raise Unsupported("power with a symbolic exponent")

    def __floordiv__(self, o):
        return self.__truediv__(o).__floor__() if isinstance(self.__truediv__(o), Sym) else math.floor(self / o)

    def __rfloordiv__(self, o):
        return sym_floor(o / self)

    def __mod__(self, o):
        q = self // o
        return self - q * o

    def __rmod__(self, o):
        if isinstance(o, str):
            raise Unsupported("string formatting")
        return o - (o // self) * self

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __abs__(self):
        return self if self >= 0 else -self

    def __floor__(self):
        return engine().floor(self)

    def __ceil__(self):
        return -engine().floor(-self)

    def __trunc__(self):
        return self.__floor__() if self >= 0 else self.__ceil__()

    floor = __floor__
    ceil = __ceil__

    def __round__(self, n=None):
        return engine().round(self, n)

    def is_integer(self):
        return self == self.__floor__()

    def conjugate(self):
        return self

    real = property(lambda self: self)
    imag = property(lambda self: 0)

    # --- conversions that need a concrete number
    def __int__(self):
        return engine().concretize(sym_trunc(self))

    def __index__(self):
        return engine().concretize(self)

    def __float__(self):
        raise Unsupported("float() of a symbolic value")

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return 0

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # --- comparisons
    def _cmp(self, o, op):
        if isinstance(o, Sym):
            return _atom(self - o, op)
        f = to_frac(o)
        if f is NotImplemented:
            return NotImplemented
        if f is None:
            if math.isnan(o):
                return op == "ne"
            big = o > 0
            return {"lt": big, "le": big, "gt": not big, "ge": not big, "eq": False, "ne": True}[op]
        return _atom(self - f, op)

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __eq__(self, o):
        r = self._cmp(o, "eq")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, "ne")
        return True if r is NotImplemented else r

    # --- text: a token that engine().token_value maps back to the term
    def __str__(self):
        e = engine()
        if e.exponents and abs(self) < Fraction(1, 10 ** 4) and self != 0:      # as str() writes small floats
            return e.token(self) + "e-05"
        return e.token(self)

    def __repr__(self):
        return str(self) if _ENGINE[0] is not None else "Sym(%s)" % show(self)

    def __format__(self, spec):
        return engine().token(self)


numbers.Real.register(Sym)


def show(x):
    if not isinstance(x, Sym):
        return str(x)
    return " + ".join(["%s*%s" % (a, v.name) for v, a in x.c.items()] + [str(x.k)])


def _divide(a, b):
    if b == 0:
        raise ZeroDivisionError("division by zero")
    return engine().quotient(a, b)


def is_whole(x):
    """Is it the symbolic value of a Python int: a sum of whole multiples of integer variables?"""
    return x.k.denominator == 1 and all(a.denominator == 1 and v.kind == "int" for v, a in x.c.items())


def sym_floor(x):
    return x.__floor__() if isinstance(x, Sym) else math.floor(x)


def sym_trunc(x):
    return x.__trunc__() if isinstance(x, Sym) else math.trunc(x)


# ---------------------------------------------------------------- booleans
def canon(lin):
    """(key, sign): lin = sign * positive * key-expression, where key is a primitive integer linear form."""
    items = sorted([(v.idx, a) for v, a in lin.c.items()])
    k = lin.k
    if type(k) is not int or any(type(a) is not int for _, a in items):
        m = math.lcm(k.denominator, *[a.denominator for _, a in items])
        items = [(i, int(a * m)) for i, a in items]
        k = int(k * m)
    s = 1
    g = math.gcd(k, *[a for _, a in items])
    if items[0][1] < 0:
        s, g = -1, -g
    if g != 1:
        items = [(i, a // g) for i, a in items]
        k //= g
    return (tuple(items), k), s


NEG, ZERO, POS = 1, 2, 4
_MASK = {"lt": NEG, "le": NEG | ZERO, "gt": POS, "ge": POS | ZERO, "eq": ZERO, "ne": NEG | POS}
_FLIP = {0: 0, NEG: POS, POS: NEG, ZERO: ZERO, NEG | ZERO: POS | ZERO, POS | ZERO: NEG | ZERO, NEG | POS: NEG | POS, 7: 7}


def _atom(lin, op):
    if not isinstance(lin, Sym):
        return {"lt": lin < 0, "le": lin <= 0, "gt": lin > 0, "ge": lin >= 0, "eq": lin == 0, "ne": lin != 0}[op]
    return Atom(lin, _MASK[op])


class SymBool:
    __slots__ = ()

    def __and__(self, o):
        return And(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return Or(self, o)
    __ror__ = __or__

    def __invert__(self):
        return Not(self)

    def __eq__(self, o):
        return bool(self) == o

    def __ne__(self, o):
        return bool(self) != o

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __hash__(self):
        return hash(bool(self))

    def __bool__(self):
        return engine().decide(self)

    def _num(self):
        return int(bool(self))

    def __add__(self, o):
        return self._num() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __mul__(self, o):
        return self._num() * o
    __rmul__ = __mul__

    def __neg__(self):
        return -self._num()

    def __lt__(self, o):
        return self._num() < o

    def __le__(self, o):
        return self._num() <= o

    def __gt__(self, o):
        return self._num() > o

    def __ge__(self, o):
        return self._num() >= o

    def __str__(self):
        return str(bool(self))
    __repr__ = __str__


_ATOMS = {}


class Atom(SymBool):
    """sign(lin) in mask, where mask is a set of {NEG, ZERO, POS}."""
    __slots__ = ("lin", "mask", "_key")

    def __init__(self, lin, mask):
        self.lin, self.mask, self._key = lin, mask, None

    def __reduce__(self):
        return (Atom, (self.lin, self.mask))      # the cached key holds process-local variable numbers

    def canon(self):
        if self._key is None:
            key, s = canon(self.lin)
            self._key = (key, self.mask if s > 0 else _FLIP[self.mask])
        return self._key

    def z(self):
        c = self.canon()
        r = _ATOMS.get(c)
        if r is None:
            r = _ATOMS[c] = zsum_cmp(*c)
        return r

    def neg(self):
        return Atom(self.lin, 7 ^ self.mask)

    def ev(self, val):
        x = val(self.lin)
        return bool(self.mask & (NEG if x < 0 else POS if x > 0 else ZERO))


class Nary(SymBool):
    __slots__ = ("op", "args")

    def __init__(self, op, args):
        self.op, self.args = op, args

    def __reduce__(self):
        return (Nary, (self.op, self.args))

    def z(self):
        zs = [a.z() for a in self.args]
        return z3.And(zs) if self.op == "and" else z3.Or(zs)

    def neg(self):
        return Nary("or" if self.op == "and" else "and", [a.neg() for a in self.args])

    def ev(self, val):
        if self.op == "and":
            return all(a.ev(val) for a in self.args)
        return any(a.ev(val) for a in self.args)


def And(*args):
    out = []
    for a in args:
        if isinstance(a, SymBool):
            out.extend(a.args if isinstance(a, Nary) and a.op == "and" else [a])
        elif not a:
            return False
    if not out:
        return True
    return out[0] if len(out) == 1 else Nary("and", out)


def Or(*args):
    out = []
    for a in args:
        if isinstance(a, SymBool):
            out.extend(a.args if isinstance(a, Nary) and a.op == "or" else [a])
        elif a:
            return True
    if not out:
        return False
    return out[0] if len(out) == 1 else Nary("or", out)


def Not(a):
    return a.neg() if isinstance(a, SymBool) else (not a)
