"""Exhaustive path exploration with z3 deciding every branch (see terms.py for the proxies)."""
import math
import signal
import time
from fractions import Fraction

import z3

from . import terms
from .terms import Atom, And, Not, Or, Sym, SymBool, Unsupported, Var, to_frac


class PathAbort(BaseException):
    """The assumptions of the harness cannot hold on this path."""


class Violation(BaseException):
    def __init__(self, label, negated):
        self.label, self.negated = label, negated


class Hang(BaseException):
    pass


class _NoValue(Exception):
    pass


class Model:
    """A satisfying assignment, evaluated lazily into Fractions."""
    __slots__ = ("m", "cache")

    def __init__(self, m):
        self.m, self.cache = m, {}

    def var(self, v):
        x = self.cache.get(v)
        if x is None:
            r = self.m.eval(v.z, model_completion=True)
            if z3.is_rational_value(r):
                x = Fraction(r.numerator_as_long(), r.denominator_as_long())
            elif z3.is_int_value(r):
                x = Fraction(r.as_long())
            else:
                r = z3.simplify(r)
                if not z3.is_rational_value(r):
                    raise _NoValue()
                x = Fraction(r.numerator_as_long(), r.denominator_as_long())
            self.cache[v] = x
        return x

    def val(self, x):
        if not isinstance(x, Sym):
            return x
        t = x.k
        for v, a in x.c.items():
            t += a * self.var(v)
        return t


class Entry:
    """One recorded step of the current path. seq: the number of the decide/assume/concretize call it belongs to
    (calls that were resolved without the solver leave no entry)."""
    __slots__ = ("cond", "value", "alt", "fork", "seq")

    def __init__(self, seq, cond, value, fork, alt=None):
        self.seq, self.cond, self.value, self.fork, self.alt = seq, cond, value, fork, alt


class Explorer:
    def __init__(self, fn, extra=(), max_decisions=20000, path_seconds=60, query_ms=30000):
        self.fn = fn                    # fn(ctx) runs the harness once
        self.extra = list(extra)        # literals that restrict this subtree
        self.solver = z3.SimpleSolver()
        self.solver.set("timeout", query_ms)
        self.base = z3.SimpleSolver()
        self.base.set("timeout", query_ms)
        self.base_known = {}
        self.base_tested = set()
        self.trail = []                 # fork entries, implied entries, assumption entries
        self.model = None
        self.max_decisions = max_decisions
        self.path_seconds = path_seconds
        self.stats = dict(paths=0, infeasible=0, decisions=0, forks=0, queries=0, unsat=0, sat=0, solver_s=0.0,
                          obligations=0, trivial=0)
        self.covers = {}
        self.xq, self.xq_left = [], 0      # obligation queries kept for a second solver

    # ------------------------------------------------------------ solver
    def _check(self, solver):
        t = time.perf_counter()
        r = solver.check()
        self.stats["solver_s"] += time.perf_counter() - t
        self.stats["queries"] += 1
        if r == z3.unknown:
            raise Unsupported("solver returned unknown: " + solver.reason_unknown())
        if r == z3.sat:
            self.stats["sat"] += 1
            return Model(solver.model())
        self.stats["unsat"] += 1
        return None

    def _check_with(self, solver, z):
        solver.push()
        try:
            solver.add(z)
            return self._check(solver)
        finally:
            solver.pop()

    # ------------------------------------------------------------ decisions
    def _note(self, atom, value):
        key, mask = atom.canon()
        if not value:
            mask = 7 ^ mask
        self.known[key] = self.known.get(key, 7) & mask

    def _resolved(self, atom):
        key, mask = atom.canon()
        poss = self.known.get(key, 7) & self.base_known.get(key, 7)
        if poss & ~mask & 7 == 0:
            return True
        if poss & mask == 0:
            return False
        return None

    def _quick(self, b):
        if isinstance(b, Atom):
            return self._resolved(b)
        vals = [self._quick(a) for a in b.args]
        if b.op == "and":
            return False if False in vals else (True if all(v is True for v in vals) else None)
        return True if True in vals else (False if all(v is False for v in vals) else None)

    def _learn(self, b, value):
        if isinstance(b, Atom):
            self._note(b, value)
        elif (b.op == "and") == value:
            for a in b.args:
                self._learn(a, value)

    def _recorded(self):
        """The trail entry of this call when replaying a prefix, else None."""
        self.seq += 1
        if self.pos < len(self.trail) and self.trail[self.pos].seq == self.seq:
            e = self.trail[self.pos]
            self.pos += 1
            return e
        return None

    def _push(self, cond, value, fork, alt=None):
        if self.pos < len(self.trail):
            raise Unsupported("the code under test is not deterministic")
        e = Entry(self.seq, cond, value, fork, alt)
        self.trail.append(e)
        self.pos += 1
        return e

    def decide(self, b):
        self.started = True
        e = self._recorded()
        if e is not None:
            self._learn(b, e.value)
            return e.value
        r = self._quick(b)
        if r is not None:
            return r
        self.n_dec += 1
        if self.n_dec > self.max_decisions:
            raise Hang("more than %d decisions on one path" % self.max_decisions)
        self.stats["decisions"] += 1
        if self.model is None:
            self.model = self._check(self.solver)
            if self.model is None:
                raise PathAbort()
        try:
            v = b.ev(self.model.val)
        except _NoValue:
            v = self._check_with(self.solver, b.z()) is not None
        alt = self._check_with(self.solver, Not(b).z() if v else b.z())
        if alt is None:
            if isinstance(b, Atom):
                key, mask = b.canon()
                if (key, mask) not in self.base_tested:
                    self.base_tested.add((key, mask))
                    if self._check_with(self.base, Not(b).z() if v else b.z()) is None:
                        self.base_known[key] = self.base_known.get(key, 7) & (mask if v else 7 ^ mask)
                        return v
            self._push(b, v, False)
            self._learn(b, v)
            return v
        self.stats["forks"] += 1
        self._push(b, v, True, alt)
        self.solver.push()
        self.solver.add(b.z() if v else Not(b).z())
        self._learn(b, v)
        return v

    def assume(self, cond):
        e = self._recorded()
        if e is not None:
            self._learn(cond, True)
            if e.value is False:
                raise PathAbort()
            return
        if not isinstance(cond, SymBool):
            if not cond:
                raise PathAbort()
            return
        r = self._quick(cond)
        if r is True:
            return
        if r is False:
            raise PathAbort()
        z = cond.z()
        if not self.started:
            self._learn(cond, True)
            if self.first:
                self.solver.add(z)
                self.base.add(z)
            return
        e = self._push(None, True, True)     # occupies a solver level like a fork, but has no alternative
        self.solver.push()
        self.solver.add(z)
        try:
            ok = self.model is not None and cond.ev(self.model.val)
        except _NoValue:
            ok = False
        if not ok:
            self.model = self._check(self.solver)
            if self.model is None:
                e.value = False
                raise PathAbort()
        self._learn(cond, True)

    # ------------------------------------------------------------ arithmetic services
    def _fresh(self, prefix, kind):
        self.n_fresh += 1
        return Sym.of_var(Var.get("%s!%d" % (prefix, self.n_fresh), kind))

    def _is_int(self, x):
        return terms.is_whole(x)

    def floor(self, x):
        if self._is_int(x):
            return x
        key = terms.canon(x)
        key = (key, abs(min(x.c.items(), key=lambda t: t[0].idx)[1]))
        n = self.floors.get(key)
        if n is None:
            n = self._fresh("fl", "int")
            self.floors[key] = n
            self.assume(And(n <= x, n > x - 1))
        return n

    def round(self, x, nd):
        scale = Fraction(10) ** (nd or 0)
        t = x * scale
        if isinstance(t, Sym) and self._is_int(t):
            return x
        r, m = self._fresh("rd", "int"), self._fresh("rh", "int")
        half = Fraction(1, 2)
        self.assume(Or(And(t - r < half, t - r > -half), And(Or(t - r == half, t - r == -half), r == m * 2)))
        return r if nd is None else r * (1 / scale)

    def quotient(self, a, b):
        """a / b; quotients that differ by a constant factor share one variable."""
        (ka, fa), (kb, fb) = self._primitive(a), self._primitive(b)
        if fa == 0:
            return 0
        if ka == kb:
            return fa / fb
        q = self.quotients.get((ka, kb))
        if q is None:
            q = self.quotients[ka, kb] = self._fresh("q", "real")
            a, b = a * (1 / fa), b * (1 / fb)
            az = a.z() if isinstance(a, Sym) else terms._zc(to_frac(a))
            # nonlinear: kept out of the path condition (which then admits more), and added when an obligation fails without it
            self.raw.append(q.z() * b.z() == az)
        return q * (fa / fb)

    @staticmethod
    def _primitive(x):
        """(key, f): x is f times the expression of the key."""
        if not isinstance(x, Sym):
            return "1", Fraction(to_frac(x))
        key, s = terms.canon(x)
        if not key[0]:
            return "1", Fraction(x.k)
        v = min(x.c, key=lambda v: v.idx)
        return key, Fraction(x.c[v]) / key[0][0][1]

    def concretize(self, x):
        """Fork over the integer values of x."""
        if not isinstance(x, Sym):
            return int(x)
        for _ in range(200):
            self.started = True
            e = self._recorded()
            if e is None:
                if self.model is None:
                    self.model = self._check(self.solver)
                    if self.model is None:
                        raise PathAbort()
                e = self._push(None, self.model.val(x), False)
            v = e.value
            if v.denominator != 1:
                raise Unsupported("a non-integer symbolic value is used as an integer")
            if self.decide(x == v):
                return int(v)
        raise Unsupported("too many values for a symbolic integer")

    def token(self, x):
        key = (tuple(sorted((v.idx, a) for v, a in x.c.items())), x.k)
        n = self.token_of.get(key)
        if n is None:
            n = self.token_of[key] = len(self.tokens)
            self.tokens.append(x)
        return "\u27e6%d\u27e7" % n

    # ------------------------------------------------------------ harness API
    def var(self, name, kind):
        v = Var.get(name, kind)
        if name not in self.inputs:
            self.inputs[name] = v
        return Sym.of_var(v)

    def check(self, cond, label):
        self.stats["obligations"] += 1
        if isinstance(cond, SymBool):
            r = self._quick(cond)
            if r is True:
                self.stats["trivial"] += 1
                return
            self.pending.append((label, cond))
        elif cond:
            self.stats["trivial"] += 1
        else:
            self.flush()
            raise Violation(label, None)

    def flush(self):
        """Discharge the obligations collected on this path with one query."""
        if not self.pending:
            return
        pend, self.pending = self.pending, []
        neg = z3.Or([Not(c).z() for _, c in pend])
        m = self._check_with(self.solver, neg)
        if m is not None and self.raw:
            m = self._check_with(self.solver, z3.And([neg] + self.raw))
        if m is None:
            if self.xq_left > 0 and not self.raw:
                self.xq_left -= 1
                s = z3.Solver()
                s.add(self.solver.assertions())
                s.add(neg)
                self.xq.append(s.sexpr())
            return
        for label, c in pend:
            if self._check_with(self.solver, z3.And([Not(c).z()] + self.raw)) is not None:
                raise Violation(label, Not(c))
        raise Unsupported("inconsistent solver answers")

    # ------------------------------------------------------------ exploration
    def _run_once(self):
        self.pos = 0
        self.seq = 0
        self.n_dec = 0
        self.n_fresh = 0
        self.started = False
        self.known = {}
        self.floors, self.quotients, self.raw = {}, {}, []
        self.tokens, self.token_of, self.exponents = [], {}, False
        self.inputs = {}
        self.pending = []
        self.observed = []
        terms.set_engine(self)
        try:
            for lit in self.extra:
                self.assume(lit)
            self.fn(self)
            self.flush()
        finally:
            terms.set_engine(None)

    def _backtrack(self):
        while self.trail:
            e = self.trail.pop()
            if e.fork:
                self.solver.pop()
                if e.alt is not None:
                    e.value = not e.value
                    self.model = e.alt
                    e.alt = None
                    self.solver.push()
                    self.solver.add(e.cond.z() if e.value else Not(e.cond).z())
                    self.trail.append(e)
                    return True
        return False

    def split(self):
        """The unexplored alternatives as independent jobs (lists of literals); None if not shippable."""
        jobs, lits = [], list(self.extra)
        for e in self.trail:
            if e.cond is None or not e.fork:
                continue
            if _opaque(e.cond):
                return None
            if e.alt is not None:
                jobs.append(lits + [Not(e.cond) if e.value else e.cond])
            lits = lits + [e.cond if e.value else Not(e.cond)]
        return jobs

    def explore(self, budget_s=None, on_path=None):
        """Explore until done; returns ("done", None), ("split", jobs), ("violation", info) or ("unsupported", why)."""
        self.first = True
        start = time.perf_counter()

        def alarm(*_):
            raise Hang("path exceeded %d s" % self.path_seconds)
        try:
            old = signal.signal(signal.SIGALRM, alarm)
        except ValueError:
            old = None
        try:
            while True:
                try:
                    if old is not None:
                        signal.alarm(self.path_seconds)
                    self._run_once()
                    if old is not None:
                        signal.alarm(0)
                    self.stats["paths"] += 1
                    if on_path:
                        on_path(self)
                except PathAbort:
                    self.stats["infeasible"] += 1
                except Violation as v:
                    return "violation", self._witness(v.label, v.negated)
                except Hang as h:
                    if old is not None:
                        signal.alarm(0)
                    return "violation", self._witness("does not terminate (%s)" % h, None)
                except Unsupported as u:
                    return "unsupported", str(u)
                except Exception as ex:       # the code under test (or the harness) crashed on this path
                    if old is not None:
                        signal.alarm(0)
                    import traceback
                    tb = traceback.extract_tb(ex.__traceback__)
                    where = "%s:%s" % (tb[-1].filename.rsplit("/", 1)[-1], tb[-1].name) if tb else "?"
                    return "violation", self._witness("crashes with %s: %s (in %s)" % (type(ex).__name__, str(ex)[:120], where), None)
                finally:
                    if old is not None:
                        signal.alarm(0)
                self.first = False
                if budget_s is not None and time.perf_counter() - start > budget_s:
                    jobs = self.split()
                    if jobs is not None:
                        return "split", jobs
                if not self._backtrack():
                    return "done", None
        finally:
            if old is not None:
                signal.signal(signal.SIGALRM, old)

    def _witness(self, label, negated):
        """Input values for the current path (and the negated assertion): small integers if possible."""
        inputs = dict(self.inputs)
        try:
            vals = self.nice_model(negated)
        except Unsupported as u:
            return dict(label=label, values=None, why=str(u))
        return dict(label=label, values=vals, inputs=list(inputs))

    def nice_model(self, negated=None, bounds=(20, 1000, 10 ** 6, None), timeout=4000):
        s = z3.SimpleSolver()
        s.set("timeout", 20000)
        for a in self.solver.assertions():
            s.add(a)
        for a in self.raw:
            s.add(a)
        if negated is not None:
            s.add(negated.z())
        reals = [(n, v) for n, v in self.inputs.items() if v.kind == "real"]
        # first the small-integer models, then any model
        for b in bounds:
            s.push()
            s.set("timeout", timeout if b is not None else 20000)
            for n, v in reals:
                if b is not None:
                    i = z3.Int("nice!" + n)
                    s.add(v.z == z3.ToReal(i), i >= -b, i <= b)
            r = s.check()
            if r == z3.sat:
                m = Model(s.model())
                try:
                    out = {n: m.var(v) for n, v in self.inputs.items()}
                    self.nice = m
                    return out
                except _NoValue:
                    pass
            s.pop()
        raise Unsupported("no concrete witness could be extracted")


def _opaque(b):
    if isinstance(b, Atom):
        return any(v.kind == "term" for v in b.lin.c)
    return any(_opaque(a) for a in b.args)
