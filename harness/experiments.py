"""Stand-ins for the libraries that the experiments use: tables, random numbers, data frames."""
import random as _random
import types

from .common import *


class Table:
    """Records what an experiment writes to its results table."""
    made = []

    def __init__(self, columns, filename=None, *a, **k):
        self.columns, self.filename, self.rows, self.finished = list(columns), filename, [], False
        Table.made.append(self)

    def add(self, row):
        self.rows.append(dict(row))

    def done(self):
        self.finished = True


class Draws:
    """The random module: every number it returns is an arbitrary number from the range that was asked for."""

    def __init__(self, ctx, fixed=False):
        self.ctx, self.count, self.asked, self.fixed = ctx, 0, [], fixed
        self.in_order = False          # shuffling leaves lists as they are

    def _new(self, lo, hi):
        self.count += 1
        if self.fixed:                    # only the middle of the range
            return (lo + hi) // 2
        return self.ctx.real("draw%d" % self.count, lo, hi)

    def module(self):
        m = types.ModuleType("random")
        m.__dict__.update({k: v for k, v in vars(_random).items() if not k.startswith("__")})

        def uniform(a, b):
            self.asked.append((a, b))
            return self._new(min(a, b), max(a, b))
        m.uniform = uniform
        
        def random():
            return self._new(0, 1)
        m.random = random
        m.normalvariate = m.gauss = lambda mu=0, sigma=1: self._new(-1000, 1000)
        m.gammavariate = lambda alpha, beta: self._new(0, 1000)
        m.paretovariate = lambda alpha: self._new(1, 1000)

        def shuffle(xs):
            for i in range(0 if self.in_order else len(xs) - 1, 0, -1):
                self.count += 1
                j = self.ctx.choose("shuffle%d" % self.count, 0, i)
                xs[i], xs[j] = xs[j], xs[i]
        m.shuffle = shuffle
        return m


def table_modules():
    """tee_table and its TeeTable, recording instead of printing and writing files."""
    Table.made = []
    pkg, mod = types.ModuleType("tee_table"), types.ModuleType("tee_table.tee_table")
    mod.TeeTable = pkg.TeeTable = Table
    pkg.tee_table = mod
    return {"tee_table": pkg, "tee_table.tee_table": mod}


def close(ctx, shown, exact, places=2):
    """A number shown with so many decimals (rounded or cut off)."""
    # the solver has to find a clear difference, so that floats (compared up to 10^-6) show it too
    tol = Fraction(11, 10 ** (places + 1)) + (Fraction(1, 10 ** 5) if ctx.symbolic else 0)
    return ctx.And(ctx.le(shown - exact, tol), ctx.le(exact - shown, tol))


def best(ctx, vals, recipe):
    """(number of deals, gain) of the optimal trade by definition; vals sorted from high to low."""
    k, gain = 0, 0
    for j in range(max_deals([len(v) for v in vals], recipe)):
        d = deal(vals, recipe, j)
        if d < 0:
            break
        k, gain = k + 1, gain + d
    return k, gain
