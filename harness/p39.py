"""Random categories have the traders that were asked for."""
from .experiments import *

BOUNDS = ("uniform, normal, gamma and Pareto random categories of 0-4 traders; what the random number generator returns is arbitrary (uniform: within the range it was asked for); parameters as listed")
COVER = ["uniform", "normal", "gamma", "pareto"]


def configs(tier):
    for n in (0, 1, 2, 3) + ((4, 5) if tier == "thorough" else ()):
        for lo, hi in ((1, 10), (-20, -1), (-1000, 1000), (0, 1), (-3, -3), ("1/2", "5/2")):
            yield dict(kind="uniform", n=n, lo=str(lo), hi=str(hi), weight=n)
        for kind in ("normal", "gamma", "pareto"):
            for sign in (1, -1, 2, -3):
                yield dict(kind=kind, n=n, sign=sign, weight=n)


def run(ctx, cfg):
    kind, n = cfg["kind"], cfg["n"]
    if kind == "uniform":
        lo, hi = Fraction(cfg["lo"]), Fraction(cfg["hi"])
        if lo.denominator == 1:
            lo, hi = int(lo), int(hi)
    draws = Draws(ctx)
    module = draws.module()
    drawn = []

    def recorded(f):
        def g(*a, **k):
            x = f(*a, **k)
            # a uniform number may also be made from one between 0 and 1, a normal one by either of two functions
            drawn.append((lo + (hi - lo) * x, a) if f.__name__ == "random" and kind == "uniform" else (x, a))
            return x
        return g
    for name in ("uniform", "random", "normalvariate", "gauss", "gammavariate", "paretovariate"):
        setattr(module, name, recorded(getattr(module, name)))
    ctx.override({"random": module})
    agents = ctx.load("agents")
    ctx.cover(kind)
    if kind == "uniform":
        c = agents.AgentCategory.uniformly_random("someone", n, lo, hi)
        exact = [x for x, _ in drawn]
        for v in c.values:
            ctx.check(ctx.And(ctx.ge(v, lo - Fraction(1, 2)), ctx.le(v, hi + Fraction(1, 2))), "the values are in the asked range (rounded)")
    else:
        s = cfg["sign"]
        f = {"normal": lambda: agents.AgentCategory.normalvariate_random("someone", n, s, 3, 5), "gamma": lambda: agents.AgentCategory.gammavariate_random("someone", n, s, 3, 5),
             "pareto": lambda: agents.AgentCategory.paretovariate_random("someone", n, s, 3)}[kind]
        c = f()
        exact = [(x if x >= 0 else -x) * s for x, _ in drawn]
        want = (3, 5) if kind != "pareto" else (3,)
        ctx.check(all(a == want for _, a in drawn), "the distribution has the asked parameters")
        for v in c.values:
            ctx.check(ctx.ge(v * s, 0), "the values have the asked sign")
    ctx.observe("values", list(c.values))
    ctx.check(c.name == "someone" and len(c) == n == len(c.values), "the category has the asked name and size")
    ctx.check(len(drawn) == n, "every trader is drawn once")
    for a, b in zip(c.values, c.values[1:]):
        ctx.check(ctx.ge(a, b), "the traders are listed from high to low")
    half = Fraction(1, 2)
    if len(exact) == len(c.values):
        # rounding keeps the order: the j-th highest value is the j-th highest draw, rounded
        for v, x in zip(c.values, sorted(exact, reverse=True)):
            ctx.check(ctx.And(ctx.le(v - x, half), ctx.le(x - v, half)), "the values are the drawn numbers, rounded")
