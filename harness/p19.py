"""Initial prices: below every trader's value and with the same sum on every recipe."""
import math
import types

from .trees import *

BOUNDS = ("initial prices of both kinds of price vectors for the recipes of the listed trees and units per deal; the highest initial price is an arbitrary real in [-10^9, -10^3]; the linear-programming library is replaced "
          "by its contract (any point that satisfies the equations, inequalities and bounds it is given), and by the library itself when a run is replayed")
ASSUMPTIONS = ["scipy.optimize.linprog returns a point that satisfies the constraints it was given (symbolic runs use an arbitrary such point)"]
COVER = ["one recipe", "several recipes", "uneven"]


def configs(tier):
    cases = [(t, None) for t in SHAPES] + [("pair", [2, 3]), ("fork", [1, 2, 1]), ("fork", [2, 1, 3]), ("mixed", [1, 2, 1, 2]), ("mixed", [1, 1, 2, 3]), ("mixed", [3, 2, 1, 1]), ("late", [1, 2, 3, 1]), ("single", [2]), ("sparse", [2, 1, 3]),
                                           ("wide", [1, 2, 1, 1, 3]), ("deep", [1, 1, 2, 1, 4]), ("three", [2, 1, 3, 2, 2]), ("twice", [1, 2, 1, 3, 1, 2]), ("fork3", [2, 1, 2, 3])]
    for n in (3, 4, 5, 6):
        for t in all_shapes(n):
            cases += [(t, None), (t, [1 + i % 2 for i in range(n)]), (t, [1 + (2 * i + 1) % 3 for i in range(n)]), (t, [3 - i % 3 for i in range(n)])]
    for tree, counts in cases:
        for module in ("prices", "prices_integer"):
            if module == "prices_integer" or counts is None:
                yield dict(module=module, tree=tree, counts=counts)
    # the same recipes in any order, not only as a tree lists them
    for recipes in ([[1, 0, 1, 1], [1, 1, 0, 0]], [[1, 1, 0, 0, 0], [0, 0, 1, 1, 1]], [[0, 1, 1], [1, 1, 0]], [[1, 1, 0, 0], [1, 0, 1, 0], [1, 0, 0, 1]]):
        for module in ("prices", "prices_integer"):
            yield dict(module=module, recipes=recipes)


def linprog(ctx):
    """Contract of the library call: an arbitrary feasible point."""
    def solve(c, A_ub=None, b_ub=None, A_eq=None, b_eq=None, bounds=None, **options):
        n = len(c)
        x = [ctx.real("lp%d" % j, -10 ** 12, 10 ** 12) for j in range(n)]
        if bounds is None:
            bounds = (0, None)
        bs = list(bounds)
        if len(bs) == 2 and not isinstance(bs[0], (list, tuple)):
            bs = [tuple(bs)]
        if len(bs) == 1:
            bs = bs * n
        for v, (lo, hi) in zip(x, bs):
            if lo is not None and lo != -math.inf:
                ctx.assume(ctx.ge(v, lo))
            if hi is not None and hi != math.inf:
                ctx.assume(ctx.le(v, hi))
        for row, b in zip(A_eq if A_eq is not None else [], b_eq if b_eq is not None else []):
            ctx.assume(ctx.eq(dot(row, x), b))
        for row, b in zip(A_ub if A_ub is not None else [], b_ub if b_ub is not None else []):
            ctx.assume(ctx.le(dot(row, x), b))
        return types.SimpleNamespace(status=0, success=True, x=x, fun=dot(c, x), message="ok")
    return solve


def run(ctx, cfg):
    if ctx.symbolic:
        opt = types.ModuleType("scipy.optimize")
        opt.linprog = linprog(ctx)
        top = types.ModuleType("scipy")
        top.optimize = opt
        ctx.override({"scipy": top, "scipy.optimize": opt})
    mod = ctx.load(cfg["module"])
    if "recipes" in cfg:
        recipes = cfg["recipes"]
        n = len(recipes[0])
    else:
        struct, n = SHAPES[cfg["tree"]]
        counts = counts_of(cfg)
        recipes = [[counts[i] if i in p else 0 for i in range(n)] for p in paths(struct)]
    ctx.cover("one recipe" if len(recipes) == 1 else "several recipes")
    if len({sum(r) for r in recipes}) > 1:
        ctx.cover("uneven")
    top = ctx.real("top", -10 ** 9, -10 ** 3)
    given = [list(r) for r in recipes]
    prices = mod.calculate_initial_prices(given, top)
    if cfg["module"] == "prices_integer":
        ctx.observe("prices", list(prices))
    ctx.check(len(prices) == n, "one price per category")
    ctx.check(given == recipes, "the recipes are left as they were")
    for i, p in enumerate(prices):
        if any(r[i] for r in recipes):
            ctx.check(ctx.le(p, top), "no price starts above the given value")
    for r in recipes[1:]:
        ctx.check(ctx.eq(dot(prices, r), dot(prices, recipes[0])), "every recipe starts with the same price sum")
