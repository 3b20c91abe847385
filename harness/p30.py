"""Every mechanism ends with a result on every market, also with empty categories."""
from .trees import *

BOUNDS = ("all mechanisms, recipe-tree auctions and optimal trades; every category may be empty: the sizes are variables with the listed upper limits; tree shapes, recipes and units per deal as listed; " + VALUES)
COVER = ["an empty category", "trade", "no trade"]


def configs(tier):
    big = tier == "thorough"
    for tree, lim in [("pair", 3), ("chain3", 2), ("fork", 2), ("mixed", 2), ("late", 1), ("fork3", 1), ("deep", 1), ("wide", 1), ("single", 4)] + ([("late", 2), ("fork3", 2), ("three", 1), ("twice", 1), ("fork", 3)] if big else []):
        n = SHAPES[tree][1]
        yield dict(kind="bin", tree=tree, limits=[lim] * n, weight=n * lim)
        yield dict(kind="int", tree=tree, limits=[lim] * n, counts=None, weight=n * lim)
        yield dict(kind="int", tree=tree, limits=[min(3 if n < 4 else 2, lim + i % 2) for i in range(n)], counts=[1 + i % 2 for i in range(n)], weight=n * lim + 2)
        if big or n <= 3:
            yield dict(kind="int", tree=tree, limits=[min(3, lim + 1 - i % 2) for i in range(n)], counts=[2 - i % 2 for i in range(n)], weight=n * lim + 2)
    for n, lim in ((4, 1), (5, 1)):
        for tree in all_shapes(n):
            yield dict(kind="bin", tree=tree, limits=[lim] * n, weight=n * lim)
            yield dict(kind="int", tree=tree, limits=[lim] * n, counts=None, weight=n * lim)
            yield dict(kind="int", tree=tree, limits=[lim + i % 2 for i in range(n)], counts=[1 + i % 2 for i in range(n)], weight=n * lim + 2)
    for mech in ("asc", "ext", "ext0"):
        for recipe, lim in [([1, 1], [3, 3]), ([1, 1, 1], [2, 2, 2]), ([1, 2], [2, 3]), ([2, 1], [3, 2]), ([2, 3], [2, 4])] + [([1, 0, 1], [2, 1, 2]), ([0, 1, 1], [1, 2, 2]), ([1, 1, 0], [2, 2, 1]), ([0, 2, 1], [1, 3, 2])]:
            yield dict(kind=mech, recipe=recipe, limits=lim, weight=sum(lim))
    for mech in ("mcafee", "mcafee0"):
        for recipe, lim in [([1, 1], [3, 3]), ([1], [4]), ([1, 1, 1], [2, 2, 2]), ([1, 1, 1, 1], [1, 1, 1, 1])]:
            yield dict(kind=mech, recipe=recipe, limits=lim, weight=6)
    for recipe, lim in [([1, 1], [3, 3]), ([1, 2, 1], [2, 3, 2]), ([1, 0, 2], [2, 1, 3])]:
        yield dict(kind="opt", recipe=recipe, limits=lim, weight=3)


def run(ctx, cfg):
    sizes = [ctx.choose("size%d" % i, 0, n) for i, n in enumerate(cfg["limits"])]
    vals = supply(ctx, sizes)
    if 0 in sizes:
        ctx.cover("an empty category")
    m = market(ctx, vals)
    if cfg["kind"] in ("bin", "int"):
        t = auction(ctx, cfg, m)
    elif cfg["kind"] == "opt":
        t = m.optimal_trade(cfg["recipe"])[0]
    else:
        t = mechanism(ctx, cfg["kind"])(m, cfg["recipe"])
    k = t.num_of_deals()
    ctx.observe("deals", k)
    ctx.observe("gain", t.gain_from_trade())
    ctx.check(isinstance(str(t), str) and k >= 0, "a result is announced")
    ctx.cover("trade" if k else "no trade")
    if cfg["kind"] in ("bin", "int"):
        units = [n // c for n, c in zip(sizes, counts_of(cfg))]
        ctx.check(k <= capacity(SHAPES[cfg["tree"]][0], units), "no deal without traders")
    else:
        ctx.check(k <= max_deals(sizes, cfg["recipe"]), "no deal without traders")
    ctx.check(k > 0 or ctx.eq(t.gain_from_trade(), 0), "without a deal there is no gain")
