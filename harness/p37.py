"""The currency and the zero points of the categories do not matter."""
from .trees import *
from .trees import auction as tree_auction

BOUNDS = ("all values multiplied by a constant factor (1/3, 2, 1000), or all values of each category moved by an arbitrary amount such that the amounts of one deal sum to zero (single recipes only); mechanisms, recipes, sizes and trees as listed; " + VALUES + " (changed ones likewise)")
COVER = ["factor", "moved", "deals", "no deals"]
LISTED = (5, 20)
FACTORS = ["1/3", "2", "1000"]


def configs(tier):
    big = tier == "thorough"
    single = [("asc", [1, 1], [4, 4]), ("asc", [1, 2], [2, 4]), ("asc", [2, 1], [4, 3]), ("asc", [1, 1, 1], [2, 3, 2]), ("asc", [2, 3], [4, 5]), ("asc", [1, 0, 1], [2, 1, 2]), ("asc", [1, 1], [0, 2]), ("asc", [1, 1, 2], [2, 2, 3]),
              ("ext", [1, 1], [3, 3]), ("ext", [1, 2], [2, 3]), ("ext", [2, 1], [3, 2]), ("ext", [1, 1, 1], [2, 2, 2]), ("ext0", [1, 1], [3, 2]), ("mcafee", [1, 1], [3, 3]), ("mcafee0", [1, 1], [3, 3]), ("mcafee", [1, 1, 1], [2, 2, 2]), ("mcafee0", [1, 1, 1], [2, 2, 2]), ("opt", [1, 1], [3, 4]), ("opt", [1, 2], [2, 5]), ("opt", [2, 1, 1], [4, 2, 3])]
    if big:
        single += [("asc", [1, 1], [6, 6]), ("asc", [1, 1, 1], [4, 4, 4]), ("asc", [3, 2], [7, 5]), ("asc", [1, 1, 1, 1], [2, 2, 2, 2]), ("ext", [1, 1], [4, 4]), ("ext", [2, 2], [4, 4]), ("ext", [1, 1, 1], [3, 3, 3]), ("mcafee", [1, 1], [5, 4]), ("mcafee0", [1, 1], [5, 4]), ("opt", [2, 3], [6, 7])]
    for mech, recipe, sizes in single:
        if mech != "mcafee":
            yield dict(mech=mech, recipe=recipe, sizes=sizes, change="moved", weight=sum(sizes))
        for f in FACTORS if big else FACTORS[:1] + FACTORS[2:]:
            yield dict(mech=mech, recipe=recipe, sizes=sizes, change=f, weight=sum(sizes))
    for c in tree_configs(tier):
        if sum(c["sizes"]) <= (8 if not big else 10):
            for f in ("1/3", "1000") if big else ("2",):
                yield dict(c, mech="tree", change=f)
    for c in every_shape(tier, plan=((4, 1), (5, 1))[:1 if not big else 2], units=(4,)):
        yield dict(c, mech="tree", change="2")


def run(ctx, cfg):
    sizes, change = cfg["sizes"], cfg["change"]
    vals = supply(ctx, sizes)
    if change == "moved":
        ctx.cover("moved")
        f, recipe = 1, cfg["recipe"]
        move = [ctx.real("move%d" % i, -LIM, LIM) for i in range(len(sizes))]
        ctx.assume(ctx.eq(dot(move, recipe), 0))
    else:
        ctx.cover("factor")
        f, move = Fraction(change), [0] * len(sizes)
    changed = [[v * f + t for v in vs] for vs, t in zip(vals, move)]
    for vs in changed:
        for v in vs:
            ctx.assume(ctx.And(ctx.ge(v, -LIM), ctx.le(v, LIM)))
    outcomes = []
    for v in (vals, changed):
        m = market(ctx, v)
        if cfg["mech"] == "opt":
            t, rest = m.optimal_trade(cfg["recipe"])
            outcomes.append((t, [list(c.values) for c in rest.categories], None))
        else:
            t = tree_auction(ctx, cfg, m) if cfg["mech"] == "tree" else mechanism(ctx, cfg["mech"])(m, cfg["recipe"])
            outcomes.append((t, cat_values(t), list(t.prices) if t.num_of_deals() else None))
    (a, left, prices), (b, left2, prices2) = outcomes
    k = a.num_of_deals()
    ctx.observe("deals", [k, b.num_of_deals()])
    ctx.cover("deals" if k else "no deals")
    ctx.check(k == b.num_of_deals(), "the same number of deals")
    ctx.check(ctx.eq(b.gain_from_trade(), a.gain_from_trade() * f), "the same gain (in the new currency)")
    ctx.check(len(left) == len(left2) and ctx.And(*[ctx.all_eq(y, [v * f + t for v in x]) for x, y, t in zip(left, left2, move)]), "the same traders remain")
    if prices is not None and prices2 is not None:
        # in a tree: the categories that can trade (the price of a path on which a category ran empty means nothing)
        part = sorted({i for path in paths(SHAPES[cfg["tree"]][0]) for i in path if all(len(left[j]) >= counts_of(cfg)[j] for j in path)}) if cfg["mech"] == "tree" else [i for i, r in enumerate(cfg["recipe"]) if r]
        ctx.check(len(prices) == len(prices2) and ctx.And(*[ctx.eq(prices2[i], prices[i] * f + move[i]) for i in part]), "the same prices (in the new currency, moved with the category)")
