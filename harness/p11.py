"""The optimal trade and the remaining market partition the traders."""
from .common import *

BOUNDS = "optimal trade for a single recipe, also with a limit on the number of deals; recipes and category sizes as listed; " + VALUES
COVER = ["several deals", "no deals", "limited"]
LISTED = (6, 40)


def configs(tier):
    base = [([1, 1], [4, 4]), ([1, 2], [3, 7]), ([2, 1], [6, 3]), ([1, 1, 1], [3, 3, 4]), ([2, 3], [4, 7]), ([3, 2, 2], [6, 5, 4]), ([1, 0, 1], [3, 2, 3]), ([1, 0, 1], [3, 0, 3]), ([0, 2, 1], [0, 5, 3]), ([1, 1, 0], [0, 2, 3]), ([1, 1], [0, 0]), ([3], [7]), ([1, 1], [0, 3]), ([1, 1, 1, 1], [2, 2, 3, 2])]
    if tier == "thorough":
        base += [([1, 1], [8, 8]), ([1, 2], [6, 12]), ([2, 2], [10, 10]), ([1, 1, 1, 1], [4, 4, 4, 4])]
    for n, top in ((1, 4), (2, 3), (3, 3 if tier == "thorough" else 2), (4, 2 if tier == "thorough" else 1)):
        for shape in (lambda i, r: 3 * r + (i + 1) % 2, lambda i, r: 2 * r - i % 2 if r else 0):
            base += [c for c in every_recipe(n, top, shape) if c not in base]
    for c in tall_configs("thorough", ("asc",)):
        for zero, limit in ((True, None), (False, None), (True, 4)):
            yield dict({k: v for k, v in c.items() if k != "mech"}, zero=zero, limit=limit)
    for recipe, sizes in base:
        for zero, limit in ((True, None), (False, None), (True, 1), (True, 2), (True, 0), (False, 1), (True, 100)):
            yield dict(recipe=recipe, sizes=sizes, zero=zero, limit=limit, weight=sum(sizes))


def run(ctx, cfg):
    sizes, recipe, limit = cfg["sizes"], cfg["recipe"], cfg["limit"]
    vals = supply(ctx, sizes)
    m = market(ctx, vals)
    if limit is None:
        trade, rest = m.optimal_trade(recipe, include_zero_gft_ps=cfg["zero"])
    else:
        trade, rest = m.optimal_trade(recipe, max_iterations=limit, include_zero_gft_ps=cfg["zero"])
    deals = [list(ps) for ps in trade.procurement_sets]
    K = trade.num_of_deals()
    ctx.observe("deals", deals)
    ctx.observe("rest", [list(c.values) for c in rest.categories])
    ctx.check(K == len(deals), "the number of deals is the number of procurement sets")
    if limit is not None:
        ctx.check(K <= limit, "no more deals than requested")
        ctx.cover("limited")
        if K < limit and K < max_deals(sizes, recipe):
            ctx.check((ctx.lt if cfg["zero"] else ctx.le)(deal(vals, recipe, K), 0), "the limit is not reached only if no profitable deal is left")
    ctx.cover("several deals" if K > 1 else "no deals" if K == 0 else "one deal")
    for a, b in zip(deals, deals[1:]):
        ctx.check(ctx.le(sum(a, 0), sum(b, 0)), "deals are listed in ascending order of their gain")
    if any(len(ps) != sum(recipe) for ps in deals):
        ctx.fail("every deal has exactly the traders that the recipe asks for")
        return
    pos = 0
    for i, r in enumerate(recipe):
        traded = [v for ps in reversed(deals) for v in ps[pos:pos + r]]
        pos += r
        left = list(rest.categories[i].values)
        ctx.check(rest.categories[i].name == category_name(ctx, i), "the remaining market has the same categories")
        # deals with equal gain may be listed in any order: compare as multisets
        ctx.check(ctx.all_eq(sorted(traded + left, reverse=True), vals[i]), "each trader is either in one deal or in the remaining market")
        ctx.check(ctx.all_eq(left, vals[i][len(vals[i]) - len(left):]), "the remaining traders are the lowest ones, from high to low")
        ctx.check(ctx.all_eq(m.categories[i].values, vals[i]), "the market itself is left as it was")
    ctx.check(ctx.eq(trade.gain_from_trade(), sum((sum(ps, 0) for ps in deals), 0)), "the gain of the trade is the sum of its deals")
