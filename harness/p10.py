"""The optimal trade is optimal."""
from .common import *

BOUNDS = "optimal trade for a single recipe (with and without zero-gain deals); recipes and category sizes as listed; " + VALUES
COVER = ["all deals good", "some deals bad", "zero-gain deal", "nothing"]
LISTED = (6, 40)


def configs(tier):
    base = [([1, 1], [5, 5]), ([1, 1], [2, 6]), ([1, 1], [6, 2]), ([1, 2], [4, 8]), ([2, 1], [9, 4]), ([1, 1, 1], [4, 4, 4]), ([2, 3], [7, 9]), ([3, 2, 2], [7, 5, 4]),
            ([1, 0, 1], [3, 2, 3]), ([1, 0, 1], [3, 0, 3]), ([0, 2, 1], [0, 5, 3]), ([1, 1, 0], [0, 2, 3]), ([1, 1], [0, 0]), ([0, 2], [1, 5]), ([3], [7]), ([1, 1], [0, 4]), ([1, 1, 1, 1], [3, 3, 3, 3]), ([4, 3, 2, 1], [8, 7, 5, 3])]
    if tier == "thorough":
        base += [([1, 1], [12, 12]), ([1, 2], [10, 20]), ([2, 2], [16, 16]), ([1, 1, 1, 1, 1], [5, 5, 5, 5, 5]), ([1, 3], [6, 18]), ([5, 1], [20, 5])]
    for n, top in ((1, 4), (2, 3), (3, 3 if tier == "thorough" else 2), (4, 2 if tier == "thorough" else 1)):
        for shape in (lambda i, r: 3 * r + (i + 1) % 2, lambda i, r: 2 * r - i % 2 if r else 0):
            base += [c for c in every_recipe(n, top, shape) if c not in base]
    for c in tall_configs("thorough", ("asc",)):
        for zero in (True, False):
            yield dict({k: v for k, v in c.items() if k != "mech"}, zero=zero)
    for recipe, sizes in base:
        for zero in (True, False):
            yield dict(recipe=recipe, sizes=sizes, zero=zero, weight=sum(sizes))


def run(ctx, cfg):
    sizes, recipe = cfg["sizes"], cfg["recipe"]
    vals = supply(ctx, sizes)
    m = market(ctx, vals)
    trade, rest = m.optimal_trade(recipe, include_zero_gft_ps=cfg["zero"])
    K, gft = trade.num_of_deals(), trade.gain_from_trade()
    ctx.observe("deals", K)
    ctx.observe("gft", gft)
    top = max_deals(sizes, recipe)
    ctx.check(K <= top, "no more deals than the market supports")
    ctx.check(ctx.eq(gft, sum((sum(vs[:K * r], 0) for vs, r in zip(vals, recipe)), 0)), "the gain is that of the K best procurement sets")
    pos, sets = 0, [list(ps) for ps in trade.procurement_sets]
    for vs, r in zip(vals, recipe):
        traders = sorted((v for ps in reversed(sets) for v in ps[pos:pos + r]), reverse=True)
        ctx.check(len(traders) == K * r and ctx.all_eq(traders, vs[:K * r]), "the deals consist of the best traders of each category")
        pos += r
    # any n deals gain at most the n*r_i highest traders of each category
    total = 0
    for n in range(top + 1):
        ctx.check(ctx.ge(gft, total), "no set of %d deals gains more" % n)
        if n < top:
            total = total + deal(vals, recipe, n)
    if K > 0:
        worst = deal(vals, recipe, K - 1)
        ctx.check(ctx.ge(worst, 0) if cfg["zero"] else ctx.gt(worst, 0), "no deal of the optimal trade loses (or, when excluded, gains nothing)")
        if worst == 0:
            ctx.cover("zero-gain deal")
    else:
        ctx.cover("nothing")
    if K < top:
        ctx.cover("some deals bad")
        nxt = deal(vals, recipe, K)
        ctx.check(ctx.lt(nxt, 0) if cfg["zero"] else ctx.le(nxt, 0), "no profitable deal is left in the market")
    else:
        ctx.cover("all deals good")
