"""Accounting of a trade: deals, gains and the auctioneer's surplus."""
from .common import *

BOUNDS = ("trades with arbitrary prices (not only those the mechanisms produce) over categories of the listed sizes, and lists of "
          "procurement sets; " + VALUES + ", every price likewise")
COVER = ["trade", "no trade", "lottery"]


def configs(tier):
    base = [([1, 1], [3, 3]), ([1, 1], [4, 2]), ([1, 2], [2, 5]), ([2, 1], [6, 2]), ([2, 3], [5, 7]), ([1, 1, 1], [2, 3, 4]), ([1, 0, 1], [2, 0, 3]), ([0, 2], [3, 5]), ([1, 1], [0, 3]), ([3, 2], [2, 2]),
            ([1], [4]), ([3], [7]), ([1, 1, 0, 2], [3, 2, 1, 5]), ([1, 1], [40, 33]), ([3, 2], [37, 50]), ([1, 1, 1], [25, 24, 26])]
    if tier == "thorough":
        base += [([4, 3, 2, 1], [11, 9, 7, 5]), ([2, 2], [12, 11]), ([1, 5], [3, 17])]
    for n, top in ((1, 4), (2, 4), (3, 3), (4, 1)):
        for shape in (lambda i, r: 3 * r + (2 * i + 1) % 3, lambda i, r: 2 * r - i % 2 if r else 0, lambda i, r: (4 - i) * r + 1):
            base += [c for c in every_recipe(n, top, shape) if c not in base]
    for recipe, sizes in base:
        yield dict(kind="single", recipe=recipe, sizes=sizes)
    for sizes in ([0], [1], [3], [2, 3, 1], [2] * 30):
        yield dict(kind="sets", sizes=sizes)


def run(ctx, cfg):
    agents, trade_mod = ctx.load("agents"), ctx.load("trade")
    if cfg["kind"] == "sets":
        sets = [tuple(ctx.real("p%d_%d" % (i, j), -LIM, LIM) for j in range(n)) for i, n in enumerate(cfg["sizes"]) if n]
        t = trade_mod.TradeWithMaterialBalance(list(sets))
        ctx.check(t.num_of_deals() == len(sets), "one deal per procurement set")
        ctx.check(ctx.eq(t.gain_from_trade(), sum((v for ps in sets for v in ps), 0)), "the gain is the sum of all values in the deals")
        ctx.observe("gft", t.gain_from_trade())
        return
    sizes, recipe = cfg["sizes"], cfg["recipe"]
    vals = supply(ctx, sizes)
    prices = [ctx.real("price%d" % i, -LIM, LIM) for i in range(len(sizes))]
    t = trade_mod.TradeWithSinglePrice([agents.AgentCategory("c%d" % i, list(v)) for i, v in enumerate(vals)], list(recipe), list(prices))
    k = t.num_of_deals()
    ctx.check(k == max_deals(sizes, recipe), "as many deals as the scarcest category allows")
    g1, g2 = t.gain_from_trade(including_auctioneer=True), t.gain_from_trade(including_auctioneer=False)
    ctx.observe("gft", [k, g1, g2])
    ctx.check(ctx.eq(t.gain_from_trade(), g1), "by default the auctioneer's part is included")
    if k == 0:
        ctx.cover("no trade")
        ctx.check(ctx.And(ctx.eq(g1, 0), ctx.eq(g2, 0)), "no trade, no gain")
        return
    ctx.cover("trade")
    expected = 0
    for vs, r in zip(vals, recipe):
        if r:
            if len(vs) > k * r:
                ctx.cover("lottery")
            expected = expected + sum(vs, 0) * Fraction(k * r, len(vs))
    ctx.check(ctx.eq(g1, expected), "the gain is the expected value of the randomly selected traders")
    ctx.check(ctx.eq(g1 - g2, dot(prices, recipe) * k), "the difference is what the auctioneer collects")
    for i, c in enumerate(t.categories):
        ctx.check(ctx.all_eq(c.values, vals[i]), "the traders are reported as given")
