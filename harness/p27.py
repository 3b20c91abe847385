"""The integer recipe-tree auction with one unit per category is the binary recipe-tree auction."""
from .trees import *

BOUNDS = "integer recipe-tree auction (no units given, or one unit each) against the binary one; trees and sizes as listed; " + VALUES
COVER = ["trade", "no trade"]
LISTED = (6, 24)


def configs(tier):
    for c in tree_configs(tier, kinds=("bin",)):
        yield dict(c, ones=False)
        if sum(c["sizes"]) <= 8:
            yield dict(c, ones=True)
    for c in tall_trees(tier, kinds=("bin",)):
        yield dict(c, ones=False)
    for c in every_shape(tier, kinds=("bin",), plan=((4, 1), (5, 1), (6, 1))):
        yield dict(c, ones=False)
        yield dict(c, ones=True)


def run(ctx, cfg):
    vals = supply(ctx, cfg["sizes"])
    a = auction(ctx, cfg, market(ctx, vals))
    other = dict(cfg, kind="int")
    if cfg["ones"]:
        other["counts"] = [1] * len(vals)
    b = auction(ctx, other, market(ctx, vals))
    ctx.observe("deals", [a.num_of_deals(), b.num_of_deals()])
    ctx.check(a.num_of_deals() == b.num_of_deals(), "same number of deals")
    ctx.check(ctx.eq(a.gain_from_trade(), b.gain_from_trade()), "same gain")
    if a.num_of_deals() == 0 or b.num_of_deals() == 0:
        ctx.cover("no trade")
        return
    ctx.cover("trade")
    ctx.check(ctx.all_eq(a.prices, b.prices), "same prices")
    for x, y in zip(cat_values(a), cat_values(b)):
        ctx.check(ctx.all_eq(x, y), "same remaining traders")
