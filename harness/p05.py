"""Competitive ratio: GFT of the mechanisms against the optimum."""
from .common import *

BOUNDS = ("ascending auction, external competition, McAfee; recipes and category sizes as listed per configuration; " + VALUES)
COVER = ["loss", "no loss", "K>=2"]
LISTED = (6, 40)


def configs(tier):
    return single_configs(tier, ("asc", "ext", "ext0", "mcafee", "mcafee0"), wide=("mcafee", "mcafee0"))


def run(ctx, cfg):
    sizes, recipe = cfg["sizes"], cfg["recipe"]
    vals = supply(ctx, sizes)
    trade = mechanism(ctx, cfg["mech"])(market(ctx, vals), recipe)
    gft = trade.gain_from_trade()
    observe_trade(ctx, trade)
    ctx.observe("gft", gft)
    top, K, opt = max_deals(sizes, recipe), 0, 0
    while K < top and (deal(vals, recipe, K) > 0 if cfg["mech"] == "ext0" else deal(vals, recipe, K) >= 0):
        opt = opt + deal(vals, recipe, K)
        K += 1
    ctx.check(ctx.le(gft, opt), "the gain from trade is at most the optimum")
    ctx.check(ctx.ge(gft, 0), "the gain from trade is not negative")
    if K > 0:
        ctx.check(ctx.ge(gft * K, opt * (K - 1)), "at least 1-1/K of the optimal gain is attained")
        ctx.cover("loss" if trade.num_of_deals() < K else "no loss")
        if K >= 2:
            ctx.cover("K>=2")
