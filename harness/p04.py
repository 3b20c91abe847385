"""At most one deal is lost compared to the optimum, and never a deal more than the optimum."""
from .common import *

BOUNDS = ("ascending auction, external competition, McAfee; recipes and category sizes as listed per configuration; " + VALUES)
COVER = ["lost one deal", "lost nothing"]
LISTED = (6, 40)


def configs(tier):
    return single_configs(tier, ("asc", "ext", "ext0", "mcafee", "mcafee0"), wide=("mcafee", "mcafee0"))


def run(ctx, cfg):
    sizes, recipe = cfg["sizes"], cfg["recipe"]
    vals = supply(ctx, sizes)
    trade = mechanism(ctx, cfg["mech"])(market(ctx, vals), recipe)
    k = trade.num_of_deals()
    observe_trade(ctx, trade)
    top = max_deals(sizes, recipe)
    ctx.check(k <= top, "no more deals than there are traders")
    ctx.check(k == 0 or ctx.ge(deal(vals, recipe, k - 1), 0), "no more deals than the optimal trade has")
    ctx.check(k + 2 > top or (ctx.le if cfg["mech"] == "ext0" else ctx.lt)(deal(vals, recipe, k + 1), 0), "at most one deal fewer than the optimal trade")
    if k < top and deal(vals, recipe, k) >= 0:
        ctx.cover("lost one deal")
    else:
        ctx.cover("lost nothing")
