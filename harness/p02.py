"""Individual rationality: whoever takes part in the trade has a value at least as high as the price of its category."""
from .common import *

BOUNDS = ("ascending auction, external competition (with and without zero-gain competition), McAfee (with and without price "
          "heuristic, two categories); recipes and category sizes as listed per configuration; " + VALUES)
COVER = ["asc trades", "ext trades", "ext0 trades", "mcafee trades", "mcafee0 trades"]
LISTED = (6, 40)


def configs(tier):
    return single_configs(tier, ("asc", "ext", "ext0", "mcafee", "mcafee0"), wide=("mcafee", "mcafee0"))


def run(ctx, cfg):
    vals = supply(ctx, cfg["sizes"])
    trade = mechanism(ctx, cfg["mech"])(market(ctx, vals), cfg["recipe"])
    k = trade.num_of_deals()
    observe_trade(ctx, trade)
    if k > 0:
        ctx.cover(cfg["mech"] + " trades")
        for i, r in enumerate(cfg["recipe"]):
            if r > 0:
                for v in trade.categories[i].values:
                    ctx.check(ctx.ge(v, trade.prices[i]), "no participating trader loses (category %d)" % i)
