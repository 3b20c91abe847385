"""Strong budget balance of the two SBB mechanisms for a single recipe."""
from .common import *

BOUNDS = ("ascending auction and external competition; recipes and category sizes as listed per configuration; " + VALUES)
COVER = ["deals>0", "deals=0", "deals>=2"]
LISTED = (6, 40)


def configs(tier):
    return single_configs(tier, ("asc", "ext", "ext0"))


def run(ctx, cfg):
    vals = supply(ctx, cfg["sizes"])
    trade = mechanism(ctx, cfg["mech"])(market(ctx, vals), cfg["recipe"])
    k = trade.num_of_deals()
    observe_trade(ctx, trade)
    ctx.cover("deals>0" if k > 0 else "deals=0")
    if k > 0:
        if k >= 2:
            ctx.cover("deals>=2")
        ctx.check(ctx.eq(dot(trade.prices, cfg["recipe"]), 0), "the prices of a deal sum to zero")
        ctx.check(ctx.eq(trade.gain_from_trade(including_auctioneer=True), trade.gain_from_trade(including_auctioneer=False)),
                  "the traders keep the whole gain from trade")
