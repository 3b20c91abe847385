"""McAfee's mechanism never runs a deficit."""
from .common import *

BOUNDS = "McAfee with and without the price heuristic, two categories of the listed sizes, recipe [1,1]; without it also one, three and four categories; " + VALUES
COVER = ["balanced", "surplus", "deals>=2", "deals=0"]
LISTED = (6, 40)


def configs(tier):
    return single_configs(tier, ("mcafee", "mcafee0"), wide=("mcafee0",))


def run(ctx, cfg):
    vals = supply(ctx, cfg["sizes"])
    trade = mechanism(ctx, cfg["mech"])(market(ctx, vals), cfg["recipe"])
    k = trade.num_of_deals()
    observe_trade(ctx, trade)
    if k == 0:
        ctx.cover("deals=0")
        return
    if k >= 2:
        ctx.cover("deals>=2")
    total = dot(trade.prices, cfg["recipe"])
    ctx.check(ctx.ge(total, 0), "the auctioneer does not subsidise the trade")
    g_all, g_traders = trade.gain_from_trade(including_auctioneer=True), trade.gain_from_trade(including_auctioneer=False)
    ctx.check(ctx.le(g_traders, g_all), "the traders' gain does not exceed the total gain")
    ctx.check(ctx.eq(g_all - g_traders, total * k), "what the traders do not keep is the auctioneer's surplus")
    ctx.cover("surplus" if total > 0 else "balanced")
