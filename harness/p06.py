"""The winners are the highest-valued traders, and nobody who is excluded would want to trade at the prices."""
from .common import *

BOUNDS = ("ascending auction (all recipes), external competition and McAfee (for the second part: recipes of ones, and buyers with positive and sellers with negative values for McAfee with the price heuristic); recipes and "
          "category sizes as listed per configuration; " + VALUES)
COVER = ["excluded", "deals>0"]
LISTED = (6, 40)


def configs(tier):
    yield from single_configs(tier, ("asc", "ext", "ext0", "mcafee0"), wide=("mcafee0",))
    for c in single_configs(tier, ("mcafee",)):
        yield dict(c, signs=[1, -1])
        yield dict(c, signs=[-1, 1])


def run(ctx, cfg):
    sizes, recipe = cfg["sizes"], cfg["recipe"]
    vals = supply(ctx, sizes)
    assume_signs(ctx, vals, cfg.get("signs"))
    trade = mechanism(ctx, cfg["mech"])(market(ctx, vals), recipe)
    k = trade.num_of_deals()
    observe_trade(ctx, trade)
    if k == 0:
        return
    ctx.cover("deals>0")
    strict = cfg["mech"] == "asc" or all(r == 1 for r in recipe)
    for i, r in enumerate(recipe):
        if r == 0:
            continue
        win = list(trade.categories[i].values)
        ctx.check(len(win) >= k * r, "enough participating traders for the announced deals")
        ctx.check(len(win) <= sizes[i], "no invented traders")
        ctx.check(ctx.all_eq(win, vals[i][:len(win)]), "the participating traders are the highest-valued ones of their category")
        for v in vals[i][len(win):]:
            ctx.cover("excluded")
            if strict:
                ctx.check(ctx.le(v, trade.prices[i]), "no excluded trader values the trade above its price")
