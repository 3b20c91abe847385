"""Strong budget balance of the recipe-tree auctions, on every recipe."""
from .trees import *

BOUNDS = ("binary and integer recipe-tree auctions; tree shapes (among them every ordered tree with 4 to 6 categories), category sizes and units per deal as listed per configuration; " + VALUES)
COVER = ["deals>0", "deals=0", "deals>=2", "two paths used"]
LISTED = (6, 24)


def configs(tier):
    yield from tree_configs(tier)
    yield from tall_trees(tier)
    yield from every_shape(tier, plan=((4, 1), (5, 1), (6, 1)), units=(4, 5) if tier == "thorough" else (4,))


def run(ctx, cfg):
    vals = supply(ctx, cfg["sizes"])
    t = auction(ctx, cfg, market(ctx, vals))
    k = t.num_of_deals()
    observe_tree_trade(ctx, t)
    ctx.cover("deals>0" if k > 0 else "deals=0")
    if k == 0:
        return
    if k >= 2:
        ctx.cover("deals>=2")
    struct, counts = SHAPES[cfg["tree"]][0], counts_of(cfg)
    units = units_of(cfg, t.categories)
    if sum(all(units[i] > 0 for i in p) for p in paths(struct)) >= 2:
        ctx.cover("two paths used")
    for p in paths(struct):
        ctx.check(ctx.eq(sum((t.prices[i] * counts[i] for i in p), 0), 0), "the prices of the recipe %s sum to zero" % p)
