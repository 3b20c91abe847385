"""Recipe-tree auctions: individual rationality, top traders stay, nobody outside wants in."""
from .trees import *

BOUNDS = ("binary and integer recipe-tree auctions; tree shapes (among them every ordered tree with 4 to 6 categories), category sizes and units per deal as listed per configuration; " + VALUES)
COVER = ["deals>0", "excluded", "kept"]
LISTED = (6, 24)


def configs(tier):
    yield from tree_configs(tier)
    yield from tall_trees(tier)
    yield from every_shape(tier, plan=((4, 1), (5, 1), (6, 1)), units=(4, 5) if tier == "thorough" else (4,))


def run(ctx, cfg):
    vals = supply(ctx, cfg["sizes"])
    t = auction(ctx, cfg, market(ctx, vals))
    observe_tree_trade(ctx, t)
    struct = SHAPES[cfg["tree"]][0]
    taking_part = nodes(struct)
    for i, vs in enumerate(vals):
        left = list(t.categories[i].values)
        ctx.check(len(left) <= len(vs) and ctx.all_eq(left, vs[:len(left)]), "the traders that stay are the highest-valued ones of their category")
        if i not in taking_part:
            ctx.check(len(left) == len(vs), "a category outside the tree is left alone")
    if t.num_of_deals() == 0:
        return
    ctx.cover("deals>0")
    for i in taking_part:
        n = len(t.categories[i].values)
        for v in vals[i][:n]:
            ctx.cover("kept")
            ctx.check(ctx.ge(v, t.prices[i]), "no trader that stays loses at the price (category %d)" % i)
        for v in vals[i][n:]:
            ctx.cover("excluded")
            ctx.check(ctx.le(v, t.prices[i]), "no trader that left would gain at the price (category %d)" % i)
