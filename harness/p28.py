"""Counting the optimal deals of every recipe."""
from .trees import *

BOUNDS = ("binary and integer recipe trees; the counts are compared with all optimal plans (deals per recipe); shapes (among them every ordered tree with 3 to 7 categories), sizes and units per deal as listed; " + VALUES)
COVER = ["one recipe used", "two recipes used", "differ", "nothing"]
LISTED = (6, 24)


def configs(tier):
    yield from tree_configs(tier)
    yield from tall_trees(tier)
    yield from tall_trees(tier, more=True)
    for tree, sizes in ("pair", [24, 23]), ("chain3", [20, 17, 22]), ("fork", [3, 17, 2]), ("fork", [19, 2, 2]):
        for kind in ("bin", "int"):
            yield dict(kind=kind, tree=tree, sizes=sizes, values="even", weight=sum(sizes))
    for sizes in [3, 15, 16], [24, 15, 15], [30, 9, 26]:
        yield dict(kind="bin" if sizes[0] == 3 else "int", tree="fork", sizes=sizes, values="levels", weight=sum(sizes))
    yield from every_shape(tier)


def run(ctx, cfg):
    sizes, struct, counts = cfg["sizes"], SHAPES[cfg["tree"]][0], counts_of(cfg)
    vals = supply(ctx, sizes)
    tree = recipe_tree(ctx, cfg, market(ctx, vals).categories)
    deals, K, gft, kmin, kmax = tree.optimal_trade_with_counters()
    ctx.observe("counts", [K, kmin, kmax])
    ctx.observe("gft", gft)
    _, K2, gft2 = recipe_tree(ctx, cfg, market(ctx, vals).categories).optimal_trade()
    ctx.check(K == K2 and len(deals) == K, "the same number of deals as the optimal trade")
    ctx.check(ctx.eq(gft, gft2), "the same gain as the optimal trade")
    if K == 0:
        ctx.cover("nothing")
        ctx.check(kmin == 0 and kmax == 0, "no deals, no recipe used")
        return
    plans = plan_values(struct, vals, counts)
    best = []
    for n, g, vec in plans:
        used = [x for x in vec if x]
        if n == K and used and min(used) == kmin and max(used) == kmax:
            best.append(ctx.eq(g, gft))
    ctx.check(ctx.Or(*best), "some optimal plan has these smallest and largest numbers of deals per used recipe")
    ctx.cover("one recipe used" if kmax == K else "two recipes used")
    if kmin != kmax:
        ctx.cover("differ")
