"""Numbering and naming of the categories and the order of branches do not matter in the recipe-tree auctions."""
from .trees import *

BOUNDS = "binary and integer recipe-tree auctions; the same market with its categories renumbered and renamed, or with the branches listed in the opposite order; trees, sizes, units per deal and renumberings as listed; " + VALUES
COVER = ["trade", "no trade"]
LISTED = (6, 24)


def renumber(struct, perm):
    return None if struct is None else [perm[x] if i % 2 == 0 else renumber(x, perm) for i, x in enumerate(struct)]


def mirror(struct):
    """The same tree with the branches of every node listed in the opposite order."""
    if struct is None:
        return None
    return [x for i, sub in reversed(children(struct)) for x in (i, mirror(sub))]


def configs(tier):
    for c in tree_configs(tier, single=False):
        n = SHAPES[c["tree"]][1]
        perms = [list(range(n))[::-1], list(range(1, n)) + [0]]
        for p in perms[:1] if n == 2 or tier == "quick" and sum(c["sizes"]) > 7 else perms:
            yield dict(c, perm=p, mirror=False)
        if len(paths(SHAPES[c["tree"]][0])) > 1:
            yield dict(c, perm=list(range(n)), mirror=True)
    for c in tall_trees(tier):
        n = SHAPES[c["tree"]][1]
        if tier != "quick" or c["tree"] in ("pair", "chain3") or sum(c["sizes"]) < 11:
            yield dict(c, perm=list(range(1, n)) + [0], mirror=False)
            if len(paths(SHAPES[c["tree"]][0])) > 1:
                yield dict(c, perm=list(range(n)), mirror=True)
    for c in every_shape(tier, plan=((4, 1), (5, 1), (6, 1))[:2 if tier == "quick" else 3], units=(4,)):
        n = len(c["sizes"])
        yield dict(c, perm=list(range(1, n)) + [0], mirror=False)
        if len(paths(SHAPES[c["tree"]][0])) > 1:
            yield dict(c, perm=list(range(n)), mirror=True)


def run(ctx, cfg):
    vals = supply(ctx, cfg["sizes"])
    struct, n = SHAPES[cfg["tree"]]
    counts, perm = counts_of(cfg), cfg["perm"]          # category i becomes category perm[i]
    inv = [perm.index(j) for j in range(n)]
    a = auction(ctx, cfg, market(ctx, vals))
    m2 = market(ctx, [vals[inv[j]] for j in range(n)], names=["other%d" % j for j in range(n)])
    s2 = renumber(struct, perm)
    if cfg["mirror"]:
        s2 = mirror(s2)
    if cfg["kind"] == "bin":
        b = ctx.load("ascending_auction_recipetree_protocol").budget_balanced_ascending_auction(m2, s2)
    else:
        b = ctx.load("ascending_auction_recipetree_integer_protocol").budget_balanced_ascending_auction(m2, s2, [counts[inv[j]] for j in range(n)])
    ctx.observe("deals", [a.num_of_deals(), b.num_of_deals()])
    ctx.check(a.num_of_deals() == b.num_of_deals(), "same number of deals")
    ctx.check(ctx.eq(a.gain_from_trade(), b.gain_from_trade()), "same gain")
    if a.num_of_deals() == 0 or b.num_of_deals() == 0:
        ctx.cover("no trade")
        return
    ctx.cover("trade")
    for i in nodes(struct):
        ctx.check(ctx.eq(a.prices[i], b.prices[perm[i]]), "same price for each category")
        ctx.check(ctx.all_eq(list(a.categories[i].values), list(b.categories[perm[i]].values)), "same remaining traders in each category")
