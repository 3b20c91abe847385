"""Recipe-tree auctions: at most one deal per recipe is lost, nothing is invented, the reported gain is right."""
from .trees import *

BOUNDS = ("binary and integer recipe-tree auctions; the optimum is taken over all plans (deals per recipe) that the categories support; tree shapes (among them every ordered tree with 4 and 5 categories, at the thorough tier also 6), category sizes and units per deal as listed; " + VALUES)
COVER = ["lost a deal", "lost nothing", "no deal"]
LISTED = (6, 24)


def configs(tier):
    yield from tree_configs(tier)
    yield from tall_trees(tier)
    yield from every_shape(tier, plan=((4, 1), (5, 1)) + (((6, 1),) if tier == "thorough" else ()), units=(4, 5) if tier == "thorough" else (4,))


def run(ctx, cfg):
    sizes, struct, counts = cfg["sizes"], SHAPES[cfg["tree"]][0], counts_of(cfg)
    vals = supply(ctx, sizes)
    t = auction(ctx, cfg, market(ctx, vals))
    k, gft, lost = t.num_of_deals(), t.gain_from_trade(), len(paths(struct))
    observe_tree_trade(ctx, t)
    ctx.observe("gft", gft)
    units = units_of(cfg, t.categories)
    ctx.check(k == capacity(struct, units), "the number of deals is what the remaining traders support")
    all_plans = plan_values(struct, vals, counts)

    def beaten(g):
        return ctx.Or(*[ctx.gt(g2, g) for _, g2, _ in all_plans])
    ctx.check(ctx.Or(*[ctx.And(ctx.Not(beaten(g))) for n, g, _ in all_plans if n >= k]), "no more deals than the optimal trade")
    for n, g, vec in all_plans:
        if n > k + lost:
            ctx.check(beaten(g), "at most one deal per recipe fewer than the optimal trade")
    shares = [counts_differ(counts)]
    for n, g, vec in all_plans if not counts_differ(counts) else ():
        least = min([x for x in vec if x], default=0)
        shares.append(ctx.And(ctx.Not(beaten(g)), ctx.ge(gft * least, g * (least - 1)) if least else True))
    ctx.check(ctx.Or(*shares), "at least 1-1/k of the optimal gain, when every category gives one trader per deal and the optimal trade has no or at least k deals of every recipe")
    ctx.check(ctx.ge(gft, 0), "the gain is not negative")
    ctx.check(ctx.Or(*[ctx.le(gft, g) for _, g, _ in all_plans]), "the gain is at most the optimum")
    rest = plan_values(struct, [list(c.values) for c in t.categories], counts)
    ctx.check(ctx.And(*[ctx.ge(gft, g) for _, g, _ in rest]), "the gain is the best that the remaining traders can reach")
    ctx.check(ctx.Or(*[ctx.eq(gft, g) for _, g, _ in rest]), "the gain is one that the remaining traders can reach")
    ctx.cover("no deal" if k == 0 else "deals")
    opt = ctx.Or(*[ctx.Not(beaten(g)) for n, g, _ in all_plans if n > k])
    ctx.cover("lost a deal" if opt else "lost nothing")


def counts_differ(counts):
    return any(c != 1 for c in counts)
