"""The optimal trade of a recipe tree is optimal."""
from .trees import *

BOUNDS = ("binary and integer recipe trees; the optimum is taken over all plans (deals per recipe) that the categories support, each served by the best traders; shapes (among them every ordered tree with 3 to 7 categories), sizes and units per deal as listed; " + VALUES +
          "; where `marked` is listed, the values of the i-th category of the tree's walk lie in a range of their own (the first one between 0 and 4000, the i-th one between -1000*i-1000 and -1000*i), so that the traders of a deal can be told apart")
COVER = ["nothing", "some", "everything", "marked deal"]
LISTED = (6, 24)


def configs(tier):
    yield from tree_configs(tier)
    yield from tall_trees(tier)
    yield from tall_trees(tier, more=True)
    yield from every_shape(tier)
    for c in itertools.chain(tree_configs("quick"), every_shape("quick", plan=((4, 1), (5, 1)), units=(4, 5))):
        if sum(c["sizes"]) <= (9 if tier == "quick" else 12):
            yield dict(c, marked=True)


def run(ctx, cfg):
    sizes, struct, counts = cfg["sizes"], SHAPES[cfg["tree"]][0], counts_of(cfg)
    vals = supply(ctx, sizes)
    order = nodes(struct)
    if cfg.get("marked"):
        ranges = {i: (-1000 * n - 999, -1000 * n - 1) if n else (0, 4000) for n, i in enumerate(order)}
        for i in order:
            for v in vals[i]:
                ctx.assume(ctx.And(ctx.ge(v, ranges[i][0]), ctx.le(v, ranges[i][1])))
    m = market(ctx, vals)
    tree = recipe_tree(ctx, cfg, m.categories)
    deals, K, gft = tree.optimal_trade()
    ctx.observe("deals", K)
    ctx.observe("gft", gft)
    ctx.check(len(deals) == K, "as many deals as announced")
    total, lengths = 0, {sum(counts[i] for i in p) for p in paths(struct)}
    for d in deals:
        d = list(d) if isinstance(d, (list, tuple)) else [d]
        ctx.check(len(d) in lengths, "every deal has the traders of one recipe")
        ctx.check(ctx.ge(sum(d, 0), 0), "no deal of the optimal trade loses")
        total = total + sum(d, 0)
    if cfg.get("marked"):
        used = {i: [] for i in order}
        for d in deals:
            ctx.cover("marked deal")
            traders = {i: [] for i in order}
            for v in list(d) if isinstance(d, (list, tuple)) else [d]:
                for i in order:
                    if v >= ranges[i][0] and v <= ranges[i][1]:
                        traders[i].append(v)
            ctx.check(any(all(len(traders[i]) == (counts[i] if i in p else 0) for i in order) for p in paths(struct)), "every deal has the traders that one recipe asks for")
            for i in order:
                used[i] += traders[i]
        for i in order:
            ctx.check(ctx.all_eq(sorted(used[i], reverse=True), vals[i][:len(used[i])]), "the deals have the best traders of each category, each once")
    ctx.check(ctx.eq(gft, total), "the gain is the sum of the deals")
    plans = plan_values(struct, vals, counts)
    for n, g, _ in plans:
        ctx.check(ctx.ge(gft, g) if n <= K else ctx.gt(gft, g), "no plan gains more, and none with more deals gains as much")
    ctx.check(ctx.Or(*[ctx.eq(gft, g) for n, g, _ in plans if n == K]), "the gain is that of a plan with this number of deals")
    ctx.check(ctx.eq(tree.optimal_trade_GFT(), gft), "the optimal gain computed alone is the same")
    ctx.cover("nothing" if K == 0 else "everything" if K == tree.num_of_deals() else "some")
    ctx.check(K <= tree.num_of_deals(), "no more deals than the categories support")
    for i, vs in enumerate(vals):
        ctx.check(ctx.all_eq(list(m.categories[i].values), vs), "the traders are left as they were")
