"""The earlier protocols in old/: what they still do, they do right."""
from .trees import *

BOUNDS = ("earlier auction for several recipes, used with one recipe of zeros and ones (up to 4 categories, sizes as listed; " + VALUES + "); its classification of categories for up to 3 recipes of up to 4 categories with arbitrary "
          "entries 0..1; the reading of up to 3 recipes of buyers and sellers with arbitrary integer entries 0..2 (sellers: 0..5); the earlier recipe tree with up to 5 categories, sizes as listed; the earlier simultaneous clocks on the listed trees, 1-2 steps, targets arbitrary reals in [-10^7, 10^7], starting at a sum of -6*10^8")
COVER = ["auction: deals", "auction: no deals", "common", "unique", "neither", "accepted", "refused", "clocks: reached target", "clocks: balance", "clocks: several", "tree"]
TOL = Fraction(1, 10 ** 9)


def cuts(struct):
    out = [[]]
    for i, sub in children(struct):
        out = [a + b for a in out for b in [[i]] + (cuts(sub) if sub else [])]
    return out


def configs(tier):
    big = tier == "thorough"
    sizes = [([1, 1], [a, b]) for a in range(6 if big else 4) for b in range(6 if big else 4)] + \
        [([1, 1, 1], [3, 3, 3]), ([1, 1, 1], [2, 4, 3]), ([1, 1, 1], [0, 2, 1]), ([1, 0, 1], [3, 2, 3]), ([0, 1, 1], [1, 2, 3]), ([1, 1, 0], [4, 2, 1]), ([1], [3]), ([0, 1], [2, 2]), ([1, 1, 1, 1], [2, 2, 2, 2]), ([1, 1], [5, 5])]
    if big:
        sizes += [([1, 1, 1], [5, 5, 5]), ([1, 1], [8, 8]), ([1, 1, 1, 1], [3, 4, 3, 4])]
    for recipe, s in sizes:
        yield dict(kind="auction", recipe=recipe, sizes=s, weight=sum(s))
    for n in (1, 2, 3, 4):
        for r in (1, 2, 3):
            if n * r <= (12 if big else 9):
                yield dict(kind="analyze", categories=n, recipes=r, weight=n * r)
    for n in (1, 2, 3, 4):
        for r in (0, 1, 2, 3):
            if (n - 1) * r <= (9 if big else 6):
                yield dict(kind="convert", categories=n, recipes=r, weight=n * r)
    for tree, s in [("pair", [2, 3]), ("pair", [3, 2]), ("pair", [3, 0]), ("chain3", [2, 3, 2]), ("fork", [2, 2, 2]), ("fork", [3, 2, 1]), ("mixed", [2, 1, 2, 1]), ("mixed_r", [1, 2, 1, 2]), ("late", [2, 3, 1, 2]), ("wide", [2, 1, 2, 2, 1]), ("sparse", [2, 1, 2])] + \
            ([("pair", [4, 4]), ("fork", [3, 3, 3]), ("mixed", [3, 2, 2, 2]), ("deep", [2, 2, 1, 1, 1]), ("fork3", [3, 2, 1, 1])] if big else []):
        yield dict(kind="tree", tree=tree, sizes=s, weight=2 * sum(s))
    trees = ["single", "pair", "chain3", "fork", "fork3", "mixed", "late", "wide", "deep", "sparse"] + [t for n in ((3, 4, 5) if big else (3, 4)) for t in all_shapes(n)]
    for tree in trees:
        cs = cuts(SHAPES[tree][0])
        for c in cs:
            yield dict(kind="clocks", tree=tree, seq=[c], weight=3)
        if len(cs) <= (9 if big else 5):
            for a in cs:
                for b in cs:
                    yield dict(kind="clocks", tree=tree, seq=[a, b], weight=5)


def run(ctx, cfg):
    {"auction": run_auction, "analyze": run_analyze, "convert": run_convert, "tree": run_tree, "clocks": run_clocks}[cfg["kind"]](ctx, cfg)


def run_auction(ctx, cfg):
    recipe, sizes = cfg["recipe"], cfg["sizes"]
    vals = supply(ctx, sizes)
    m = market(ctx, vals)
    recipes = [list(recipe)]
    trade = ctx.load("old.ascending_auction_multirecipe_protocol").budget_balanced_ascending_auction(m, recipes)
    k = trade.num_of_deals()
    ctx.observe("deals", k)
    ctx.observe("remaining", cat_values(trade))
    ctx.check(recipes == [list(recipe)] and all(ctx.all_eq(c.values, vs) for c, vs in zip(m.categories, vals)), "market and recipe stay as they are")
    ctx.check(k == max_deals([len(c.values) for c in trade.categories], recipe), "deals are counted from the remaining traders")
    for c, vs in zip(trade.categories, vals):
        ctx.check(ctx.all_eq(c.values, vs[:len(c.values)]), "the top traders remain")
    best = [ctx.ge(deal(vals, recipe, j), 0) for j in range(max_deals(sizes, recipe))]
    if k > 0:
        ctx.check(best[k - 1], "no more deals than in the optimal trade")
    if k + 1 < len(best):
        ties = [ctx.eq(a, b) for vs in vals for a, b in zip(vs, vs[1:])]
        ctx.check(ctx.Or(ctx.Not(best[k + 1]), *ties), "at most one deal is lost, if no two traders of a category are equal")
    ctx.check((str(trade) == "No trade") == (k == 0), "no trade is announced as such")
    if k == 0:
        ctx.cover("auction: no deals")
        return
    ctx.cover("auction: deals")
    ctx.observe("prices", list(trade.prices))
    ctx.check(ctx.eq(dot([p for p, r in zip(trade.prices, recipe) if r], [1] * sum(recipe)), 0), "the prices are balanced")
    for c, r, p in zip(trade.categories, recipe, trade.prices):
        if r:
            ctx.check(ctx.And(*[ctx.ge(v, p) for v in c.values]), "no remaining trader loses")


def run_analyze(ctx, cfg):
    n, r = cfg["categories"], cfg["recipes"]
    rows = [[ctx.int("r%d_%d" % (i, j), 0, 1) for j in range(n)] for i in range(r)]
    f = ctx.load("old.ascending_auction_multirecipe_protocol")._analyze_recipes
    try:
        where, common, unique = f(n, rows)
    except ValueError:
        ctx.cover("neither")
        ctx.check(ctx.Or(*[ctx.And(ctx.gt(sum(col), 1), ctx.lt(sum(col), r)) for col in zip(*rows)]), "refused only if a category is in some recipes but neither in one nor in all")
        return
    for j in range(n):
        col = [rows[i][j] for i in range(r)]
        s = sum(col)
        ctx.check(sorted(set(where[j])) == list(where[j]), "each recipe is listed once")
        for i in range(r):
            ctx.check(ctx.eq(col[i], 1 if i in where[j] else 0), "the recipes of a category are those that need it")
            alone = ctx.And(ctx.eq(s, 1), ctx.eq(col[i], 1))
            ctx.check(alone if j in unique[i] else ctx.Not(alone), "a category is unique if one recipe needs it")
            if j in unique[i]:
                ctx.cover("unique")
        shared = ctx.And(ctx.eq(s, r), r > 1)
        ctx.check(shared if j in common else ctx.Not(shared), "a category is common if all recipes need it")
        if j in common:
            ctx.cover("common")
        ctx.check(ctx.Or(ctx.le(s, 1), ctx.eq(s, r)), "other categories are refused")


def run_convert(ctx, cfg):
    n, r = cfg["categories"], cfg["recipes"]
    rows = [[ctx.int("b%d_%d" % (i, j), 0, 2) for j in range(n - 1)] + [ctx.int("s%d" % i, 1, 5)] for i in range(r)]
    f = ctx.load("old.ascending_auction_multibuyer_protocol")._convert_recipes_to_seller_counts
    two = [ctx.gt(sum(rows[i][j] for i in range(r)), 1) for j in range(n - 1)]
    many = [ctx.gt(sum(row[:-1], 0), 1) for row in rows]
    bad = ctx.Or(*(two + many)) if r else False
    try:
        counts = f(rows, n)
    except ValueError:
        ctx.cover("refused")
        ctx.check(bad, "refused only if a recipe has several buyers or two recipes the same one")
        return
    ctx.cover("accepted")
    ctx.check(ctx.Not(bad), "other recipes are refused")
    ctx.check(len(counts) == n - 1, "one number per category of buyers")
    for j in range(n - 1):
        for row in rows:
            ctx.check(ctx.implies(ctx.eq(row[j], 1), ctx.eq(counts[j], row[-1])), "a buyer needs the sellers of its recipe")
        ctx.check(ctx.Or(ctx.eq(counts[j], 0), *[ctx.eq(row[j], 1) for row in rows]), "a buyer without recipe needs nobody")


def run_tree(ctx, cfg):
    sizes, (struct, n) = cfg["sizes"], SHAPES[cfg["tree"]]
    vals = supply(ctx, sizes)
    m = market(ctx, vals)
    tree = ctx.load("recipetree_old", "recipetree.old.py").RecipeTree(m.categories, struct)
    deals, count, gain = tree.optimal_trade()
    ctx.observe("tree", [count, gain])
    ctx.cover("tree")
    ctx.check(tree.num_of_deals() == capacity(struct, sizes), "the number of deals that the categories support")
    ctx.check(sorted(tree.paths_to_leaf(indices=True)) == sorted(paths(struct)), "the recipes are the paths of the tree")
    ctx.check(sorted(tree.recipes()) == sorted([1 if i in p else 0 for i in range(n)] for p in paths(struct)), "the recipes as vectors")
    ctx.check(len(deals) == count, "as many deals as announced")
    for d in deals:
        ctx.check(ctx.gt(sum(d, 0), 0), "every deal gains")
    ctx.check(ctx.eq(gain, sum((sum(d, 0) for d in deals), 0)), "the gain is the sum of the deals")
    ctx.check(ctx.eq(tree.optimal_trade_GFT(), gain), "the gain computed alone is the same")
    plans = plan_values(struct, vals, [1] * n)
    for k, g, _ in plans:
        ctx.check(ctx.ge(gain, g) if k >= count else ctx.gt(gain, g), "no plan gains more, and none with fewer deals as much")
    ctx.check(ctx.Or(*[ctx.eq(gain, g) for k, g, _ in plans if k == count]), "the gain is that of a plan")


def run_clocks(ctx, cfg):
    struct, n = SHAPES[cfg["tree"]]
    ps = paths(struct)
    recipes = [[1 if i in p else 0 for i in range(n)] for p in ps]
    pv = ctx.load("old.SimultaneousAscendingPriceVector").SimultaneousAscendingPriceVectors([list(r) for r in recipes], -6 * 10 ** 8)

    def prices():
        new = list(pv.map_category_index_to_price())
        sums = [sum((new[i] for i in p), 0) for p in ps]
        for s in sums + [pv.price_sum()]:
            ctx.check(ctx.And(ctx.le(s - sums[0], TOL), ctx.le(sums[0] - s, TOL)), "all recipes have the same price sum")
        return new, sums[0]
    old, s = prices()
    for step, cut in enumerate(cfg["seq"]):
        targets = {i: ctx.real("t%d_%d" % (step, i), -LIM, LIM) for i in cut}
        for i, t in targets.items():
            ctx.assume(ctx.ge(t, old[i]))
        clocks = [next(i for i in p if i in targets) for p in ps]
        after = [sum((targets[i] if i in targets else old[i] for i in p), 0) for p in ps]
        pv.increase_prices([(i, targets[i], "category %d" % i) for i in clocks])
        new, s = prices()
        name = pv.status.name
        ctx.observe("step%d" % step, [name] + new)
        if len(targets) > 1:
            ctx.cover("clocks: several")
        ctx.check(ctx.le(s, TOL), "the price sum never exceeds zero")
        for i in range(n):
            if new[i] is None:
                ctx.check(not any(i in p for p in ps), "only categories without recipe have no price")
            elif i in targets:
                ctx.check(ctx.And(ctx.ge(new[i], old[i] - TOL), ctx.le(new[i], targets[i] + TOL)), "a price moves between its old value and its target")
            else:
                ctx.check(ctx.eq(new[i], old[i]), "the other prices stay")
        if name == "STOPPED_AT_ZERO_SUM":
            ctx.cover("clocks: balance")
            ctx.check(ctx.ge(s, -TOL), "stopped at the balance")
            return
        ctx.cover("clocks: reached target")
        ctx.check(ctx.Or(*[ctx.ge(s, a - TOL) for a in after]), "the clocks stop when one of them reaches its target")
        old = new
