"""Different ways to state the same task give the same result."""
from .trees import *

BOUNDS = ("the optimal trade of a market for a recipe and of the recipe tree that is one chain (with units); the single-recipe mechanisms and optimal trade with and without additional categories that no deal needs; recipes, sizes and places as listed; " + VALUES)
COVER = ["chain", "chain with units", "outsider", "outsider in the tree", "deals", "no deals"]
LISTED = (5, 20)


def chain(order):
    struct = None
    for i in reversed(order):
        struct = [i, struct]
    return struct


def configs(tier):
    big = tier == "thorough"
    for recipe, sizes in [([1, 1], [3, 3]), ([1, 1], [4, 2]), ([1, 1, 1], [2, 3, 3]), ([1, 1], [0, 2]), ([1, 1, 1, 1], [2, 2, 2, 2]), ([1], [3])] + ([([1, 1], [6, 6]), ([1, 1, 1], [4, 4, 5])] if big else []):
        for order in ([list(range(len(recipe)))] + ([list(range(len(recipe)))[::-1]] if len(recipe) > 1 else [])):
            yield dict(kind="chain", lib="bin", recipe=recipe, sizes=sizes, order=order, weight=sum(sizes))
            yield dict(kind="chain", lib="int", recipe=recipe, sizes=sizes, order=order, weight=sum(sizes))
    for recipe, sizes in [([1, 2], [2, 5]), ([2, 1], [5, 2]), ([2, 3], [4, 7]), ([2, 1, 1], [4, 2, 3]), ([3, 1], [2, 4]), ([2], [5])] + ([([2, 2], [8, 9]), ([1, 2, 3], [3, 7, 9])] if big else []):
        for order in ([list(range(len(recipe)))] + ([list(range(len(recipe)))[::-1]] if len(recipe) > 1 else [])):
            yield dict(kind="chain", lib="int", recipe=recipe, sizes=sizes, order=order, weight=sum(sizes))
    for mech, recipe, sizes in [("asc", [1, 1], [3, 3]), ("asc", [1, 2], [2, 4]), ("asc", [1, 1, 1], [2, 2, 2]), ("ext", [1, 1], [3, 3]), ("ext", [2, 1], [3, 2]), ("ext0", [1, 1], [3, 2]), ("opt", [1, 1], [3, 3]), ("opt", [2, 1], [5, 3])] + ([("asc", [1, 1], [5, 5]), ("asc", [2, 3], [5, 6]), ("ext", [1, 1], [4, 4]), ("ext", [1, 1, 1], [2, 3, 2])] if big else []):
        for place in range(len(recipe) + 1):
            for n in (0, 2):
                yield dict(kind="outsider", mech=mech, recipe=recipe, sizes=sizes, place=place, outsiders=n, weight=sum(sizes) + n)
    for n in (1, 2, 3) if big else (1, 2):
        for recipe, sizes in every_recipe(n, 3 if n < 3 else 2, lambda i, r: 2 * r - i % 2 if r else 1):
            for place in (0, n):
                for outsiders in (1, 3):
                    if sum(sizes) < 9 and min(recipe) > 0:
                        if n > 1:
                            yield dict(kind="outsider", mech="asc", recipe=recipe, sizes=sizes, place=place, outsiders=outsiders, weight=sum(sizes))
                        yield dict(kind="outsider", mech="opt", recipe=recipe, sizes=sizes, place=place, outsiders=outsiders, weight=1)
            if min(recipe) > 0:
                yield dict(kind="chain", lib="int", recipe=recipe, sizes=sizes, order=list(range(n)), weight=sum(sizes))
                yield dict(kind="chain", lib="int", recipe=recipe, sizes=[x + 1 for x in sizes], order=list(range(n))[::-1], weight=sum(sizes))
    for c in every_shape(tier, plan=((4, 1), (5, 1)) if big else ((4, 1),), units=(4,)):
        for place in (0, 1, len(c["sizes"])):
            yield dict(kind="tree", lib=c["kind"], tree=c["tree"], sizes=c["sizes"], counts=counts_of(c) if c["kind"] == "int" else None, place=place, outsiders=1, weight=1)
    for lib, shape, sizes, counts in [("bin", "pair", [3, 3], None), ("bin", "fork", [2, 2, 1], None), ("bin", "mixed", [2, 1, 2, 1], None), ("int", "pair", [3, 3], [1, 1]), ("int", "pair", [4, 4], [2, 1]), ("int", "fork", [2, 3, 1], [1, 2, 1])]:
        for place in range(len(sizes) + 1):
            yield dict(kind="tree", lib=lib, tree=shape, sizes=sizes, counts=counts, place=place, outsiders=2, weight=sum(sizes))


def same_trades(ctx, a, b):
    (ka, ga), (kb, gb) = a, b
    ctx.observe("deals", [ka, kb])
    ctx.cover("deals" if ka else "no deals")
    ctx.check(ka == kb, "the same number of deals")
    ctx.check(ctx.eq(ga, gb), "the same gain")


def run(ctx, cfg):
    sizes, kind = cfg["sizes"], cfg["kind"]
    vals = supply(ctx, sizes)
    if kind == "chain":
        recipe = cfg["recipe"]
        ctx.cover("chain with units" if max(recipe) > 1 else "chain")
        a, _ = market(ctx, vals).optimal_trade(list(recipe))
        struct = chain(cfg["order"])
        cats = market(ctx, vals).categories
        if cfg["lib"] == "bin":
            tree = ctx.load("recipetree").RecipeTree(cats, struct)
        else:
            tree = ctx.load("recipetree_integer").RecipeTree(cats, struct, list(recipe))
        deals, k, gft = tree.optimal_trade()
        same_trades(ctx, (a.num_of_deals(), a.gain_from_trade()), (k, gft))
        gains = sorted([sum(d) if isinstance(d, (list, tuple)) else d for d in deals], reverse=True)
        ctx.check(ctx.all_eq(gains, [sum(ps) for ps in reversed(a.procurement_sets)]), "deals with the same gains")
        return
    place, n = cfg["place"], cfg["outsiders"]
    outsiders = [ctx.real("o%d" % j, -LIM, LIM) for j in range(n)]
    more = vals[:place] + [outsiders] + vals[place:]
    names = ["cat%d" % i for i in range(len(sizes))]
    if kind == "tree":
        ctx.cover("outsider in the tree")
        struct, counts = SHAPES[cfg["tree"]][0], cfg["counts"]
        shift = lambda s: None if s is None else [(x + (x >= place)) if i % 2 == 0 else shift(x) for i, x in enumerate(s)]
        lib = "ascending_auction_recipetree_protocol" if cfg["lib"] == "bin" else "ascending_auction_recipetree_integer_protocol"
        f = ctx.load(lib).budget_balanced_ascending_auction
        a = f(market(ctx, vals), struct, *([list(counts)] if counts else []))
        b = f(market(ctx, more), shift(struct), *([counts[:place] + [1] + counts[place:]] if counts else []))
        ps, part = paths(struct), []
        for p in ps:
            if all(len(a.categories[i]) >= (counts or [1] * len(sizes))[i] for i in p):
                part += p
    else:
        ctx.cover("outsider")
        recipe = cfg["recipe"]
        longer = recipe[:place] + [0] + recipe[place:]
        part = range(len(recipe))
        if cfg["mech"] == "opt":
            a, left = market(ctx, vals).optimal_trade(list(recipe))
            b, left2 = market(ctx, more).optimal_trade(list(longer))
            ctx.check(ctx.And(*[ctx.all_eq(left.categories[i].values, left2.categories[i + (i >= place)].values) for i in part]), "the same traders remain")
        else:
            a = mechanism(ctx, cfg["mech"])(market(ctx, vals), list(recipe))
            b = mechanism(ctx, cfg["mech"])(market(ctx, more), list(longer))
    same_trades(ctx, (a.num_of_deals(), a.gain_from_trade()), (b.num_of_deals(), b.gain_from_trade()))
    if not (kind == "outsider" and cfg["mech"] == "opt"):
        ctx.check(ctx.And(*[ctx.all_eq(a.categories[i].values, b.categories[i + (i >= place)].values) for i in range(len(sizes))]), "the same traders remain")
        if a.num_of_deals() and b.num_of_deals():
            ctx.check(ctx.And(*[ctx.eq(a.prices[i], b.prices[i + (i >= place)]) for i in part]), "the same prices")
