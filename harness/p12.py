"""Running a mechanism leaves the market untouched and is repeatable."""
import copy

from .trees import *

BOUNDS = "every single-recipe mechanism, optimal trade and recipe-tree auction run twice on the same market; recipes, trees, units per deal and category sizes as listed; " + VALUES
COVER = ["trade"]
LISTED = (5, 20)


def configs(tier):
    ones = [([1, 1], [3, 3]), ([1, 1], [2, 3]), ([1, 1], [3, 1]), ([1, 1], [0, 2])]
    other = [([1, 1, 1], [2, 2, 2]), ([1, 2], [3, 4]), ([2, 1], [4, 2]), ([2, 2], [4, 4]), ([2, 3], [3, 4])]
    if tier == "thorough":
        ones += [([1, 1], [4, 4]), ([1, 1], [5, 3])]
        other += [([1, 1, 1], [3, 3, 3]), ([1, 2], [4, 6]), ([2, 3], [5, 7])]
    for recipe, sizes in ones + other:
        for mech in ("asc", "ext", "ext0") + (("mcafee", "mcafee0") if (recipe, sizes) in ones or recipe == [1, 1, 1] else ()):
            yield dict(mech=mech, recipe=recipe, sizes=sizes, weight=sum(sizes))
    for n, top in ((1, 4), (2, 4), (3, 2), (4, 1), (5, 1)):
        for recipe, sizes in every_recipe(n, top, lambda i, r: r + (i == 0 or top == 1 and n < 5) if r else 1):
            if n < 5 or min(recipe):
                for mech in ("asc", "opt") + (("ext", "ext0") if min(recipe) and sum(sizes) < 9 else ()) + (("mcafee", "mcafee0") if set(recipe) == {1} and n < 5 else ()):
                    yield dict(mech=mech, recipe=recipe, sizes=sizes, weight=sum(sizes))
    for c in tall_configs(tier, ("asc", "ext", "mcafee")):
        if c["values"] == "even" and len(c["sizes"]) < 5:
            yield c
    for recipe, sizes in [([1, 0, 1], [3, 2, 3]), ([1, 0, 1], [3, 0, 3]), ([0, 1, 1], [0, 2, 2])]:
        yield dict(mech="asc", recipe=recipe, sizes=sizes, weight=3)
    for recipe, sizes in ones + other:
        yield dict(mech="opt", recipe=recipe, sizes=sizes, weight=1)
    for c in tree_configs(tier):
        if sum(c["sizes"]) <= (7 if tier == "quick" else 9):
            yield dict(c, mech="tree")
            yield dict(c, mech="tree optimum", weight=1)
    for c in every_shape(tier, plan=((4, 1), (5, 1))[:1 if tier == "quick" else 2], units=()):
        yield dict(c, mech="tree")
        yield dict(c, mech="tree optimum", weight=1)


def snapshot(trade):
    if isinstance(trade, list):
        return trade
    return [trade.num_of_deals(), trade.gain_from_trade()] + [list(trade.prices) if trade.num_of_deals() else []] + cat_values(trade)


def run(ctx, cfg):
    sizes = cfg["sizes"]
    vals = supply(ctx, sizes)
    m = market(ctx, vals)
    before = str([c.name for c in m.categories])
    if cfg["mech"].startswith("tree"):
        original = [SHAPES[cfg["tree"]][0], cfg.get("counts")]
    else:
        original = cfg["recipe"]
    recipe = copy.deepcopy(original)
    if cfg["mech"] == "tree":
        name = "ascending_auction_recipetree_protocol" if cfg["kind"] == "bin" else "ascending_auction_recipetree_integer_protocol"
        f = ctx.load(name).budget_balanced_ascending_auction
        mech = lambda m, r: f(m, *(r if r[1] else r[:1]))
    elif cfg["mech"] == "tree optimum":
        cls = ctx.load("recipetree" if cfg["kind"] == "bin" else "recipetree_integer").RecipeTree
        tree = cls(m.categories, *(recipe if recipe[1] else recipe[:1]))

        def mech(m, r):
            deals, k, gain = tree.optimal_trade()
            return [k, gain, [sum(d) if isinstance(d, (list, tuple)) else d for d in deals]]
    elif cfg["mech"] == "opt":
        def mech(m, r):
            t, rest = m.optimal_trade(r)
            out = [t.num_of_deals(), t.gain_from_trade()] + [list(ps) for ps in t.procurement_sets] + [list(c.values) for c in rest.categories]
            for c in rest.categories:
                while len(c) > 0:
                    c.remove_lowest_agent()
            return out
    else:
        mech = mechanism(ctx, cfg["mech"])
    t1 = mech(m, recipe)
    s1 = snapshot(t1)
    ctx.observe("first", s1[:2])

    def untouched(when):
        ctx.check(recipe == original, "the recipe is left as it was " + when)
        ctx.check(len(m.categories) == len(sizes) and str([c.name for c in m.categories]) == before and m.num_categories == len(sizes),
                  "the categories are left as they were " + when)
        for i, c in enumerate(m.categories):
            ctx.check(ctx.all_eq(c.values, vals[i]), "the traders are left as they were " + when)
    untouched("after one run")
    # another market in between, with other traders
    other = market(ctx, [[(7 - 3 * j if i == 0 else j - 2) for j in range(n + 1)] for i, n in enumerate(sizes)], names=["other%d" % i for i in range(len(sizes))])
    if cfg["mech"] != "tree optimum":
        mech(other, recipe)
    t2 = mech(m, recipe)
    s2 = snapshot(t2)
    same(ctx, s1, snapshot(t1), "later runs leave the first result as it was:")
    same(ctx, s1, s2, "the second run has")
    untouched("after two runs")
    # what the caller does with the results must not reach the market
    for t in (t1, t2):
        for c in t.categories if not isinstance(t, list) else []:
            while len(c) > 0:
                c.remove_lowest_agent()
    untouched("when the results are changed")
    same(ctx, s1, snapshot(mech(m, recipe)), "the third run has")
    if s1[0] > 0:
        ctx.cover("trade")


def same(ctx, s1, s2, when):
    ctx.check(s1[0] == s2[0], when + " the same number of deals")
    ctx.check(ctx.eq(s1[1], s2[1]), when + " the same gain")
    ctx.check(len(s1) == len(s2) and ctx.And(*[ctx.all_eq(a, b) for a, b in zip(s1[2:], s2[2:])]), when + " the same prices and traders")
