"""Recipes, groups, trees and increases that do not fit are refused, and leave everything as it was."""
from .trees import *

BOUNDS = ("recipes and groups of every length 0-5 and every category size 0-2 for markets of 1-4 categories (McAfee: recipe entries 0-3), nested recipe trees with 1-6 list members, all sets of at most three increases of at most three categories; " + VALUES)
COVER = ["refused", "accepted"]

_BAD_TREES = [[0], [0, None, 1], [0, [1]], [0, [1, None, 2]], [0, [1, [2]]], [0, [1, None], 2], [0, [1, [2, None, 3]], 2, None], [0, [1, None, 2, [3]]], [0, None, 1, None, 2]]


def configs(tier):
    for n in (1, 2, 3) + ((4,) if tier == "thorough" else ()):
        for mech in ("asc", "ext", "ext0", "mcafee", "mcafee0", "opt", "append_PS"):
            yield dict(what=mech, n=n, weight=n)
    yield dict(what="ones", n=2)
    for kind in ("bin", "int"):
        for i, t in enumerate(_BAD_TREES):
            yield dict(what="tree", kind=kind, bad=i)
        for tree in SHAPES:
            yield dict(what="tree", kind=kind, tree=tree)
    for tree in ("pair", "chain3", "fork", "mixed", "late") + tuple(all_shapes(4)) + (("deep", "wide") if tier == "thorough" else ()):
        yield dict(what="increase", tree=tree, weight=5)
    for kind in ("bin", "int"):
        for n in (4, 5) + ((6,) if tier == "thorough" else ()):
            for tree in all_shapes(n):
                yield dict(what="cut tree", kind=kind, tree=tree)
    for module in ("prices", "prices_integer"):
        for n in (1, 2, 3):
            yield dict(what="vectors", module=module, n=n)


def refused(ctx, f):
    try:
        f()
    except ValueError:
        ctx.cover("refused")
        return True
    ctx.cover("accepted")
    return False


def cut(struct, which):
    """The tree list without the last member of its which-th list (in the order of the walk), or None if there are fewer lists."""
    left = [which]

    def walk(part):
        if part is None:
            return None
        left[0] -= 1
        here = left[0] == -1
        out = [walk(x) if i % 2 else x for i, x in enumerate(part)]
        return out[:-1] if here else out
    out = walk(struct)
    return out if left[0] < 0 else None


def run(ctx, cfg):
    what = cfg["what"]
    if what == "cut tree":
        cls = ctx.load("recipetree" if cfg["kind"] == "bin" else "recipetree_integer").RecipeTree
        struct, n = SHAPES[cfg["tree"]]
        bad = cut(struct, ctx.choose("list", 0, n - 1))
        if bad is not None:
            size = ctx.choose("size", 0, 2)
            m = market(ctx, supply(ctx, [size] * n))
            ctx.check(refused(ctx, lambda: cls(m.categories, bad)), "a list with an odd number of members is not a recipe tree")
        return
    if what == "tree":
        cls = ctx.load("recipetree" if cfg["kind"] == "bin" else "recipetree_integer").RecipeTree
        struct, n = SHAPES[cfg["tree"]] if "tree" in cfg else (_BAD_TREES[cfg["bad"]], 4)
        sizes = [ctx.choose("size%d" % i, 0, 2 if n < 5 else 1) for i in range(min(n, 3))] + [1] * (n - 3)
        m = market(ctx, supply(ctx, sizes))
        ctx.check(refused(ctx, lambda: cls(m.categories, struct)) == ("bad" in cfg), "a list with an odd number of members is not a recipe tree, any other is")
        return
    if what == "vectors":
        mod, n = ctx.load(cfg["module"]), cfg["n"]
        lengths = [ctx.choose("length%d" % i, 1, 3) for i in range(n)]
        recipes = [[1] * k for k in lengths]
        ctx.check(refused(ctx, lambda: mod.SimultaneousAscendingPriceVectors(recipes, -1000)) == (len(set(lengths)) > 1), "recipes of different lengths are refused, others are not")
        ctx.check(refused(ctx, lambda: mod.SimultaneousAscendingPriceVectors([], -1000)), "no recipe at all is refused")
        return
    if what == "increase":
        struct, n = SHAPES[cfg["tree"]]
        ps = paths(struct)
        pv = ctx.load("prices").SimultaneousAscendingPriceVectors([[1 if i in p else 0 for i in range(n)] for p in ps], -10 ** 8)
        clocks = [i for i in range(n) if ctx.choose("raise%d" % i, 0, 1)]
        old = list(pv.map_category_index_to_price())
        targets = [ctx.real("target%d" % i, -LIM, LIM) for i in clocks]
        fits = all(sum(i in p for i in clocks) == 1 for p in ps)
        no = refused(ctx, lambda: pv.increase_prices([(i, t, "category") for i, t in zip(clocks, targets)]))
        ctx.check(no == (not fits), "increases are refused unless there is exactly one for every recipe")
        if no:
            ctx.check(ctx.all_eq(list(pv.map_category_index_to_price()), old), "a refused increase changes no price")
        return
    n = cfg["n"]
    sizes = [ctx.choose("size%d" % i, 0, 2 if n < 4 else 1) for i in range(n)]
    vals = supply(ctx, sizes)
    m = market(ctx, vals)
    if what == "ones":
        recipe = [ctx.choose("recipe%d" % i, 0, 3) for i in range(n)]
        for mech in ("mcafee", "mcafee0"):
            ctx.check(refused(ctx, lambda: mechanism(ctx, mech)(m, recipe)) == (recipe != [1, 1]), "McAfee's mechanism refuses everything but a recipe of ones")
    else:
        length = ctx.choose("length", 0, 5)
        if length == n and (what.startswith("mcafee") and n != 2 or what.startswith("ext") and n < 2):
            return
        if what == "append_PS":
            group = [ctx.real("g%d" % i, -LIM, LIM) for i in range(length)]
            no = refused(ctx, lambda: m.append_PS(group))
        else:
            recipe = [1] * length if what.startswith("mcafee") else [ctx.choose("recipe%d" % i, 1, 2) if i < 2 else 1 for i in range(length)]
            no = refused(ctx, lambda: m.optimal_trade(recipe) if what == "opt" else mechanism(ctx, what)(m, recipe))
        ctx.check(no == (length != n), "a recipe or group is refused exactly when it has not one entry per category")
        if not no and what == "append_PS":
            ctx.check([len(c.values) for c in m.categories] == [s + 1 for s in sizes], "an accepted group adds one trader to each category")
            return
    ctx.check(len(m.categories) == n and ctx.And(*[ctx.all_eq(list(c.values), v) for c, v in zip(m.categories, vals)]), "the market is left as it was")
