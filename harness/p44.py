"""A result depends on the market, the recipe and the options, on nothing that was computed before."""
from .p12 import snapshot, same
from .trees import *

BOUNDS = ("every single-recipe mechanism, optimal trade and recipe-tree auction (a) on one market in newly loaded modules, and again after the auctions of other markets with up to ten other recipes (trees), sizes and units, with fixed values, by the same and the other mechanisms; "
          "(b) on a market after it ran on it and the traders were then changed by the listed operations, against a new market of the same traders; recipes, trees, units per deal and category sizes as listed; " + VALUES)
COVER = ["others", "changed", "trade", "no trade"]
LISTED = (5, 20)
CHANGES = ["swap highest", "add everywhere", "take lowest", "two to one", "regroup"]


def configs(tier):
    big = tier == "thorough"
    ones = [([1, 1], [2, 3]), ([1, 1], [2, 2]), ([1, 1, 1], [2, 2, 1])] + ([([1, 1], [4, 3]), ([1, 1, 1], [2, 3, 2])] if big else [])
    other = [([1, 2], [2, 3]), ([2, 1], [4, 2]), ([1, 1, 1, 1], [1, 2, 1, 1]), ([2, 2], [3, 4])] + ([([1, 2], [3, 6]), ([2, 3], [4, 6]), ([1, 1, 1, 1], [2, 2, 2, 2])] if big else [])
    for recipe, sizes in ones + other:
        for mech in ("asc", "ext", "ext0", "opt") + (("mcafee", "mcafee0") if (recipe, sizes) in ones else ()):
            yield dict(mech=mech, recipe=recipe, sizes=sizes, history="others", weight=sum(sizes))
    for recipe, sizes in [([1, 0, 1], [2, 1, 2]), ([0, 1, 1], [0, 2, 2]), ([1, 0, 2, 0], [2, 0, 3, 1])]:
        for mech in ("asc", "opt"):
            yield dict(mech=mech, recipe=recipe, sizes=sizes, history="others", weight=3)
    for n in (2, 3):
        for recipe, sizes in every_recipe(n, 3 if n < 3 else 2, lambda i, r: r + (i == 0) if r else 1):
            if sum(sizes) < (9 if big else 8) and (big or n < 3 or min(recipe) > 0):
                for mech in ("asc", "opt"):
                    yield dict(mech=mech, recipe=recipe, sizes=sizes, history="others", weight=sum(sizes))
    for recipe, sizes in [([1, 1], [2, 2]), ([1, 1], [1, 2]), ([1, 2], [2, 2]), ([1, 1, 1], [1, 1, 1]), ([1, 1, 1, 1], [1, 1, 1, 1])] + ([([1, 1], [3, 3]), ([2, 1], [4, 2]), ([1, 1, 1], [2, 2, 2])] if big else []):
        for mech in ("asc", "ext", "opt") + (("mcafee",) if max(recipe) == 1 else ()):
            for change in CHANGES:
                yield dict(mech=mech, recipe=recipe, sizes=sizes, history="changed", change=change, weight=sum(sizes) + 2)
    trees = [c for c in tree_configs(tier) if sum(c["sizes"]) <= (6 if not big else 8)] + list(every_shape(tier, plan=((4, 1),), units=(4,)))
    for c in trees:
        for mech in ("tree", "tree optimum"):
            if sum(c["sizes"]) <= 7 or big or mech != "tree":
                yield dict(c, mech=mech, history="others")
    for c in trees:
        if sum(c["sizes"]) <= (5 if not big else 6):
            for change in CHANGES[:1] + CHANGES[2:] if len(c["sizes"]) > 3 and not big else CHANGES:
                yield dict(c, mech="tree", history="changed", change=change, weight=c["weight"] + 2)


def result(ctx, mech, m, recipe, counts=None, kind="bin"):
    if mech == "opt":
        t, rest = m.optimal_trade(list(recipe))
        return [t.num_of_deals(), t.gain_from_trade()] + [list(ps) for ps in t.procurement_sets] + [list(c.values) for c in rest.categories]
    if mech in ("tree", "tree optimum"):
        args = [recipe] + ([list(counts)] if counts else [])
        if mech == "tree":
            name = "ascending_auction_recipetree_protocol" if kind == "bin" else "ascending_auction_recipetree_integer_protocol"
            return snapshot(ctx.load(name).budget_balanced_ascending_auction(m, *args))
        tree = ctx.load("recipetree" if kind == "bin" else "recipetree_integer").RecipeTree(m.categories, *args)
        deals, k, gain = tree.optimal_trade()
        return [k, gain, [sum(d) if isinstance(d, (list, tuple)) else d for d in deals]]
    return snapshot(mechanism(ctx, mech)(m, list(recipe)))


def fixed(ctx, sizes, start):
    """A market that trades: one category of high values, the others want little."""
    high = start % len(sizes)
    return market(ctx, [[(40 + start - 2 * j if i == high else -1 - j - start % 3) for j in range(n)] for i, n in enumerate(sizes)])


def other_recipes(recipe):
    """Recipes that are easily taken for the given one."""
    out = []
    for i in range(len(recipe)):
        for r in {0, 1, recipe[i] + 1} - {recipe[i]}:
            out.append(recipe[:i] + [r] + recipe[i + 1:])
    out += [recipe[::-1], recipe[1:] + recipe[:1], recipe + [1], recipe + [0], recipe[:-1], [2 * r for r in recipe], [sum(recipe)], sorted(recipe)]
    seen = []
    for r in out:
        if any(r) and r != recipe and r not in seen:
            seen.append(r)
    return seen


def others(ctx, cfg):
    mech, sizes = cfg["mech"], cfg["sizes"]
    if mech.startswith("tree"):
        shape, counts, kind = SHAPES[cfg["tree"]], cfg.get("counts"), cfg["kind"]
        n = shape[1]
        shapes = [s for s, (struct, k) in list(SHAPES.items()) if k == n and struct != shape[0]][:5] + [s for s, (_, k) in list(SHAPES.items()) if k == n - 1][:2]
        step = 0
        for s in shapes + [cfg["tree"]]:
            struct, k = SHAPES[s]
            for c in ([None, [1] * k, [2] + [1] * (k - 1), [1] * (k - 1) + [3]] if kind == "int" else [None]):
                if s != cfg["tree"] or (c or [1] * k) != (counts or [1] * k):
                    for more in (0, 2):
                        step += 1
                        try:
                            result(ctx, mech, fixed(ctx, [x * 2 + more for x in (c or [1] * k)] if more else sizes[:k], step), struct, c, kind)
                        except Exception:           # such an auction is P29's and P30's matter
                            pass
        for step in range(3):           # the same tree for other markets
            result(ctx, mech, fixed(ctx, [x + step for x in sizes] if step < 2 else sizes, nodes(shape[0])[0] + n * step), shape[0], counts, kind)
        for other in ("bin", "int"):
            result(ctx, "tree" if mech != "tree" else "tree optimum", fixed(ctx, sizes, nodes(shape[0])[0]), shape[0], counts if other == "int" else None, other)
        return
    recipe = cfg["recipe"]
    for step, r in enumerate(other_recipes(recipe)):
        for m in (mech,) + (("asc", "opt") if step < 4 else ()):
            if max(r) > 1 and m.startswith("mcafee"):
                continue
            for ns in ([2 * x + 1 if x else 2 for x in r], [(sizes + [2])[i] for i in range(min(len(r), len(sizes) + 1))]):
                if len(ns) == len(r):
                    try:
                        result(ctx, m, fixed(ctx, ns, [i for i, x in enumerate(r) if x][0] + len(r) * step), r)
                    except Exception:
                        pass
    for step in range(3):               # the same recipe for other markets
        result(ctx, mech, fixed(ctx, [x + step for x in sizes] if step < 2 else sizes, [i for i, x in enumerate(recipe) if x][0] + len(sizes) * step), recipe)
    for m in ("asc", "ext", "opt"):
        if m != mech and min(recipe) > 0:
            result(ctx, m, fixed(ctx, sizes, len(sizes)), recipe)


def change(ctx, m, how, ref):
    """Other traders in the market; returns who must be in it."""
    n = len(ref)
    ref = [list(v) for v in ref]
    new = [ctx.real("new%d" % i, -LIM, LIM) for i in range(n)]
    if how == "swap highest":           # the sizes stay
        where = n - 1
        if ref[where]:
            m.remove_highest_agents([int(i == where) for i in range(n)])
            m.append_trader(where, new[where])
            ref[where] = ref[where][1:] + [new[where]]
    elif how == "add everywhere":
        if n > 2:                       # where each of them stands: first, last, first, ...
            for i, (r, v) in enumerate(zip(ref, new)):
                for w in (r[:1] if i % 2 else r[-1:]):
                    ctx.assume(v > w if i % 2 else w >= v)
        m.append_PS(new)
        ref = [r + [v] for r, v in zip(ref, new)]
    elif how == "take lowest":
        m.categories[0].remove_lowest_agent()
        ref[0] = ref[0][:-1]
    elif how == "two to one":           # the number of traders of the market stays
        m.categories[0].remove_highest_agent()
        m.categories[-1].append(new[-1])
        ref[0] = ref[0][1:]
        ref[-1] = ref[-1] + [new[-1]]
    else:                               # all traders of a category at once
        m.categories[0].remove_highest_agents(len(ref[0]))
        m.categories[0].append([new[0]])
        ref[0] = [new[0]]
    return ref


def run(ctx, cfg):
    sizes, mech = cfg["sizes"], cfg["mech"]
    tree = mech.startswith("tree")
    vals = supply(ctx, sizes)
    recipe = SHAPES[cfg["tree"]][0] if tree else cfg["recipe"]
    more = dict(counts=cfg.get("counts"), kind=cfg["kind"]) if tree else {}
    ctx.cover(cfg["history"])
    if cfg["history"] == "others":
        first = result(ctx, mech, market(ctx, vals), recipe, **more)
        ctx.fresh()
        others(ctx, cfg)
        second = result(ctx, mech, market(ctx, vals), recipe, **more)
        same(ctx, first, second, "after other markets and recipes there is")
    else:
        m = market(ctx, vals)
        result(ctx, mech, m, recipe, **more)
        ref = change(ctx, m, cfg["change"], vals)
        first = result(ctx, mech, m, recipe, **more)
        new = market(ctx, [sorted_values(ctx, r) for r in ref])
        second = result(ctx, mech, new, recipe, **more)
        same(ctx, first, second, "a new market of the traders that are there now has")
    ctx.observe("result", first[:2])
    ctx.cover("trade" if first[0] > 0 else "no trade")


def sorted_values(ctx, vs):
    """From high to low; the new trader is the last one."""
    out = list(vs[:-1])
    for i, w in enumerate(out):
        if vs[-1] >= w:
            return out[:i] + [vs[-1]] + out[i:]
    return out + [vs[-1]] if vs else []
