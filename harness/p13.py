"""The order in which traders arrive does not matter."""
from .common import *

BOUNDS = "all single-recipe mechanisms and the optimal trade on a market listed in arbitrary order (at creation, or with a part of the traders added later one by one, in groups, or one of each category at a time) and from high to low; sizes as listed; " + VALUES
COVER = ["trade", "reordered", "one", "group", "row", "mixed"]


def configs(tier):
    base = [("asc", [1, 1], [3, 2]), ("asc", [1, 2], [2, 3]), ("asc", [1, 1, 1], [2, 2, 2]), ("ext", [1, 1], [2, 3]), ("ext", [2, 1], [3, 2]), ("ext", [1, 1, 1], [2, 2, 1]), ("ext0", [1, 1], [3, 2]),
            ("mcafee", [1, 1], [3, 2]), ("mcafee0", [1, 1], [2, 3]), ("mcafee", [1, 1, 1], [2, 2, 2]), ("opt", [1, 1], [3, 3]), ("opt", [1, 2], [2, 4])]
    if tier == "thorough":
        base += [("asc", [1, 1], [4, 4]), ("asc", [2, 2], [4, 4]), ("ext", [1, 1], [4, 3]), ("ext", [2, 2], [4, 4]), ("mcafee", [1, 1], [4, 3]), ("opt", [2, 3], [5, 4])]
    small = [([1, 1], [2, 2]), ([1, 2], [2, 3]), ([2, 1], [3, 2]), ([1, 0, 1], [2, 2, 2]), ([2, 2], [3, 3]), ([1, 1, 1], [2, 2, 2]), ([1, 1], [1, 4]), ([1, 1], [4, 1]), ([1, 3], [1, 4])]
    small += [([1, 1, 1, 1], [2, 1, 2, 1])]
    base += [(mech, r, s) for mech in ("asc", "ext", "ext0", "opt") for r, s in small if (mech, r, s) not in base]
    for mech, recipe, sizes in base:
        yield dict(mech=mech, recipe=recipe, sizes=sizes, how="create", first=0, weight=sum(sizes))
        for how in ("one", "group", "row", "mixed"):
            for first in (0, 1, 2) if mech == "opt" or tier == "thorough" else (0, 1) if (recipe, sizes) == ([1, 1], [3, 2]) else (1,):
                yield dict(mech=mech, recipe=recipe, sizes=sizes, how=how, first=first, weight=sum(sizes))
    for mech, recipe, sizes in [("asc", [1, 1], [18, 21]), ("ext", [1, 1], [16, 15]), ("mcafee", [1, 1], [17, 19]), ("opt", [2, 3], [19, 25])]:
        for values in ("even", "levels") if tier == "quick" else ("even", "bent", "levels"):
            for how, first in (("create", 0), ("group", 1), ("mixed", 0), ("row", 2)):
                yield dict(mech=mech, recipe=recipe, sizes=sizes, how=how, first=first, values=values, weight=sum(sizes))


def build(ctx, vals, how, first):
    """A market whose categories get their first traders at creation and the others later."""
    if how == "create":
        return market(ctx, vals)
    ctx.cover(how)
    if how == "row":                # the last traders of all categories come together
        rows = max(0, min(len(vs) for vs in vals) - first)
        m = market(ctx, [vs[:len(vs) - rows] for vs in vals])
        for j in range(rows):
            m.append_PS([vs[len(vs) - rows + j] for vs in vals])
        return m
    m = market(ctx, [vs[:first] for vs in vals])
    for i, vs in enumerate(vals):
        if how == "one":
            for v in vs[first:]:
                m.append_trader(i, v)
        elif how == "group":
            m.categories[i].append(list(vs[first:]))
        else:
            for v in vs[first:first + 1]:
                m.categories[i].append(v)
            m.categories[i].append(list(vs[first + 1:]))
    return m


def run(ctx, cfg):
    sizes, recipe = cfg["sizes"], cfg["recipe"]
    vals = supply(ctx, sizes, ordered=False)
    if cfg.get("values"):
        vals = [[vs[(7 * j + 3) % len(vs) if len(vs) % 7 else (5 * j + 3) % len(vs)] for j in range(len(vs))] for vs in vals]
    ordered = [sorted(v, reverse=True) for v in vals]
    m1, m2 = build(ctx, vals, cfg["how"], cfg["first"]), market(ctx, ordered)
    for i, c in enumerate(m1.categories):
        ctx.check(ctx.all_eq(c.values, ordered[i]), "a category lists its traders from high to low")
    if any(v > w for vs in vals for v, w in zip(vs[1:], vs)):
        ctx.cover("reordered")
    if cfg["mech"] == "opt":
        (t1, r1), (t2, r2) = m1.optimal_trade(recipe), m2.optimal_trade(recipe)
        a = [list(ps) for ps in t1.procurement_sets] + [list(c.values) for c in r1.categories]
        b = [list(ps) for ps in t2.procurement_sets] + [list(c.values) for c in r2.categories]
    else:
        mech = mechanism(ctx, cfg["mech"])
        t1, t2 = mech(m1, recipe), mech(m2, recipe)
        a, b = cat_values(t1), cat_values(t2)
        if t1.num_of_deals() > 0:
            ctx.check(ctx.all_eq(t1.prices, t2.prices), "the prices do not depend on the order of arrival")
    if t1.num_of_deals() > 0:
        ctx.cover("trade")
    ctx.observe("result", a)
    ctx.check(t1.num_of_deals() == t2.num_of_deals(), "the number of deals does not depend on the order of arrival")
    ctx.check(ctx.eq(t1.gain_from_trade(), t2.gain_from_trade()), "the gain does not depend on the order of arrival")
    ctx.check(len(a) == len(b) and ctx.And(*[ctx.all_eq(x, y) for x, y in zip(a, b)]), "the traders do not depend on the order of arrival")
