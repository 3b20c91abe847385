"""Shared by the harnesses: symbolic markets and reference notions (optimum, number of deals) written from the definitions."""
import itertools
from fractions import Fraction

LIM = 10 ** 7          # every trader value is a real number in [-LIM, LIM]
VALUES = "every trader's value is an arbitrary real number in [-10^7, 10^7] (in configurations marked `values`, the traders of a larger category have values at equal distances (even), at two distances (bent) or at three values (levels), all arbitrary)"


def supply(ctx, sizes, prefix="v", ordered=True, lim=LIM):
    """One list of symbolic values per category; listed from high to low when ordered (any order reaches the same
    sorted category, see P13)."""
    out = []
    shape = ctx.cfg.get("values")
    for i, n in enumerate(sizes):
        if shape and n > 2:
            out.append(few_parameters(ctx, shape, n, "%s%d_" % (prefix, i), lim))
            continue
        number = ctx.int if ctx.cfg.get("numbers") == "ints" else ctx.real
        vs = [number("%s%d_%d" % (prefix, i, j), -lim, lim) for j in range(n)]
        if ordered:
            for a, b in zip(vs, vs[1:]):
                ctx.assume(ctx.ge(a, b))
        out.append(vs)
    return out


def few_parameters(ctx, shape, n, prefix, lim):
    """n values from high to low that depend on few symbolic ones: "even" (equal distances), "bent" (two distances), "levels" (three values, each
    shared by about a third of the traders)."""
    if shape == "levels":
        levels = [ctx.real("%slevel%d" % (prefix, j), -lim, lim) for j in range(3)]
        for a, b in zip(levels, levels[1:]):
            ctx.assume(ctx.ge(a, b))
        return [levels[3 * j // n] for j in range(n)]
    top, step = ctx.real(prefix + "top", -lim, lim), ctx.real(prefix + "step", 0, 2 * lim)
    bend = n // 2 if shape == "bent" else n - 1
    other = ctx.real(prefix + "other", 0, 2 * lim) if shape == "bent" else 0
    vs = [top - min(j, bend) * step - max(j - bend, 0) * other for j in range(n)]
    ctx.assume(ctx.ge(vs[-1], -lim))
    return vs


def assume_signs(ctx, vals, signs):
    """Buyers have positive values, sellers negative ones."""
    for vs, s in zip(vals, signs or []):
        for v in vs:
            ctx.assume(ctx.gt(v, 0) if s > 0 else ctx.lt(v, 0))


ODD = ["a{0}", "%s and %d", "{b} 100%", "{}", "c's {x!r}", "%(d)s"]


def category_name(ctx, i, names=None):
    """`names` of the configuration: same gives all categories one name, odd gives names that look like formats."""
    kind = ctx.cfg.get("names")
    if kind == "odd":
        return ODD[i % len(ODD)] + (str(i) if i >= len(ODD) else "")
    return "agent" if kind == "same" else names[i] if names else "cat%d" % i


def market(ctx, vals, names=None):
    agents, markets = ctx.load("agents"), ctx.load("markets")
    listed = ctx.cfg.get("listed")
    if listed == "upwards":         # at creation, from low to high
        vals = [list(vs)[::-1] for vs in vals]
    elif listed == "one":           # added one by one
        vals, late = [list(vs)[1:2] for vs in vals], [[v for j, v in enumerate(vs) if j != 1] for vs in vals]
    elif listed == "group":         # added together
        vals, late = [list(vs)[-1:] for vs in vals], [list(vs)[:-1][::-1] for vs in vals]
    m = markets.Market([agents.AgentCategory(category_name(ctx, i, names), list(vs)) for i, vs in enumerate(vals)])
    if listed == "one":
        for i, vs in enumerate(late):
            for v in vs:
                m.append_trader(i, v)
    elif listed == "group":
        for c, vs in zip(m.categories, late):
            c.append(list(vs))
    return m


def listed_variants(configs, limit, most, plain=False):
    """Small configurations once more, with markets whose traders are not given from high to low, and (unless plain) with whole numbers as values
    and with one name for all categories."""
    small = [c for c in configs if max(c.get("sizes") or [0]) >= 2 and sum(c["sizes"]) <= limit]
    step = max(1, -(-len(small) // most))
    out = []
    for i, c in enumerate(small[::step]):
        c = dict(c, listed=("upwards", "one", "group")[i % 3])
        if not plain and i % 4 < 2:
            c["names"] = "same"
        if not plain and i % 2 and not c.get("values"):
            c["numbers"] = "ints"
        out.append(c)
    return out


def mechanism(ctx, name):
    """The single-recipe mechanisms by short name."""
    if name == "asc":
        return ctx.load("ascending_auction_protocol").budget_balanced_ascending_auction
    if name == "ext":
        return ctx.load("trade_reduction_protocol").budget_balanced_trade_reduction
    if name == "ext0":
        f = ctx.load("trade_reduction_protocol").budget_balanced_trade_reduction
        return lambda m, r: f(m, r, including_gft_0=False)
    if name == "mcafee":
        return ctx.load("mcafee_protocol").mcafee_trade_reduction
    if name == "mcafee0":
        f = ctx.load("mcafee_protocol").mcafee_trade_reduction
        return lambda m, r: f(m, r, price_heuristic=False)
    raise ValueError(name)


def dot(xs, ys):
    return sum((x * y for x, y in zip(xs, ys)), 0)


def cat_values(trade):
    return [list(c.values) for c in trade.categories]


def max_deals(sizes, recipe):
    return min(n // r for n, r in zip(sizes, recipe) if r > 0)


def deal(vals, recipe, j):
    """The value of the j-th best procurement set: the j-th group of highest traders of each category (sorted values)."""
    return sum((sum(vs[j * r:(j + 1) * r], 0) for vs, r in zip(vals, recipe)), 0)


def names_of(sizes):
    return ["cat%d" % i for i in range(len(sizes))]


def observe_trade(ctx, trade):
    ctx.observe("deals", trade.num_of_deals())
    ctx.observe("remaining", cat_values(trade))
    if trade.num_of_deals() > 0:
        ctx.observe("prices", list(trade.prices))


def sizes_up_to(limits, lo=0):
    return [list(t) for t in itertools.product(*[range(lo, m + 1) for m in limits])]


# ---------------------------------------------------------------- configurations of the single-recipe mechanisms
_ASC = [([1, 1], [6, 6]), ([1, 1], [1, 5]), ([1, 1], [5, 1]), ([1, 1], [2, 1]), ([1, 1, 1], [4, 4, 4]), ([1, 2], [4, 8]), ([2, 1], [8, 4]),
        ([2, 2], [6, 6]), ([2, 3], [5, 8]), ([3, 2], [7, 5]), ([3, 1], [9, 3]), ([1, 1, 2], [3, 3, 6]), ([1, 2, 1], [3, 5, 3]), ([2, 2, 3], [4, 5, 7]),
        ([4, 3, 2], [8, 6, 4]), ([1, 0, 1], [4, 2, 4]), ([0, 2, 1], [1, 5, 3]), ([1, 1, 1, 1], [2, 3, 3, 2]), ([2], [5]), ([1, 1], [0, 3]), ([1, 1], [3, 0]), ([1, 1], [0, 0]),
        ([1, 0, 1], [3, 0, 3]), ([0, 1, 1], [0, 3, 2]), ([2, 1, 0], [4, 3, 0]), ([1, 0, 2, 0], [2, 0, 5, 1])]
_ASC_BIG = [([1, 1], [10, 10]), ([1, 1, 1], [6, 6, 6]), ([1, 2], [6, 12]), ([2, 3], [9, 13]), ([3, 2], [13, 9]), ([1, 1, 1, 1], [4, 4, 4, 4]),
            ([4, 3, 2, 1], [9, 7, 5, 3]), ([1, 2, 3], [4, 8, 12]), ([5, 1], [15, 4]), ([1, 4], [4, 16]), ([2, 2], [10, 10])]
_EXT = [([1, 1], [4, 4]), ([1, 1], [1, 4]), ([1, 1], [4, 1]), ([1, 1], [2, 3]), ([1, 1, 1], [3, 3, 3]), ([1, 2], [3, 5]), ([2, 1], [5, 3]), ([2, 2], [4, 4]),
        ([2, 3], [4, 5]), ([3, 1], [6, 2]), ([1, 1, 2], [2, 2, 4]), ([2, 1, 2], [3, 2, 4]), ([1, 1, 1, 1], [2, 2, 2, 2]), ([1, 1], [0, 2]), ([1, 1], [3, 0]), ([1, 1], [0, 0]), ([1, 0, 1], [3, 2, 3]), ([1, 0, 1], [2, 0, 3]), ([0, 1, 2], [1, 2, 4])]
_EXT_BIG = [([1, 1], [5, 5]), ([1, 1], [6, 5]), ([1, 1, 1], [4, 4, 4]), ([1, 2], [4, 8]), ([2, 1], [8, 4]), ([2, 2], [6, 6]), ([3, 2], [7, 5]), ([2, 3], [6, 8]),
            ([1, 1, 1, 1], [3, 3, 3, 3]), ([1, 2, 3], [3, 5, 7])]
_MC = [([1, 1], [4, 4]), ([1, 1], [1, 3]), ([1, 1], [3, 1]), ([1, 1], [2, 3]), ([1, 1], [0, 2]), ([1, 1], [5, 4])]
_MC_WIDE = [([1], [3]), ([1, 1, 1], [2, 2, 2]), ([1, 1, 1], [3, 2, 3]), ([1, 1, 1], [0, 2, 2]), ([1, 1, 1], [2, 2, 1]), ([1, 1, 1, 1], [2, 1, 2, 2]), ([1, 1, 1, 1], [1, 2, 1, 1]), ([1, 1, 1, 1, 1], [1, 2, 1, 2, 1]), ([1], [2]), ([1], [0])]       # other recipes of ones
_MC_WIDE_BIG = [([1, 1, 1], [3, 3, 3]), ([1, 1, 1], [4, 3, 3]), ([1, 1, 1, 1], [2, 2, 2, 2])]
_MC_BIG = [([1, 1], [6, 6]), ([1, 1], [7, 5])]


def every_recipe(categories, top, sizes):
    """[(recipe, sizes)] for every recipe with the given number of categories and up to `top` traders of one category per deal;
    sizes(i, r) is the size of category i, of which a deal takes r traders."""
    for recipe in itertools.product(range(top + 1), repeat=categories):
        if any(recipe):
            yield list(recipe), [sizes(i, r) for i, r in enumerate(recipe)]


def _leftover(i, r):
    return 2 * r + (i + 1) % 2 if r else 1


def _scarce_first(i, r):
    return (r if i == 0 else 2 * r + i % 2) if r else 0


def _scarce_last(i, r):
    return (3 * r if i == 0 else r) if r else 2


def _systematic(kind, big):
    out = []
    if kind == "mc":
        return [([1, 1], [a, b]) for a in range(5 if big else 4) for b in range(5 if big else 4)]
    for n in (1, 2, 3):
        for shape in (_leftover, _scarce_first, _scarce_last):
            if n < 3 or shape is _leftover or kind == "asc" or big:
                out += every_recipe(n, 3 if n < 3 or big else 2, shape)
    if big:
        out += every_recipe(4, 2 if kind == "asc" else 1, _leftover)
    # four and more categories
    out += [(r, s) for r, s in every_recipe(4, 1, lambda i, r: 2 - i % 2 if r or i % 2 else 0) if sum(r) > 1]
    out += [(r, [2 * x - i % 2 if x else 1 for i, x in enumerate(r)]) for r in ([2, 1, 1, 1], [1, 1, 2, 1], [1, 2, 1, 3], [1, 1, 1, 2], [2, 2, 2, 2], [3, 1, 0, 1], [1, 0, 2, 2])]
    out += [([1] * 5, [1, 2, 1, 2, 2]), ([1] * 6, [2, 1, 1, 2, 1, 1]), ([1, 0, 1, 0, 1, 1], [2, 0, 1, 1, 2, 1]), ([1, 2, 1, 1, 2], [2, 2, 1, 2, 3])]
    out += [([1, 1], [a, b]) for a in range(4) for b in range(4)]
    if kind == "ext":            # its paths grow fastest
        out = [(r, s) for r, s in out if sum(s) <= (15 if big else 11)]
    return out


# large markets whose values depend on few symbolic numbers (few_parameters)
_TALL = {"asc": [([1, 1], [14, 14]), ([1, 1], [20, 9]), ([2, 3], [11, 17]), ([1, 1, 1], [9, 10, 11]), ([1, 6], [3, 20]), ([7, 2], [23, 8]), ([1, 2, 4], [4, 9, 17]), ([1, 1, 1, 1, 1], [4, 4, 4, 4, 4]), ([1, 1], [54, 55])],
         "ext": [([1, 1], [10, 10]), ([1, 1], [8, 14]), ([2, 3], [7, 11]), ([1, 1, 1], [6, 6, 7]), ([1, 4], [3, 14]), ([5, 2], [12, 6]), ([1, 1, 1, 1, 1], [3, 3, 3, 3, 3]), ([1, 1], [32, 33])],
         "mc": [([1, 1], [14, 14]), ([1, 1], [9, 20]), ([1, 1], [44, 40])]}

_TALL_BIG = {"asc": [([1, 1], [40, 40]), ([1, 2], [25, 51]), ([2, 2], [40, 40]), ([1, 1, 1], [20, 20, 20]), ([9, 10], [29, 41]), ([1, 1, 1, 1, 1, 1, 1], [5, 5, 5, 5, 5, 5, 5])],
             "ext": [([1, 1], [20, 20]), ([3, 3], [15, 15]), ([1, 1, 1], [10, 9, 11]), ([1, 8], [3, 27]), ([2, 1, 2], [9, 5, 8])], "mc": [([1, 1], [25, 25])]}


def tall_configs(tier, mechs):
    for mech in mechs:
        kind = "asc" if mech == "asc" else "ext" if mech.startswith("ext") else "mc"
        for recipe, sizes in _TALL[kind] + (_TALL_BIG[kind] if tier == "thorough" else []):
            for values in ("even", "bent", "levels") if max(sizes) > 5 else ("even",):
                yield dict(mech=mech, recipe=recipe, sizes=sizes, values=values, weight=sum(sizes))


def single_configs(tier, mechs, wide=()):
    """Configurations of the mechanisms `mechs`; those in `wide` (McAfee's) also with other numbers of categories than two."""
    big = tier == "thorough"
    for mech in mechs:
        kind = "asc" if mech == "asc" else "ext" if mech.startswith("ext") else "mc"
        base = {"asc": _ASC, "ext": _EXT, "mc": _MC}[kind]
        more = {"asc": _ASC_BIG, "ext": _EXT_BIG, "mc": _MC_BIG}[kind] if big else []
        if mech in wide:
            more = more + _MC_WIDE + (_MC_WIDE_BIG if big else [])
        seen = []
        for recipe, sizes in base + more + _systematic(kind, big):
            if (recipe, sizes) not in seen:
                seen.append((recipe, sizes))
                yield dict(mech=mech, recipe=recipe, sizes=sizes, weight=sum(sizes) + (5 if kind != "asc" else 0))
    yield from tall_configs(tier, mechs)
