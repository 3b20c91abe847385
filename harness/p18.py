"""Simultaneous clocks: all recipes keep the same price sum, below its bound."""
from .trees import *

BOUNDS = ("simultaneous price vectors of both kinds for the recipes of the listed trees; every sequence of 1-2 (thorough: 3) increases, each with one clock per recipe and arbitrary targets at or above the current prices; "
          "targets and bound are arbitrary reals in [-10^7, 10^7], the initial price is -10^8 (binary) or arbitrary in [-10^9, -10^7] (integer)")
COVER = ["reached target", "stopped at bound", "several clocks", "three steps"]


def cuts(struct):
    """Every choice of clocks that has exactly one on every path."""
    out = [[]]
    for i, sub in children(struct):
        out = [a + b for a in out for b in [[i]] + (cuts(sub) if sub else [])]
    return out


def configs(tier):
    big = tier == "thorough"
    for n in (4, 5):
        for tree in all_shapes(n):
            for cut in cuts(SHAPES[tree][0]):
                for counts in [None] + [[1 + i % 2 for i in range(n)], [3 - i % 3 for i in range(n)]] * (big or n == 4):
                    for module in ("prices", "prices_integer"):
                        if module == "prices_integer" or counts is None:
                            yield dict(module=module, tree=tree, counts=counts, seq=[list(cut)], weight=n)
    for tree, counts in [("pair", None), ("chain3", None), ("fork", None), ("mixed", None), ("late", None), ("wide", None), ("pair", [2, 3]), ("fork", [1, 2, 1]), ("fork", [2, 1, 3]), ("mixed", [1, 2, 1, 2]), ("mixed", [1, 1, 2, 3]),
                         ("late", [1, 2, 3, 1]), ("single", [2]), ("sparse", [2, 1, 3]), ("wide", [1, 2, 1, 1, 3])]:
        struct, n = SHAPES[tree]
        cs = cuts(struct)
        depth = 3 if big and len(cs) <= 4 else 2
        if len(cs) ** depth > (130 if big else 30):
            depth = 1
        seqs = list(itertools.product(cs, repeat=depth))
        if depth == 2 and not big and len(cs) == 3:
            seqs += [tuple(cs)]
        for seq in seqs:
            for module in ("prices", "prices_integer"):
                if module == "prices_integer" or counts is None:
                    yield dict(module=module, tree=tree, counts=counts, seq=[list(s) for s in seq], weight=len(seq) * n)


def run(ctx, cfg):
    mod = ctx.load(cfg["module"])
    struct, n = SHAPES[cfg["tree"]]
    counts = counts_of(cfg)
    recipes = [[counts[i] if i in p else 0 for i in range(n)] for p in paths(struct)]
    start = -10 ** 8 if cfg["module"] == "prices" else ctx.real("start", -10 ** 9, -10 ** 7)
    bound = ctx.real("bound", -LIM, LIM)
    pv = mod.SimultaneousAscendingPriceVectors([list(r) for r in recipes], start)

    def sums():
        return [dot(pv.map_category_index_to_price(), r) for r in recipes]

    def level():
        s = sums()
        for x in s[1:]:
            ctx.check(ctx.eq(x, s[0]), "all recipes have the same price sum")
        ctx.check(ctx.eq(pv.price_sum(), s[0]), "the announced price sum is that of every recipe")
        return s[0]
    level()
    for step, clocks in enumerate(cfg["seq"]):
        old = list(pv.map_category_index_to_price())
        targets = [ctx.real("target%d_%d" % (step, i), -LIM, LIM) for i in clocks]
        for i, t in zip(clocks, targets):
            ctx.assume(ctx.ge(t, old[i]))
        pv.increase_prices([(i, t, "category %d" % i) for i, t in zip(clocks, targets)], sum_upper_bound=bound)
        new = list(pv.map_category_index_to_price())
        s, name = level(), pv.status.name
        ctx.observe("step%d" % step, [name] + new)
        ctx.check(ctx.le(s, bound), "the price sum never exceeds its bound")
        for i in range(n):
            if i in clocks:
                ctx.check(ctx.And(ctx.ge(new[i], old[i]), ctx.le(new[i], targets[clocks.index(i)])), "a price moves between its old value and its target")
            else:
                ctx.check(ctx.eq(new[i], old[i]), "the other prices stay")
        if len(clocks) > 1:
            ctx.cover("several clocks")
        if name == "STOPPED_AT_ZERO_SUM":
            ctx.cover("stopped at bound")
            ctx.check(ctx.eq(s, bound), "stopped exactly at the bound")
            return
        ctx.cover("reached target")
        ctx.check(name == "STOPPED_AT_AGENT_VALUE" and ctx.lt(s, bound), "the clocks go on below the bound")
        ctx.check(ctx.Or(*[ctx.eq(new[i], t) for i, t in zip(clocks, targets)]), "the clocks stop when one of them reaches its target")
        if step == 2:
            ctx.cover("three steps")
