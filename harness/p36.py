"""The building blocks of a market."""
import itertools

from .common import *

BOUNDS = ("markets of the listed category sizes; sequences of up to two operations (with fewer than four traders three; thorough: one more) out of add a trader, add a group, take out the highest traders, clone and change the clone, ask for the empty market and fill it; prices from external competition for the listed recipes; " + VALUES)
COVER = ["trader", "group", "take", "clone", "empty", "prices", "not enough"]
OPS = ["trader", "group", "take", "clone", "empty"]


def configs(tier):
    big = tier == "thorough"
    for sizes in ([1, 1], [2, 2], [0, 2], [1, 2, 1]) + (([2, 3], [3, 1, 2]) if big else ()):
        for d in range(1, (4 if big and sum(sizes) < 5 else 3 if sum(sizes) < 4 or big else 2) + 1):
            for ops in itertools.product(OPS, repeat=d):
                yield dict(kind="ops", sizes=list(sizes), ops=list(ops), weight=sum(sizes) + d)
    for recipe in ([1, 1], [1, 2], [3, 1], [2, 3], [1, 1, 1], [2, 1, 3], [4, 2, 1, 1]) + (([5, 3, 2, 2, 1],) if big else ()):
        for pivot in range(len(recipe)):
            yield dict(kind="prices", recipe=list(recipe), pivot=pivot, sizes=[2] * len(recipe), weight=1)


def insert(ctx, ref, v):
    out = list(ref)
    for i, w in enumerate(out):
        if v >= w:
            return out[:i] + [v] + out[i:]
    return out + [v]


def look(ctx, m, ref, when):
    ctx.check(m.num_categories == len(ref) == len(m.categories), "the number of categories is right " + when)
    ctx.check(ctx.And(*[ctx.all_eq(c.values, r) for c, r in zip(m.categories, ref)]), "exactly the right traders, from high to low, " + when)
    ctx.check(m.has_empty_category() == any(not r for r in ref), "an empty category is noticed " + when)
    for want in itertools.product((0, 1, 2), repeat=len(ref)):
        got = m.get_highest_agents(list(want))
        if any(len(r) < w for r, w in zip(ref, want)):
            ctx.cover("not enough")
            ctx.check(got is None, "no group of traders if there are not enough")
        else:
            ctx.check(got is not None and ctx.all_eq(list(got), [v for r, w in zip(ref, want) for v in r[:w]]), "the highest traders of each category are found " + when)


def run(ctx, cfg):
    sizes = cfg["sizes"]
    given = supply(ctx, sizes)
    ref = [list(v) for v in given]
    agents, markets = ctx.load("agents"), ctx.load("markets")
    m, twin = [markets.Market([agents.AgentCategory("cat%d" % i, v) for i, v in enumerate(given)]) for _ in range(2)]
    start = [list(v) for v in ref]
    if cfg["kind"] == "prices":
        ctx.cover("prices")
        pivot, recipe = cfg["pivot"], cfg["recipe"]
        value = ctx.real("pivot", -LIM, LIM)
        best = m.best_containing_PS(pivot, value)
        ctx.check(ctx.all_eq(list(best), [value if i == pivot else v[0] for i, v in enumerate(ref)]), "the best group with a given trader has the highest traders of the other categories")
        others = [value if i == pivot else ctx.real("other%d" % i, -LIM, LIM) for i in range(len(recipe))]
        prices = m.calculate_prices_by_external_competition(pivot, value, list(others), list(recipe))
        ctx.observe("prices", list(prices))
        ctx.check(len(prices) == len(recipe) and ctx.And(*[ctx.eq(p, o) for i, (p, o) in enumerate(zip(prices, others)) if i != pivot]), "the other categories pay their external competitor's value")
        ctx.check(ctx.eq(dot(prices, recipe), 0), "the price of the pivot category balances the deal")
        return
    for step, op in enumerate(cfg["ops"]):
        ctx.cover(op)
        new = [ctx.real("n%d_%d" % (step, i), -LIM, LIM) for i in range(len(sizes))]
        if op == "trader":
            where = step % len(sizes)
            m.append_trader(where, new[where])
            ref[where] = insert(ctx, ref[where], new[where])
        elif op == "group":
            group = list(new)
            m.append_PS(group)
            ctx.check(len(group) == len(new), "the given group stays as it was")
            ref = [insert(ctx, r, v) for r, v in zip(ref, new)]
        elif op == "take":
            want = [min(len(r), (1, 2, 0)[(i + step) % 3]) for i, r in enumerate(ref)]
            m.remove_highest_agents(want)
            ref = [r[w:] for r, w in zip(ref, want)]
        elif op == "clone":
            c = m.clone()
            ctx.check([x.name for x in c.categories] == [x.name for x in m.categories], "a clone has the same categories")
            look(ctx, c, ref, "in a clone")
            c.append_trader(0, new[0])
            c.remove_highest_agents([0] * (len(sizes) - 1) + [min(1, len(ref[-1]))])
            if len(sizes) > 1:
                look(ctx, c, [insert(ctx, ref[0], new[0])] + ref[1:-1] + [ref[-1][1:]], "in a changed clone")
        else:
            e = m.empty_agent_categories()
            ctx.check([c.name for c in e] == [c.name for c in m.categories] and all(len(c) == 0 for c in e), "the empty categories have the same names and no traders")
            e[0].append(new[0])
            ctx.check(all(len(c) == 0 for c in e[1:]) and all(len(c) == 0 for c in m.empty_agent_categories()), "filling one empty category fills no other")
        look(ctx, m, ref, "after " + op)
        ctx.check(ctx.And(*[ctx.all_eq(g, v) for g, v in zip(given, start)]), "the lists that the traders were given in stay as they were")
        ctx.check(ctx.And(*[ctx.all_eq(c.values, v) for c, v in zip(twin.categories, start)]), "another market of the same traders stays as it was")
    ctx.observe("market", [list(c.values) for c in m.categories])
