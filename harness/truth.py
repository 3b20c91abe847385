"""Misreporting in a single-recipe mechanism: the same market is run with a trader's true value and with another report."""
from .common import *


_TALL_TRUTH = {"asc": [([1, 1], [8, 8]), ([2, 3], [7, 11]), ([1, 1, 1], [5, 6, 5]), ([1, 5], [2, 13])], "ext": [([1, 1], [6, 6]), ([1, 1], [8, 4]), ([1, 1, 1], [3, 4, 3])], "mc": [([1, 1], [7, 7])]}
_TALL_TRUTH_BIG = {"asc": [([1, 1], [16, 16]), ([4, 3], [19, 13]), ([1, 1, 1, 1], [5, 5, 5, 5])], "ext": [([1, 1], [10, 10]), ([1, 1, 1], [5, 5, 5])], "mc": [([1, 1], [12, 12])]}


def tall_truth(tier, mechs):
    """Larger markets in which the values of the other traders depend on few symbolic numbers."""
    for mech in mechs:
        kind = "asc" if mech == "asc" else "ext" if mech.startswith("ext") else "mc"
        for recipe, sizes in _TALL_TRUTH[kind] + (_TALL_TRUTH_BIG[kind] if tier == "thorough" else []):
            for who in range(len(recipe)):
                for values in ("even", "bent", "levels") if tier == "thorough" else ("even", "levels"):
                    yield dict(mech=mech, recipe=recipe, sizes=sizes, who=who, values=values, weight=sum(sizes))


def chance(trade, recipe, i):
    """Probability that a participating trader of category i is picked for a deal."""
    n = len(trade.categories[i].values)
    return Fraction(trade.num_of_deals() * recipe[i], n) if n else 0


def members(trade, i):
    return list(trade.categories[i].values)


def run_truth(ctx, cfg):
    sizes, recipe, c = cfg["sizes"], cfg["recipe"], cfg["who"]
    vals = supply(ctx, sizes)                       # the other traders
    assume_signs(ctx, vals, cfg.get("signs"))
    number = ctx.int if cfg.get("numbers") == "ints" else ctx.real
    t, b = number("truth", -LIM, LIM), number("report", -LIM, LIM)
    if cfg.get("signs"):
        assume_signs(ctx, [[t, b]], [cfg["signs"][c]])
    mech = mechanism(ctx, cfg["mech"])

    def play(x):
        vs = [list(v) for v in vals]
        vs[c].append(x)
        return mech(market(ctx, vs), recipe)
    lie = play(b)
    ctx.observe("deals with the report", lie.num_of_deals())
    if lie.num_of_deals() == 0:
        ctx.cover("lie: no trade")
        return                                      # nothing to gain: truth-telling never loses (P02)
    m = members(lie, c)
    if not m or not ctx.ge(b, m[-1]):
        ctx.cover("lie: excluded")
        return
    ctx.cover("lie: participates")
    price = lie.prices[c]
    gain_lie = (t - price) * chance(lie, recipe, c)
    honest = play(t)
    observe_trade(ctx, honest)
    # value of truth-telling; when a tie leaves open whether this very trader was kept, count the worse of both cases
    gain_honest = 0
    if honest.num_of_deals() > 0:
        h = members(honest, c)
        everyone = sorted(vals[c] + [t], reverse=True)
        inside = len(h) == len(everyone) or (h and t >= h[-1] and t > everyone[len(h)])
        if inside:
            ctx.cover("truth: participates")
            gain_honest = (t - honest.prices[c]) * chance(honest, recipe, c)
            ctx.check(ctx.eq(honest.prices[c], price), "the price a participant faces does not depend on its own report")
            ctx.check(honest.num_of_deals() == lie.num_of_deals(), "a participant's report does not change the number of deals")
    if gain_honest == 0:
        ctx.cover("truth: no gain")
    ctx.check(ctx.le(gain_lie, gain_honest), "no misreport gives a higher expected gain than the truth")
