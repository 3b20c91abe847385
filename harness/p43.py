"""The table of the comparison of mechanisms on stock or random prices says what the mechanisms did."""
import re

from .p42 import Mechanisms, optimum, same_traders
from .experiments import *

BOUNDS = ("the comparison of mechanisms over many markets, with arbitrary mechanisms (0-2 deals, any gains) on arbitrary integer prices or random values; recipes, numbers of prices and of agents, stocks and iterations as listed; the table library, random numbers and the "
          "files of differences are replaced by recorders (random numbers arbitrary within the range the code asks for, every order of the prices in the smaller configurations); numbers in the table may differ from the exact ones by the last displayed digit")
COVER = ["stocks", "random", "no optimal deal", "optimal deals", "zero deals", "reused prices", "difference", "no difference"]


def configs(tier):
    big = tier == "thorough"
    # in_order: shuffling leaves the prices as they are
    for recipe, stocks, agents, iterations, names, order in [
            ((1, 1), [2], [1], 1, ["A"], False), ((1, 1), [2], [1], 2, ["A"], True), ((1, 1), [2, 3], [1], 1, ["A"], True), ((1, 1), [4], [1, 2], 1, ["A"], True), ((1, 2), [3], [1], 1, ["A"], False), ((1, 2), [3], [1], 1, ["A", "B"], True),
            ((2, 1), [3], [1], 1, ["A"], True), ((1, 1, 1), [3], [1], 1, ["A"], True), ((1, 1), [1], [1], 1, ["A"], True), ((1, 1), [1], [2], 1, ["A"], True), ((1, 2), [1], [2], 1, ["A"], True), ((1, 1), [6], [3], 1, ["A"], True), ((1, 1), [2], [2], 1, ["A"], True), ((1, 1), [2], [1], 1, ["SBBA", "SBBB"], True), ((1, 1), [2], [1], 1, ["M", "SBBA", "SBBB"], True), ((2, 2), [4], [1], 1, ["A"], True), ((2, 2), [4], [1], 1, ["A"], True)] + \
            ([((1, 1), [4], [2], 1, ["A"], False), ((1, 1), [4], [2], 1, ["A", "B"], True), ((1, 1), [2, 2], [1], 2, ["A"], True), ((2, 3), [5], [1], 1, ["A"], True), ((1, 2), [6], [2], 1, ["A"], True)] if big else []):
        yield dict(data="stocks", recipe=list(recipe), stocks=stocks, agents=agents, iterations=iterations, mechanisms=names, in_order=order, weight=sum(stocks) * iterations * len(names) * 2)
    # prices that are not given
    for stocks, agents in (([2, 3], [1]), ([2], [1, 2])):
        yield dict(data="stocks", recipe=[1, 1], stocks=stocks, agents=agents, iterations=1, mechanisms=["A"], in_order=True, asked=True, weight=4)
    # small numbers are written with an exponent, as floats are
    yield dict(data="stocks", recipe=[1, 1], stocks=[2], agents=[1], iterations=1, mechanisms=["A"], in_order=True, exponents=True, weight=3)
    yield dict(data="random", recipe=[1, 1], stocks=[0], agents=[1], iterations=1, mechanisms=["A"], in_order=True, exponents=True, weight=3)
    for recipe, agents, iterations, names in [((1, 1), [1], 1, ["A"]), ((1, 1), [2], 1, ["A"]), ((1, 2), [1], 1, ["A"]), ((2, 1), [1], 1, ["A"]), ((1, 1), [1], 2, ["A"]), ((1, 1), [1, 2], 1, ["A"]), ((1, 1, 1), [1], 1, ["A", "B"])] + \
            ([((1, 1), [3], 1, ["A"]), ((1, 2), [2], 1, ["A", "B"]), ((2, 3), [1], 1, ["A"])] if big else []):
        yield dict(data="random", recipe=list(recipe), stocks=[0], agents=agents, iterations=iterations, mechanisms=names, in_order=True, weight=sum(recipe) * sum(agents) * iterations * len(names) * 2)


def number(ctx, text, places):
    """A number of the table: cut to so many decimals by the code (a token for a symbolic number is left whole)."""
    if not isinstance(text, str):
        return None
    head, dot, tail = text.rpartition(".")
    if not dot or len(tail) != places or "e" in text.lower():
        return None
    x = ctx.number_of_token(head) if set(tail) <= {"0"} else None
    return ctx.number_of_token(text) if x is None else x


def run(ctx, cfg):
    recipe, iterations, agents, mechanisms = cfg["recipe"], cfg["iterations"], cfg["agents"], cfg["mechanisms"]
    ctx.cover(cfg["data"])
    if cfg.get("exponents"):
        ctx.exponents()
    draws = Draws(ctx)
    draws.in_order = cfg["in_order"]
    data = types.ModuleType("get_stocks_data")
    wanted = []

    def get(*a):
        if not cfg.get("asked"):
            ctx.fail("the prices that were given are used")
        wanted.append(a)
        return [list(g) for g in given], names
    data.getStocksPricesShuffled = get
    ctx.override(dict(table_modules(), random=draws.module(), get_stocks_data=data))
    exp = ctx.load("stock.experiment_compare_iterations_autions")
    differences = []

    class File:
        def __init__(self, name, *a, **k):
            differences.append(name)

        def write(self, text):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False
    exp.open = File
    names = ["stock%d" % i for i in range(len(cfg["stocks"]))]
    given = [[ctx.int("p%d_%d" % (s, j), 1, 1000) for j in range(n)] for s, n in enumerate(cfg["stocks"])]
    mech = Mechanisms(ctx)
    calls = mech.calls
    file = "no such folder/some.csv"
    exp.experiment(file, [mech.make(m) for m in mechanisms], list(mechanisms), tuple(recipe), list(agents), *([None, None] if cfg.get("asked") else [[list(g) for g in given], names]), iterations, cfg["data"] == "stocks")
    if cfg.get("asked"):
        ctx.check(wanted == [()], "the prices are asked for, once")
    ctx.check(len(Table.made) == 1 and Table.made[0].finished and Table.made[0].filename == file, "one table is written to the given file")
    table = Table.made[0]
    jobs = [(s, n) for s in range(len(given)) for n in agents for _ in range(iterations)]
    fits = len(table.rows) == len(agents) and len(calls) == len(jobs) * len(mechanisms)
    ctx.check(fits, "one row for each number of agents, and one run of each mechanism for each stock and iteration")
    if not fits:
        return
    per_buyer = Fraction(sum(recipe) - recipe[0], recipe[0])
    found = {n: [] for n in agents}
    for j, (s, n) in enumerate(jobs):
        first, results = None, {}
        for (name, vals, r, res), m in zip(calls[j * len(mechanisms):], mechanisms):
            first = first or [list(v) for v in vals]
            results[m] = res
            ctx.check(name == m and r == recipe and same_traders(ctx, vals, first), "every mechanism gets the same traders and the recipe")
        ctx.check([len(v) for v in first] == [n * x for x in recipe], "the market has the asked number of traders")
        if cfg["data"] == "stocks":
            if n * sum(recipe) > len(given[s]):
                ctx.cover("reused prices")
            check_prices(ctx, first, given[s], recipe, per_buyer, n)
        else:
            for i, v in enumerate(first):
                lo, hi = (-100000, -1) if i else (per_buyer, 100000 * per_buyer)
                ctx.check(ctx.And(*[ctx.And(ctx.ge(x, lo - Fraction(1, 2)), ctx.le(x, hi + Fraction(1, 2))) for x in v]), "the random values are in the range of their side (rounded)")
        found[n].append((optimum(ctx, first, recipe), results))
    for row, n in zip(table.rows, agents):
        check_row(ctx, cfg, table, row, n, found[n])
    # files of differences: a balanced mechanism that is worse than the first one
    sbb = [m for m in mechanisms if "SBB" in m]
    worse = []
    for n in agents:
        for _, results in found[n]:
            for m in sbb[1:]:
                if results[sbb[0]].total >= 0:
                    worse.append(results[m].total < results[sbb[0]].total)
                worse.append(results[m].deals < results[sbb[0]].deals)
    if not sbb[1:]:
        ctx.check(not differences, "no file of differences without several balanced mechanisms")
    elif any(worse):
        ctx.cover("difference")
        ctx.check(bool(differences), "a mechanism that is worse than the first balanced one is reported")
    elif all(results[sbb[0]].total >= 0 for n in agents for _, results in found[n]):
        ctx.cover("no difference")
        ctx.check(not differences, "nothing is reported if no balanced mechanism is worse than the first one")


def check_prices(ctx, vals, prices, recipe, per_buyer, n):
    """The traders are made of prices of the stock: buyers of a price times the sellers for each of them (cut to an integer), sellers of minus a price."""
    need = n * sum(recipe)
    pool = list(prices)
    while len(pool) < need:
        pool = pool + pool
    used = 0
    for i, v in enumerate(vals):
        worth = [p if i else int_part(ctx, p * per_buyer) for p in prices]
        for x in v:
            used += 1
            ctx.check(ctx.Or(*[ctx.eq(x if i == 0 else -x, w) for w in worth]), "every trader has a price of the stock")
    if used == len(pool) and per_buyer.denominator == 1:
        # all prices: the totals agree too
        total = sum((x * (Fraction(1) / per_buyer) for x in vals[0]), 0) - sum((x for v in vals[1:] for x in v), 0)
        ctx.check(ctx.eq(total, sum(pool, 0)), "every price is used once")


def int_part(ctx, x):
    import math
    return x.__trunc__() if hasattr(x, "__trunc__") else math.trunc(x)


def check_row(ctx, cfg, table, row, n, found):
    recipe, runs = cfg["recipe"], len(found)
    ctx.check(set(row) == set(table.columns), "the row has the columns of the table")
    ctx.check(row["iterations"] == cfg["iterations"] and row["recipe"] == ":".join(map(str, recipe)) and row["numpossibletrades"] == n, "the row names its experiment")
    part = Fraction(1, runs)

    def shows(column, total, what):
        places = 3 if "gftratio" in column else 2
        x = number(ctx, row[column], places)
        ctx.check(x is not None and close(ctx, x, total * part, places), what)
    shows("optimalcount", sum(o[0] for o, _ in found), "mean number of gaining deals of the optimum")
    shows("optimalcountwithgftzero", sum(o[1] for o, _ in found), "mean number of deals of the optimum")
    gains = [o[2] for o, _ in found]
    shows("optimalgft", sum(gains, 0), "mean optimal gain")
    shows("optimalgftwithgftzero", sum(gains, 0), "mean optimal gain, with zero-gain deals")
    ones = set(recipe) == {1}
    shows("gftratioformula", sum(Fraction(100 * (o[0] - 1), o[0] if ones else o[0] + 1) if o[0] > 1 else 0 for o, _ in found), "mean guaranteed part of the gain")
    for m in cfg["mechanisms"]:
        res = [r[m] for _, r in found]
        shows(m + "count", sum(r.deals for r in res), "mean number of deals")
        shows(m + "countratio", sum(Fraction(100 * r.deals, o[1]) if o[0] else 0 for r, (o, _) in zip(res, found)), "mean ratio of deals in percent")
        shows(m + "withoutgftzerocountratio", sum(Fraction(100 * r.deals, o[0]) if o[0] else 0 for r, (o, _) in zip(res, found)), "mean ratio of deals to those that gain")
        shows(m + "totalgft", sum((r.total for r in res), 0), "mean gain")
        shows(m + "withoutgftzerototalgft", sum((r.total for r in res), 0), "mean gain")
        shows(m + "marketgft", sum((r.kept for r in res), 0), "mean gain of the traders")
        for column, xs in (("totalgftratio", [r.total for r in res]), ("withoutgftzerototalgftratio", [r.total for r in res]), ("marketgftratio", [r.kept for r in res])):
            total = 0
            for x, g in zip(xs, gains):
                if not (g == 0):
                    total = total + 100 * (x / g)
            shows(m + column, total, "mean ratio of gains in percent")
