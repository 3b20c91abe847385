"""The stock prices are turned into traders of the right number, sign and size."""
import shutil
import tempfile

from .experiments import *

BOUNDS = ("get_stocks_data: prices per stock file arbitrary positive numbers up to 10^4, 1-2 days per file, recipes, trees and trader counts as listed; the shuffle is arbitrary (up to 4 prices: every order); the data frame library and the random numbers are replaced by stand-ins, the files "
          "are empty files in a scratch directory")
COVER = ["prices", "tree", "shuffled", "files"]
TYPES = ["High", "Close", "Open", "Low"]


def configs(tier):
    big = tier == "thorough"
    for recipe in [[1, 1], [2, 1], [1, 2], [2, 1, 1], [1, 1, 1], [2, 2, 2], [2, 2], [1, 3], [2, 3], [1, 2, 2], [1, 2, 3], [1, 1, 1, 1], [2, 1, 1, 3]] + ([[3, 1], [1, 1, 1, 1, 1], [1, 2, 3, 4], [3, 2, 1], [4, 4, 4, 4]] if big else []):
        for days in (1, 2) + ((3,) if big else ()):
            yield dict(kind="prices", recipe=recipe, days=days, weight=1)
    for counts, values in [([1, 1], [1, 1]), ([1, 1], [2, 1]), ([2, 1, 1], [1, 1, 1]), ([1, 1, 1], [2, 1, 1]), ([1, .5, .5], [2, 1, 1]), ([3, 1], [1, 3]), ([1, 1, 1, 1], [3, 1, 1, 1]), ([2, 3], [1, 1]), ([3, 2], [1, 2])]:
        yield dict(kind="tree", counts=counts, values=values, days=1, weight=5)
    yield dict(kind="shuffled", days=1, weight=5)
    yield dict(kind="files", recipe=[1, 1], days=1, weight=2)
    yield dict(kind="files", recipe=[1, 2], days=2, weight=2)
    yield dict(kind="files", recipe="tree", days=1, weight=2)
    yield dict(kind="files", recipe=None, days=1, weight=2)


class Column:
    """A column of a data frame."""

    def __init__(self, xs):
        import numpy as np
        self.xs = np.empty(len(xs), dtype=object)
        self.xs[:] = xs

    def to_numpy(self, *a, **k):
        return self.xs.copy()

    def to_list(self):
        return list(self.xs)
    tolist = to_list
    values = property(to_numpy)

    def __iter__(self):
        return iter(self.xs)

    def __len__(self):
        return len(self.xs)

    def __getitem__(self, i):
        return self.xs[i]


def run(ctx, cfg):
    kind, days = cfg["kind"], cfg["days"]
    names = ["AA", "AB", "BA"] if kind == "files" else ["AA"]
    table = {n: {t: [ctx.real("%s_%s_%d" % (n, t, d), Fraction(1, 100), 10 ** 4) for d in range(days)] for t in TYPES} for n in names}
    pandas = types.ModuleType("pandas")
    pandas.read_csv = lambda path, *a, **k: {t: Column(xs) for t, xs in table[path.replace("\\\\", "/").rsplit("/", 1)[-1][:-4]].items()}
    draws = Draws(ctx)
    ctx.override({"pandas": pandas, "random": draws.module()})
    mod = ctx.load("get_stocks_data")
    ctx.cover(kind)
    one = lambda v, x: ctx.And(ctx.le(v - 1000 * x, 1), ctx.le(1000 * x - v, 1))        # cut to whole thousandths
    if kind == "prices":
        check_prices(ctx, cfg["recipe"], table["AA"], mod.getPrices("some/AA.csv", tuple(cfg["recipe"])))
    elif kind == "files":
        d = tempfile.mkdtemp(prefix="stocks-")
        try:
            for n in names:
                open("%s/%s.csv" % (d, n), "w").close()
            import os
            os.mkdir(d + "/nothing.csv")
            mod.STOCKS = d
            draws.in_order = True
            if cfg["recipe"] == "tree":
                data, stocks = mod.getStocksTreePrices([0, [1, None]], [1, 2], [2, 1])
            elif cfg["recipe"]:
                data, stocks = mod.getStocksPrices(tuple(cfg["recipe"]))
            else:
                data, stocks = mod.getStocksPricesShuffled()
                before = [list(x) for x in data]
                draws.in_order = False
                again, stocks2 = mod.getStocksPricesShuffled()
                ctx.check(list(stocks) == list(stocks2) and len(again) == len(before) and all(len(x) == len(y) for x, y in zip(before, again))
                          and ctx.And(*[ctx.all_eq(x, list(y)) for x, y in zip(before, again)]), "asking again gives the same prices")
        finally:
            shutil.rmtree(d)
        ctx.check(sorted(stocks) == names and len(data) == len(names), "one entry for each stock file")
        for n, x in zip(stocks, data):
            every = [p for t in TYPES for p in table[n][t]]
            if cfg["recipe"] == "tree":
                ctx.check([len(c) for c in x] == [4 * days // 3, 8 * days // 3], "the numbers of traders are in the ratio of the counts")
                for c, f in zip(x, (2, -1)):
                    ctx.check(ctx.And(*[ctx.Or(*[one(v * Fraction(1, f), p) for p in every]) for v in c]), "every trader has a price of its stock")
            elif cfg["recipe"]:
                check_prices(ctx, cfg["recipe"], table[n], x)
            else:
                ctx.check(len(x) == len(every) and ctx.And(*[ctx.Or(*[one(v, p) for v in x]) for p in every]), "every price of the stock is used")
    else:
        every = [x for t in TYPES for x in table["AA"][t]]
        for a, b in zip(every, every[1:]):
            ctx.assume(ctx.ge(a, b + 1))                 # different prices: their traders can be told apart
        if kind == "shuffled":
            data = mod.getAllPricesShuffled("some/AA.csv", "AA")
            ctx.check(len(data) == len(every), "every price is used")
            got = [list(data)]
            before = list(data)
            again = mod.getAllPricesShuffled("some/AA.csv", "AA")
            ctx.check(len(again) == len(before) and ctx.all_eq(before, list(again)), "asking again gives the same prices")
            sizes, signs = [len(every)], [1]
        else:
            counts = [Fraction(c) for c in cfg["counts"]]
            data = mod.get_prices_tree("some/AA.csv", list(cfg["counts"]), list(cfg["values"]))
            got = [list(c) for c in data]
            signs = [v if i == 0 else -v for i, v in enumerate(cfg["values"])]
            sizes = [int(Fraction(len(every)) / sum(counts) * c) for c in counts]
        ctx.check([len(g) for g in got] == sizes, "the numbers of traders are in the ratio of the counts")
        used = [[] for _ in every]
        for g, s in zip(got, signs):
            for v in g:
                fits = [one(v * Fraction(1, s), x) for x in every]
                ctx.check(ctx.Or(*fits), "every value is a price of the file in thousandths, times the units, negative for sellers")
                for u, f in zip(used, fits):
                    u.append(f)
        for u in used:
            for i, a in enumerate(u):
                for b in u[:i]:
                    ctx.check(ctx.Not(ctx.And(a, b)), "no price is used twice")


def check_prices(ctx, recipe, table, data):
    """Sizes in the ratio of the recipe; buyers get the high prices, sellers the (negative) low ones."""
    data = [list(c) for c in data]
    days = len(table["High"])
    buyers = table["High"] + table["Close"]
    sellers = [-x for x in table["Open"] + table["Low"]]
    ctx.check(len(data) == len(recipe), "one list of traders for each category")
    if len(data) != len(recipe):
        return
    ctx.check(len(data[0]) > 0 and all(len(v) * recipe[0] == len(data[0]) * r for v, r in zip(data, recipe)), "the numbers of traders are in the ratio of the recipe")
    ctx.check(ctx.And(*[ctx.ge(v, 0) for v in data[0]] + [ctx.le(v, 0) for c in data[1:] for v in c]), "buyers have positive values, sellers negative ones")
    ctx.observe("data", data)
    one = lambda v, x: ctx.And(ctx.le(v - 1000 * x, 1), ctx.le(1000 * x - v, 1))
    pairs = lambda xs: [a + b for a, b in zip(xs[:days], xs[days:])]
    if tuple(recipe) in ((1, 1), (2, 1), (1, 2), (2, 1, 1), (1, 1, 1)) or len(recipe) == 3 and len(set(recipe)) == 1:
        # every price of the file in exactly one trader
        want = [buyers if len(data[0]) == 2 * days else pairs(buyers)]
        want += [sellers[:days], sellers[days:]] if len(recipe) == 3 else [sellers if len(data[1]) == 2 * days else pairs(sellers)]
        for v, w in zip(data, want):
            ctx.check(len(v) == len(w) and ctx.And(*[one(a, b) for a, b in zip(v, w)]), "every price of the file belongs to one trader")
    else:
        units = sum(recipe) - recipe[0]
        ctx.check(ctx.And(*[ctx.Or(*[one(v, x * units) for x in buyers]) for v in data[0]]), "a buyer's value is a high price for as many units as it buys")
        ctx.check(ctx.And(*[ctx.Or(*[one(v, x) for x in sellers]) for c in data[1:] for v in c]), "a seller's value is a low price")
