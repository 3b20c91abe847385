"""The tables of the recipe-tree experiments say what the auctions and the optimal trades did."""
from .experiments import *
from .trees import SHAPES

BOUNDS = ("the four recipe-tree experiments (random and stock, with and without units per deal); with arbitrary results of auction and optimal trade (counts 0-2, any gains) on one market, and with the real auction and optimal trade on arbitrary markets; trees, numbers of agents "
          "and iterations (at most 2) as listed; random numbers are arbitrary within the range the code asks for, stock prices arbitrary; table library and random numbers are replaced by recording stand-ins; a number in the table may differ by 0.0001 from the exact one (it is rounded)")
COVER = ["random", "stock", "arbitrary results", "real auctions", "no optimal deal", "optimal deals"]
MODULES = {("bin", "random"): "experiment_ascending_auction_recipetree_random", ("int", "random"): "experiment_ascending_auction_recipetree_integer_random",
           ("bin", "stock"): "experiment_ascending_auction_recipetree_stock", ("int", "stock"): "experiment_ascending_auction_recipetree_integer_stock"}
PROTOCOLS = {"bin": "ascending_auction_recipetree_protocol", "int": "ascending_auction_recipetree_integer_protocol"}
TREES = {"bin": "recipetree", "int": "recipetree_integer"}
RANGES = [(1, 40), (-30, -1)]


def configs(tier):
    big = tier == "thorough"
    for kind in ("bin", "int"):
        for real, tree, sizes, values, nums, it in [
                (False, "pair", [1, 1], [1, 1], [2], 1), (False, "fork", [1, 1, 1], [1, 1, 1], [1], 1), (False, "pair", [1, 1], [2, 1], [1], 2), (False, "pair", [1, 2], [2, 1], [1, 2], 1),
                (True, "pair", [1, 1], [1, 1], [1], 1), (True, "pair", [1, 2], [2, 1], [1], 1), (True, "fork", [2, 1, 1], [2, 1, 1], [1], 1), (True, "chain3", [1, 1, 1], [2, 1, 1], [1], 1), (True, "fork", [1, .5, .5], [1.5, 1, 1], [2], 1)] + ([
                (False, "mixed", [1, 1, 1, 1], [1, 1, 1, 1], [1], 2), (False, "pair", [1, 1], [1, 1], [1, 2, 3], 1), (True, "pair", [1, 1], [1, 1], [2], 1), (True, "pair", [1, 1], [1, 1], [1, 2], 1), (True, "mixed", [1, 1, 1, 1], [2, 2, 1, 1], [1], 1), (True, "mixed", [1, .5, .5, .5], [2, 2, 1, 1], [2], 1), (True, "pair", [1, 1], [1, 1], [1], 2)] if big else []):
            yield dict(kind=kind, data="random", real=real, tree=tree, counts=sizes, values=values, agents=nums, iterations=it, weight=sum(sizes) * max(nums) * it * (5 if real else 1))
        # stocks: per stock the sizes of its categories
        for real, tree, stocks, counts, nums, it in [
                (False, "pair", [[2, 2]], [1, 1], [1], 1), (False, "pair", [[1, 1]], [1, 1], [1], 2), (False, "pair", [[1, 1], [1, 1]], [1, 1], [1], 1), (False, "fork", [[2, 1, 1]], [1, .5, .5], [2], 1), (False, "pair", [[2, 2]], [1, 1], [1, 2], 1),
                (False, "pair", [[2, 2]], [1, 1], [5], 1), (True, "pair", [[2, 2]], [1, 1], [1], 1), (True, "pair", [[2, 2]], [1, 1], [2], 1), (True, "fork", [[2, 1, 1]], [1, .5, .5], [2], 1), (True, "pair", [[2, 1]], [1, 1], [3], 1)] + ([
                (False, "pair", [[1, 1], [1, 1]], [1, 1], [1], 2), (False, "pair", [[1, 1], [2, 1], [1, 2]], [1, 1], [1], 1), (True, "pair", [[2, 3]], [1, 1], [2], 1), (True, "pair", [[2, 2]], [1, 1], [1, 2], 1), (True, "mixed", [[2, 1, 1, 1]], [1, .5, .5, .5], [2], 1)] if big else []):
            yield dict(kind=kind, data="stock", real=real, tree=tree, counts=counts, stocks=stocks, agents=nums, iterations=it, weight=sum(map(sum, stocks)) * it * (5 if real else 1))
        # prices and numbers that are not given
        for tree, stocks, counts, nums, it in [("pair", [[2, 2]], [1, 1], None, 1), ("pair", [[1, 2], [2, 1]], [1, 1], None, 1), ("fork", [[2, 1, 1]], [1, .5, .5], None, 2), ("pair", [[1, 2]], [1, 2], [1], 1)]:
            for asked in (True, False) if tree == "fork" else (True,):
                yield dict(kind=kind, data="stock", real=False, tree=tree, counts=counts, stocks=stocks, agents=nums, iterations=it, asked=asked, weight=sum(map(sum, stocks)) * it)


def run(ctx, cfg):
    kind, data, real, iterations, agents = cfg["kind"], cfg["data"], cfg["real"], cfg["iterations"], cfg["agents"]
    struct, n_cat = SHAPES[cfg["tree"]]
    draws = Draws(ctx, fixed=not real)
    draws.in_order = "asked" in cfg
    stock_data = types.ModuleType("get_stocks_data")
    wanted = []

    def prices_of_stocks(*a):
        if not cfg.get("asked"):
            ctx.fail("the prices that were given are used")
        wanted.append(a)
        return prices, names
    stock_data.getStocksTreePrices = prices_of_stocks
    ctx.override(dict(table_modules(), random=draws.module(), get_stocks_data=stock_data))
    runs, optima = [], []

    class Result:
        def __init__(self, deals, gain):
            self.deals, self.gain = deals, gain

        def num_of_deals(self):
            return self.deals

        def gain_from_trade(self, including_auctioneer=True):
            return self.gain

    def watch(lib):
        """Record (and without real auctions: replace) the auction and the optimal trade of one of the two libraries."""
        protocol, trees = ctx.load(PROTOCOLS[lib]), ctx.load(TREES[lib])
        real_auction, Tree = protocol.budget_balanced_ascending_auction, trees.RecipeTree

        def auction(market, recipe, *counts):
            i = len(runs)
            r = real_auction(market, recipe, *counts) if real else Result(ctx.choose("deals%d" % i, 0, 2) if "asked" not in cfg else (i + 1) % 3, ctx.real("gain%d" % i, -1000, 1000))
            runs.append(([list(c.values) for c in market.categories], recipe, list(counts), r))
            return r

        class Watched(Tree):
            def __init__(self, categories, recipe, *counts):
                self.given = ([list(c.values) for c in categories], recipe, list(counts))
                super().__init__(categories, recipe, *counts)

            def optimal_trade_with_counters(self):
                i = len(optima)
                if real:
                    r = super().optimal_trade_with_counters()
                else:
                    k = ctx.choose("opt%d" % i, 0, 2) if "asked" not in cfg else 2
                    r = ([], k, ctx.real("optgain%d" % i, 0, 1000) if k else 0, ctx.choose("kmin%d" % i, 1, k) if k else 0, k)
                optima.append(self.given + (r,))
                return r
        if not real:
            trees.RecipeTree = Watched
        else:
            # nested trees are built by the class itself: only watch the call
            inner = Tree.optimal_trade_with_counters
            init = Tree.__init__

            def remember(self, categories, recipe, *counts):
                self.given = (categories, recipe, list(counts))
                init(self, categories, recipe, *counts)

            def watched(self):
                r = inner(self)
                optima.append(([list(c.values) for c in self.given[0]],) + self.given[1:] + (r,))
                return r
            Tree.__init__, Tree.optimal_trade_with_counters = remember, watched
        protocol.budget_balanced_ascending_auction = auction
    watch("bin")
    watch("int")
    exp = ctx.load(MODULES[kind, data])
    ctx.cover(data)
    ctx.cover("real auctions" if real else "arbitrary results")
    if data == "random":
        units = [2] + [1] * (n_cat - 1) if kind == "int" and cfg["counts"][0] == 2 else [1] * n_cat
        exp.experiment("some.csv", struct, list(RANGES), list(agents), iterations, list(cfg["counts"]), list(cfg["values"]), *([list(units)] if kind == "int" else []))
        jobs = [(n, None) for n in agents for _ in range(iterations)]
    else:
        units = [1] * n_cat
        prices = [[[ctx.real("p%d_%d_%d" % (s, i, j), -1000, 1000) for j in range(m)] for i, m in enumerate(sizes)] for s, sizes in enumerate(cfg["stocks"])]
        original = [[list(c) for c in stock] for stock in prices]
        names = ["stock%d" % i for i in range(len(prices))]
        values = list(range(1, n_cat + 1))
        exp.experiment("some.csv", struct, list(cfg["counts"]), values, list(agents) if agents else None, iterations, *([] if cfg.get("asked") else [prices, names]))
        if cfg.get("asked"):
            ctx.check(wanted == [(struct, cfg["counts"], values)], "the prices for the tree, the numbers and the units are asked for, once")
        agents = agents or [10 ** 7]
        jobs = [(n, s) for s in range(len(prices)) for _ in range(iterations) for n in agents]
    ctx.check(len(Table.made) == 1 and Table.made[0].finished and Table.made[0].filename == "some.csv", "one table is written to the given file")
    rows = Table.made[0].rows
    fits = len(rows) == len(agents) and len(runs) == len(optima) == len(jobs)
    ctx.check(fits, "one row for each number of agents; auction and optimal trade run once per iteration (and stock)")
    if not fits:
        return
    for (vals, recipe, counts, r), (vals2, recipe2, counts2, o), (n, stock) in zip(runs, optima, jobs):
        ctx.check(recipe == recipe2 == struct and counts == counts2 and counts in ([], [[1] * n_cat]) + (([units],) if kind == "int" else ()), "auction and optimal trade get the asked recipe tree")
        ctx.check(len(vals) == len(vals2) == n_cat and all(len(x) == len(y) for x, y in zip(vals, vals2)) and ctx.And(*[ctx.all_eq(x, y) for x, y in zip(vals, vals2)]), "auction and optimal trade get the same traders")
        if stock is None:
            ctx.check([len(v) for v in vals] == [int(n * c) for c in cfg["counts"]], "the market has the asked number of agents of each category")
            for i, v in enumerate(vals):
                lo, hi = [x * Fraction(cfg["values"][i]) for x in RANGES[min(i, 1)]]
                ctx.check(ctx.And(*[ctx.And(ctx.ge(x, lo - Fraction(1, 2)), ctx.le(x, hi + Fraction(1, 2))) for x in v]), "the traders' values are in the asked range (rounded)")
        else:
            all_of_it = n > len(original[stock][0])
            ctx.check([len(v) for v in vals] == [len(p) if all_of_it else int(n * c) for p, c in zip(original[stock], cfg["counts"])], "the market has the asked number of agents of each category, or all there are")
            for v, p in zip(vals, original[stock]):
                p = sorted(p, reverse=True)
                if len(v) == len(p):
                    ctx.check(ctx.all_eq(v, p), "the traders have the prices of their stock")
                else:
                    # a part of the prices: no value more often than in the list
                    for x in v:
                        ctx.check(ctx.Or(*[ctx.eq(x, y) for y in p]), "the traders have prices of their stock")
    for a, (n, row) in enumerate(zip(agents, rows)):
        mine = [x for x in range(len(jobs)) if jobs[x][0] == n]
        it = Fraction(len(mine))
        res, opt = [runs[x][3] for x in mine], [optima[x][3] for x in mine]
        deals, gains = [r.num_of_deals() for r in res], [r.gain_from_trade() for r in res]
        K, G, kmin, kmax = sum(o[1] for o in opt), sum((o[2] for o in opt), 0), sum(o[3] for o in opt), sum(o[4] for o in opt)
        ctx.cover("optimal deals" if K else "no optimal deal")
        ctx.check(set(row) == set(Table.made[0].columns), "the row has the columns of the table")
        near = lambda column, x, what: ctx.check(close(ctx, row[column], x, 4), what)
        if data == "random":
            ctx.check(row["iterations"] == iterations and row["numofagents"] == n, "the row names its experiment")
            near("meanoptimalcount", K / it, "mean number of optimal deals")
            near("meanoptimalkmin", kmin / it, "mean smallest number of deals of a recipe")
            near("meanoptimalkmax", kmax / it, "mean largest number of deals of a recipe")
            near("gftformula", max(0, (kmin / it - 1) / (kmin / it + 1) * 100), "guaranteed part of the gain")
            near("meanauctioncount", sum(deals) / it, "mean number of deals")
            near("countratio", Fraction(100 * sum(deals), K) if K else 0, "ratio of deals in percent")
            near("meanoptimalgft", G * (1 / it), "mean optimal gain")
            near("meanauctiontotalgft", sum(gains, 0) * (1 / it), "mean gain")
            if G == 0:
                near("totalgftratio", 0, "without an optimal gain the ratio of gains is 0")
            else:
                near("totalgftratio", 100 * (sum(gains, 0) / G), "ratio of gains in percent")
        else:
            ctx.check(row["numpossibletrades"] == min(n, len(original[jobs[mine[0]][1]][0])), "the row names its number of agents")
            near("optimalcount", K / it, "mean number of optimal deals")
            near("optimalkmin", kmin / it, "mean smallest number of deals of a recipe")
            near("optimalkmax", kmax / it, "mean largest number of deals of a recipe")
            near("gftformula", (1 - 1 / (kmin / it)) * 100 if kmin > it else 0, "guaranteed part of the gain")
            near("optimalgft", G * (1 / it), "mean optimal gain")
            near("auctioncount", sum(deals) / it, "mean number of deals")
            near("countratio", sum((Fraction(100 * d, o[1]) for d, o in zip(deals, opt) if o[1]), 0) / it, "mean ratio of deals in percent")
            near("gft", sum(gains, 0) * (1 / it), "mean gain")
            ratio = 0
            for g, o in zip(gains, opt):
                if not (o[2] == 0):
                    ratio = ratio + 100 * (g / o[2])
            near("gftratio", ratio * (1 / it), "mean ratio of gains in percent")
