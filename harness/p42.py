"""The tables of the stock experiments of single-recipe mechanisms say what the mechanisms did."""
from .experiments import *

BOUNDS = ("the three stock experiments (one mechanism on whole stocks, several mechanisms on growing parts of stocks, several mechanisms on a pool of prices) with arbitrary mechanisms (0-2 deals, any gains) on arbitrary prices; recipes, numbers of prices and "
          "of agents, stocks and iterations as listed; in the pool prices are arbitrary integers, enough of them for every asked number of agents in the first stocks; the table library is replaced by a recorder; numbers in the table may differ from the exact ones by the last displayed digit")
COVER = ["one", "parts", "pool", "no optimal deal", "optimal deals", "zero deals", "not enough prices"]
MODULES = {"one": "stock.experiment_stock", "parts": "stock.experiment_compare_iterations_autions_without_mcafee", "pool": "stock.experiment_compare_sbb_shufled_stock"}


def configs(tier):
    big = tier == "thorough"
    for recipe, stocks in [((1, 1), [[1, 1]]), ((1, 1), [[2, 2]]), ((1, 1), [[2, 1], [1, 2]]), ((1, 2), [[1, 3]]), ((2, 1), [[4, 2]]), ((1, 1, 1), [[1, 2, 1]]), ((1, 1), [[0, 2]]), ((1, 1), [[3, 3]])] + \
            ([((2, 3), [[4, 6]]), ((1, 1), [[1, 1], [2, 2], [1, 1]])] if big else []):
        yield dict(kind="one", recipe=list(recipe), stocks=stocks, weight=sum(map(sum, stocks)))
    for recipe, stocks in [((1, 1), [[9, 9]]), ((1, 2), [[6, 11]])]:
        for values in ("even", "levels"):
            yield dict(kind="one", recipe=list(recipe), stocks=stocks, values=values, weight=9)
            yield dict(kind="parts", recipe=list(recipe), stocks=stocks, agents=[4, 6], values=values, mechanisms=1, weight=19)
    for recipe, stocks, agents, names in [((1, 1), [[2, 2]], [1, 2], 1), ((1, 1), [[3, 3]], [3], 1), ((1, 1), [[2, 2]], [1, 3, 4], 1), ((1, 1), [[1, 1]], [1], 2), ((1, 2), [[2, 4]], [1, 2], 1), ((1, 1), [[1, 1], [2, 2]], [1], 1), ((1, 1), [[1, 2]], None, 1), ((1, 1, 1), [[1, 1, 1]], [1], 2), ((1, 1), [[2, 2]], [3], 1)] + \
            ([((1, 1), [[3, 3]], [1, 2, 3], 2), ((1, 2), [[3, 6]], [3], 2), ((1, 1), [[1, 1], [2, 2], [3, 3]], [1, 2], 1)] if big else []):
        yield dict(kind="parts", recipe=list(recipe), stocks=stocks, agents=agents, mechanisms=names, weight=sum(map(sum, stocks)) * names)
    for recipe, stocks, agents, iterations, names in [((1, 1), [4], [1, 2], 1, 1), ((1, 1), [2], [1], 2, 1), ((1, 2), [3], [1], 1, 2), ((2, 1), [3], [1], 1, 1), ((1, 1), [2, 3], [1], 1, 1), ((1, 1), [2], [1, 2], 1, 1), ((1, 1, 1), [3], [1], 1, 1), ((1, 1), [3], None, 1, 1)] + \
            ([((1, 1), [6], [1, 3], 1, 2), ((1, 2), [6], [2], 1, 1), ((2, 2), [4], [1], 1, 1), ((1, 1), [2, 2], [1], 2, 1)] if big else []):
        yield dict(kind="pool", recipe=list(recipe), stocks=stocks, agents=agents, iterations=iterations, mechanisms=names, weight=sum(stocks) * iterations * names * 2)
    # prices that are not given
    for kind, stocks in (("one", [[1, 2], [2, 1]]), ("parts", [[1, 2], [2, 1]]), ("pool", [2, 2]), ("pool", [3])):
        yield dict(kind=kind, recipe=[1, 1], stocks=stocks, agents=[1], iterations=1, mechanisms=1, asked=True, weight=5)
    # names of mechanisms
    for titles in (["A", "mcafee"], ["mcafee"], ["mcafee", "A"], ["McAfee", "SBBratio"], ["count", "ratio"], ["SBB %d {}", "Average"], ["a", "ab", "b"]):
        for kind in ("parts", "pool"):
            yield dict(kind=kind, recipe=[1, 1], stocks=[[1, 1]] if kind == "parts" else [2], agents=[1], iterations=1, mechanisms=len(titles), titles=titles, weight=5)


class Mechanisms:
    """Arbitrary mechanisms: each call has an arbitrary number of deals, total gain and gain of the traders."""

    def __init__(self, ctx):
        self.ctx, self.calls = ctx, []

    def make(self, name):
        ctx, calls = self.ctx, self.calls

        class Result:
            def num_of_deals(self):
                return self.deals

            def gain_from_trade(self, including_auctioneer=True):
                return self.total if including_auctioneer else self.kept

        def auction(market, recipe):
            i, r = len(calls), Result()
            r.deals, r.total, r.kept = 1 + i % 2 if ctx.cfg.get("titles") else ctx.choose("deals%d" % i, 0, 2), ctx.real("total%d" % i, -1000, 1000), ctx.real("kept%d" % i, -1000, 1000)
            calls.append((name, [list(c.values) for c in market.categories], list(recipe), r))
            return r
        return auction


def optimum(ctx, vals, recipe):
    """(deals that gain, deals that do not lose, gain) of the optimal trade."""
    vals = [sorted(vs, reverse=True) for vs in vals]
    gaining, deals, gain = 0, 0, 0
    for j in range(max_deals([len(v) for v in vals], recipe)):
        d = deal(vals, recipe, j)
        if d < 0:
            break
        deals += 1
        if d > 0:
            gaining, gain = gaining + 1, gain + d
    ctx.cover("optimal deals" if deals else "no optimal deal")
    if deals > gaining:
        ctx.cover("zero deals")
    return gaining, deals, gain


def run(ctx, cfg):
    kind, recipe = cfg["kind"], cfg["recipe"]
    ctx.cover(kind)
    data = types.ModuleType("get_stocks_data")
    given, names = [], ["stock%d" % i for i in range(len(cfg["stocks"]))]
    wanted = []

    def get(*a):
        if not cfg.get("asked"):
            ctx.fail("the prices that were given are used")
        wanted.append(a)
        return prices, names
    data.getStocksPrices = data.getStocksPricesShuffled = get
    ctx.override(dict(table_modules(), get_stocks_data=data))
    exp = ctx.load(MODULES[kind])
    mech = Mechanisms(ctx)
    for s, sizes in enumerate(cfg["stocks"]):
        given.append([ctx.int("p%d_%d" % (s, j), 1, 1000) for j in range(sizes)] if kind == "pool" else [few_parameters(ctx, cfg["values"], n, "p%d_%d_" % (s, i), 1000)[::-1] for i, n in enumerate(sizes)] if cfg.get("values") else [[ctx.real("p%d_%d_%d" % (s, i, j), -1000, 1000) for j in range(n)] for i, n in enumerate(sizes)])
    prices = [list(s) if kind == "pool" else [list(c) for c in s] for s in given]
    given_prices = [] if cfg.get("asked") else [prices, names]
    if kind == "one":
        exp.experiment("some.csv", mech.make("A"), "A", tuple(recipe), *given_prices)
    else:
        mechanisms = cfg.get("titles") or ["A", "B"][:cfg["mechanisms"]]
        more = [cfg["iterations"]] if kind == "pool" else []
        exp.experiment("some.csv", [mech.make(m) for m in mechanisms], mechanisms, tuple(recipe), *more, list(cfg["agents"]) if cfg["agents"] else None, *given_prices)
    if cfg.get("asked"):
        ctx.check(wanted == [() if kind == "pool" else (tuple(recipe),)], "the prices for the recipe are asked for, once")
    ctx.check(len(Table.made) == 1 and Table.made[0].finished and Table.made[0].filename == "some.csv", "one table is written to the given file")
    table = Table.made[0]
    {"one": check_one, "parts": check_parts, "pool": check_pool}[kind](ctx, cfg, table, given, names, mech.calls)


def ratio(ctx, shown, gain, best_gain, what, places=3):
    if best_gain == 0:
        ctx.check(ctx.eq(shown, 0), what + " (0 without an optimal gain)")
    else:
        ctx.check(close(ctx, shown, 100 * (gain / best_gain), places), what)


def same_traders(ctx, vals, expected):
    return len(vals) == len(expected) and ctx.And(*[ctx.all_eq(v, sorted(e, reverse=True)) for v, e in zip(vals, expected)])


def check_one(ctx, cfg, table, given, names, calls):
    recipe = cfg["recipe"]
    ctx.check(len(table.rows) == len(given) == len(calls), "one row and one run for each stock")
    for row, prices, name, (_, vals, r, res) in zip(table.rows, given, names, calls):
        ctx.check(set(row) == set(table.columns), "the row has the columns of the table")
        ctx.check(r == recipe and same_traders(ctx, vals, prices), "the mechanism gets the traders of the stock and the recipe")
        ctx.check(row["stock_name"] == name and row["auction_name"] == "A" and row["recipe"] == ":".join(map(str, recipe)), "the row names its experiment")
        ctx.check(abs(row["num_possible_trades"] - Fraction(min(Fraction(len(p), n) for p, n in zip(prices, recipe)))) <= Fraction(1, 2), "the number of possible trades (rounded)")
        _, k, gain = optimum(ctx, prices, recipe)
        ctx.check(row["optimal_count"] == k and row["auction_count"] == res.deals, "numbers of deals")
        ctx.check(close(ctx, row["count_ratio"], Fraction(100 * res.deals, k) if k else 0, 3), "ratio of deals in percent")
        ctx.check(ctx.And(close(ctx, row["optimal_gft"], gain), close(ctx, row["auction_gft"], res.total), close(ctx, row["auction_market_gft"], res.kept)), "the gains")
        ratio(ctx, row["auction_gft_ratio"], res.total, gain, "ratio of gains in percent")
        ratio(ctx, row["market_gft_ratio"], res.kept, gain, "ratio of the traders' gain in percent")


def check_parts(ctx, cfg, table, given, names, calls):
    recipe, mechanisms = cfg["recipe"], cfg.get("titles") or ["A", "B"][:cfg["mechanisms"]]
    jobs = []
    for s, prices in enumerate(given):
        for n in cfg["agents"] or [10 ** 7]:
            jobs.append((s, n))
            if n > len(prices[0]):          # everything there is, once
                ctx.cover("not enough prices")
                break
    ctx.check(len(table.rows) == len(jobs) and len(calls) == len(jobs) * len(mechanisms), "one row for each stock and number of agents that it has, the last one with all that it has")
    if len(table.rows) != len(jobs) or len(calls) != len(jobs) * len(mechanisms):
        return
    for j, (row, (s, n)) in enumerate(zip(table.rows, jobs)):
        ctx.check(set(row) == set(table.columns), "the row has the columns of the table")
        expected = [p[:n * r] if n <= len(given[s][0]) else p for p, r in zip(given[s], recipe)]
        ctx.check(row["stock_name"] == names[s] and row["recipe"] == ":".join(map(str, recipe)) and row["num_possible_trades"] == min(n, len(given[s][0])), "the row names its experiment")
        gaining, k, gain = optimum(ctx, expected, recipe)
        ctx.check(row["optimal_count"] == gaining and row["optimal_count_with_gft_zero"] == k, "optimal numbers of deals")
        ctx.check(close(ctx, row["optimal_gft"], gain), "optimal gain")
        for (name, vals, r, res), m in zip(calls[j * len(mechanisms):], mechanisms):
            ctx.check(name == m and r == recipe and same_traders(ctx, vals, expected), "every mechanism gets the same traders and the recipe")
            ctx.check(row[m + "_auction_count"] == res.deals, "number of deals")
            ctx.check(close(ctx, row[m + "_count_ratio"], Fraction(100 * res.deals, k) if k else 0, 3), "ratio of deals in percent")
            ctx.check(close(ctx, row[m + "_gft"], res.kept), "gain of the traders")
            ratio(ctx, row[m + "_gft_ratio"], res.kept, gain, "ratio of gains in percent")


def check_pool(ctx, cfg, table, given, names, calls):
    recipe, mechanisms, iterations = cfg["recipe"], cfg.get("titles") or ["A", "B"][:cfg["mechanisms"]], cfg["iterations"]
    agents = cfg["agents"] or [10 ** 7]
    jobs = []
    for s, prices in enumerate(given):
        for i, n in enumerate(agents):
            enough = n * sum(recipe) <= len(prices)
            if not enough:
                ctx.cover("not enough prices")
            if enough or i == 0:
                jobs.append((s, n if enough else len(prices) // sum(recipe), n))
    rows = [r for r in table.rows if r["stockname"] != "Average"]
    average = [r for r in table.rows if r["stockname"] == "Average"]
    shown = [n for n in agents if any(x == n for _, _, x in jobs)]
    fits = len(rows) == len(jobs) and len(average) == len(shown) and len(calls) == len(jobs) * len(mechanisms) * iterations
    ctx.check(fits, "one row for each stock and number of agents that it has, one for their mean, and one run per iteration")
    if not fits:
        return
    means = {n: [] for n in shown}
    calls = iter(calls)
    for row, (s, n, asked) in zip(rows, jobs):
        ctx.check(set(row) == set(table.columns), "the row has the columns of the table")
        ctx.check(row["stockname"] == names[s] and row["recipe"] == ":".join(map(str, recipe)) and row["numpossibletrades"] == n, "the row names its experiment")
        expected, at = [], 0
        for i, r in enumerate(recipe):
            expected.append([p * (-recipe[0] if i else sum(recipe) - recipe[0]) for p in given[s][at:at + n * r]])
            at += n * r
        gaining, k, gain = optimum(ctx, expected, recipe)
        want = {"optimalcount": gaining, "optimalcountwithgftzero": k, "optimalgft": gain}
        got = {m: [] for m in mechanisms}
        for _ in range(iterations):
            for m in mechanisms:
                name, vals, r, res = next(calls)
                ctx.check(name == m and r == recipe and same_traders(ctx, vals, expected), "every mechanism gets the same traders, made of different prices, and the recipe")
                got[m].append(res)
        for m in mechanisms:
            deals, kept = Fraction(sum(r.deals for r in got[m]), iterations), sum((r.kept for r in got[m]), 0) * Fraction(1, iterations)
            want[m + "auctioncount"], want[m + "countratio"], want[m + "gft"] = deals, 100 * deals / k if k else 0, kept
            want[m + "gftratio"] = 0 if gain == 0 else 100 * (kept / gain)
        for column, x in want.items():
            ctx.check(close(ctx, row[column], x, 6), "%s of a stock" % (column if column[0] == "o" else column[1:]))
        means[asked].append(want)
    for row, n in zip(average, shown):
        ctx.check(row["recipe"] == ":".join(map(str, recipe)), "the row names its experiment")
        if len(means[n]) < len(given):
            continue          # the mean over stocks of which some are too small is not claimed
        for column in means[n][0]:
            mean = sum((w[column] for w in means[n]), 0) * Fraction(1, len(given))
            ctx.check(close(ctx, row[column], mean, 3 if "ratio" in column else 1), "mean %s" % (column if column[0] == "o" else column[1:]))
