"""The table of an experiment says what the auctions did."""
from .experiments import *

BOUNDS = ("the experiment function with an arbitrary auction (up to two deals, any gains) on arbitrary random markets; recipes, numbers of agents (at most 3 per recipe entry) and iterations (at most 3) as listed, values of all categories in one range or in the ranges of the script; the random numbers are "
          "arbitrary within the range the code asks for; table library and random numbers are replaced by recording stand-ins; a number in the table may differ by 0.01 from the exact one (it is rounded or cut)")
COVER = ["no optimal deal", "optimal deals"]


def configs(tier):
    usual, high, mixed = None, (200, 300), (-20, 40)      # as in the script; or all categories in one range
    quick = [((1, 1), (1,), 1), ((1, 1), (2,), 1), ((1, 1), (3,), 1), ((1, 1), (1, 2), 1), ((1, 1), (2, 1), 1), ((1, 1), (1, 1, 1), 1), ((1, 1), (1,), 2), ((1, 1), (1,), 3), ((1, 1), (2,), 2), 
             ((1, 2), (1,), 1), ((1, 2), (1,), 2), ((1, 2), (2,), 1), ((1, 1, 1), (1,), 1), ((1, 1, 1), (2,), 1), ((1, 1, 1), (1,), 2), ((2, 1), (1, 1), 1), ((2, 1), (2,), 1), ((2, 2), (1,), 1), ((2, 3), (1,), 1), ((1, 3), (1,), 1),
             ((3, 1), (1,), 2), ((1, 1, 1, 1), (1,), 1), ((1, 2, 1), (1,), 1), ((2, 1, 3), (1,), 1), ((1, 0, 1), (1,), 1), ((1, 0, 2), (1,), 2), ((2,), (1,), 1), ((1,), (2,), 2)]
    more = [((1, 1), (1, 2), 2), ((1, 1), (4,), 1), ((1, 1), (3,), 2), ((2, 3), (2,), 1), ((1, 1), (2,), 3), ((1, 2), (3,), 1), ((1, 1, 1), (2,), 2), ((1, 1, 1, 1), (2,), 1)]
    for recipe, n, it in quick + (more if tier == "thorough" else []):
        for together in (usual, mixed, high):
            if together is usual or sum(recipe) * sum(n) * it <= 4:
                yield dict(recipe=list(recipe), agents=list(n), iterations=it, together=together, weight=sum(recipe) * sum(n) * it)


def run(ctx, cfg):
    recipe, iterations = tuple(cfg["recipe"]), cfg["iterations"]
    draws = Draws(ctx)
    ctx.override(dict(table_modules(), random=draws.module()))
    exp = ctx.load("experiment")
    ranges = [tuple(cfg["together"])] * len(recipe) if cfg["together"] else [(1, 40)] + [(-20 * i, -1) for i in range(1, len(recipe))]
    calls = []

    class Result:
        def __init__(self, deals, total, kept):
            self.deals, self.total, self.kept = deals, total, kept

        def num_of_deals(self):
            return self.deals

        def gain_from_trade(self, including_auctioneer=True):
            return self.total if including_auctioneer else self.kept

    def auction(market, r):
        i = len(calls)
        res = Result(ctx.choose("deals%d" % i, 0, 2) if cfg["weight"] <= 4 else 2 - i % 3, ctx.real("total%d" % i, -1000, 1000), ctx.real("kept%d" % i, -1000, 1000))
        calls.append(([list(c.values) for c in market.categories], tuple(r), res))
        return res
    exp.experiment("some.csv", auction, "Some Auction", recipe, list(ranges), list(cfg["agents"]), iterations)
    ctx.check(len(Table.made) == 1 and Table.made[0].finished and Table.made[0].filename == "some.csv", "one table is written to the given file")
    rows = Table.made[0].rows
    ctx.check(len(rows) == len(cfg["agents"]) and len(calls) == iterations * len(rows), "one row for each number of agents, and the auction runs once per iteration")
    if len(rows) != len(cfg["agents"]) or len(calls) != iterations * len(rows):
        return
    traders = sum(len(v) for vals, _, _ in calls for v in vals)
    ctx.check(draws.count >= traders, "every market is drawn anew")
    ctx.check(all((min(r), max(r)) in ranges for r in draws.asked), "values are drawn from the whole range")
    for n, row in enumerate(rows):
        mine = calls[n * iterations:(n + 1) * iterations]
        ctx.check(row["iterations"] == iterations and row["auction_name"] == "Some Auction" and row["num_of_agents"] == cfg["agents"][n] and row["recipe"] == ":".join(map(str, recipe)), "the row names its experiment")
        ctx.check(set(row) == set(Table.made[0].columns), "the row has the columns of the table")
        opt_k = opt_gain = k = total = kept = 0
        for vals, r, res in mine:
            ctx.check(r == recipe and [len(v) for v in vals] == [cfg["agents"][n] * x for x in recipe], "the market has the asked number of agents of each category")
            for v, (lo, hi) in zip(vals, ranges):
                ctx.check(ctx.And(*[ctx.And(ctx.ge(x, lo), ctx.le(x, hi)) for x in v]), "the traders' values are in the asked range")
            a, b = best(ctx, vals, recipe)
            opt_k, opt_gain, k, total, kept = opt_k + a, opt_gain + b, k + res.deals, total + res.total, kept + res.kept
        it = Fraction(iterations)
        ctx.check(close(ctx, row["mean_optimal_count"], opt_k / it), "mean number of optimal deals")
        ctx.check(close(ctx, row["mean_auction_count"], k / it), "mean number of deals")
        ctx.check(close(ctx, row["mean_optimal_gft"] * 1, opt_gain * (1 / it)), "mean optimal gain")
        ctx.check(close(ctx, row["mean_auction_total_gft"], total * (1 / it)), "mean gain")
        ctx.check(close(ctx, row["mean_auction_market_gft"], kept * (1 / it)), "mean gain of the traders")
        if opt_k == 0:
            ctx.cover("no optimal deal")
            ctx.check(row["count_ratio"] == 0, "without optimal deals the ratio of deals is 0")
        else:
            ctx.cover("optimal deals")
            ctx.check(close(ctx, row["count_ratio"], Fraction(100 * k, opt_k)), "ratio of deals in percent")
        zero = opt_gain == 0
        for column, gain in (("total_gft_ratio", total), ("market_gft_ratio", kept)):
            if zero:
                ctx.check(ctx.eq(row[column], 0), "without an optimal gain the ratio of gains is 0")
            else:
                # shown/100*opt = gain up to 0.01 percent points
                ctx.check(close(ctx, row[column], 100 * (gain / opt_gain)), "ratio of gains in percent")
