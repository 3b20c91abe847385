"""The comparison of both strongly-budget-balanced mechanisms counts wins and ties right."""
from .experiments import *

BOUNDS = ("the comparison experiment with arbitrary results of both mechanisms (any gains, any numbers of deals) on arbitrary random markets (with more than one iteration: on one market only), in a second set of runs with the real mechanisms; recipes, numbers of agents (at most 4 of them) and iterations (at most 3) as listed; table library and random numbers are replaced by recording stand-ins; "
          "percentages may be rounded or cut to whole numbers")
COVER = ["external wins", "tie", "ascending wins", "real mechanisms"]


def configs(tier):
    big = tier == "thorough"
    for recipes, agents, it in [([[1, 1]], [1], 1), ([[1, 1]], [1, 1, 1], 1), ([[1, 2]], [1, 1], 1), ([[1, 1], [2, 1]], [1], 1), ([[1, 1]], [1], 2), ([[1, 1]], [1], 3), ([[1, 1]], [2, 1], 1), ([[1, 1]], [1, 2, 3, 4], 1), ([[1, 2], [3, 1]], [1], 1), ([[1, 1, 1]], [2], 1), ([[1, 1, 1], [1, 1]], [1], 1), ([[1, 2, 1, 1]], [1, 1], 1), ([[2, 3]], [1], 1), ([[3, 1, 2]], [1, 2], 1), ([[1, 1], [1, 1]], [1], 1), ([[2, 1]], [1], 2), ([[1, 1], [1, 2], [1, 1, 1]], [1], 1)] + \
            ([([[1, 1]], [1, 2], 2), ([[1, 1]], [1], 4), ([[1, 2], [2, 1]], [1, 2], 1), ([[1, 1]], [1] * 6, 1)] if big else []):
        yield dict(recipes=recipes, agents=agents, iterations=it, real=False, weight=len(agents) * it * len(recipes))
    for recipes, agents, it in [([[1, 1]], [2], 1), ([[1, 1]], [1, 2], 1), ([[1, 2]], [2], 1), ([[1, 1]], [3], 1), ([[2, 1]], [2], 1), ([[1, 1, 1]], [1], 1), ([[1, 1], [1, 2]], [1], 1), ([[2, 2]], [1], 1), ([[1, 1]], [1], 2), ([[1, 3]], [1], 1)] + ([([[2, 2]], [2], 1), ([[1, 1, 1]], [2], 1), ([[1, 1]], [2], 2)] if big else []):
        yield dict(recipes=recipes, agents=agents, iterations=it, real=True, weight=9)


def run(ctx, cfg):
    iterations, agents = cfg["iterations"], cfg["agents"]
    recipes = [tuple(r) for r in cfg["recipes"]]
    draws = Draws(ctx, fixed=not cfg["real"] and len(agents) * iterations * len(recipes) > 1)
    modules = dict(table_modules(), random=draws.module())
    calls = {"ext": [], "asc": []}

    class Result:
        def __init__(self, deals, gain):
            self.deals, self.gain = deals, gain

        def num_of_deals(self):
            return self.deals

        def gain_from_trade(self, including_auctioneer=True):
            return self.gain

    def stand_in(who):
        def auction(market, recipe):
            n = len(calls[who])
            r = Result(ctx.int("deals_%s%d" % (who, n), 0, 1000), ctx.real("gain_%s%d" % (who, n), -1000, 1000))
            calls[who].append(([list(c.values) for c in market.categories], tuple(recipe), r))
            return r
        return auction

    def wrapped(who, f):
        def auction(market, recipe):
            r = f(market, recipe)
            calls[who].append(([list(c.values) for c in market.categories], tuple(recipe), r))
            return r
        return auction
    ctx.override(modules)
    ext, asc = ctx.load("trade_reduction_protocol"), ctx.load("ascending_auction_protocol")
    if cfg["real"]:
        ctx.cover("real mechanisms")
    # the experiment finds these in place of the mechanisms
    ext.budget_balanced_trade_reduction = wrapped("ext", ext.budget_balanced_trade_reduction) if cfg["real"] else stand_in("ext")
    asc.budget_balanced_ascending_auction = wrapped("asc", asc.budget_balanced_ascending_auction) if cfg["real"] else stand_in("asc")
    exp = ctx.load("experiment_comparing_sbb")
    ranges = [(1, 30)] + [(-20, -1)] * 3
    exp.experiment("some.csv", recipes, list(ranges), list(agents), iterations)
    ctx.check(len(Table.made) == 1 and Table.made[0].finished and Table.made[0].filename == "some.csv", "one table is written to the given file")
    rows, each = Table.made[0].rows, iterations * len(agents)
    fits = len(rows) == len(recipes) and all(len(calls[w]) == each * len(rows) for w in calls)
    ctx.check(fits, "one row for each recipe, and both mechanisms run in every iteration")
    if not fits:
        return
    whole = [(lo * s, hi * s) for r in recipes for (lo, hi), s in zip(ranges, [sum(r) - r[0]] + [r[0]] * (len(r) - 1))]
    for n, (recipe, row) in enumerate(zip(recipes, rows)):
        ctx.check(tuple(row["recipe"]) == recipe and set(row) == set(Table.made[0].columns), "the row names its recipe and has the columns of the table")
        wins = {"k": [0, 0, 0], "gft": [0, 0, 0]}
        for a, size in enumerate(agents):
            first = n * each + a * iterations
            ks, gains = {}, {}
            for who in calls:
                ks[who] = gains[who] = 0
                for vals, r, res in calls[who][first:first + iterations]:
                    ctx.check(r == recipe and [len(v) for v in vals] == [size * x for x in recipe], "the market has the asked number of agents of each category")
                    scale = [sum(recipe) - recipe[0]] + [recipe[0]] * (len(recipe) - 1)
                    ctx.check(all((min(r), max(r)) in whole for r in draws.asked), "values are drawn from the whole range")
                    for v, (lo, hi), s in zip(vals, ranges, scale):
                        ctx.check(ctx.And(*[ctx.And(ctx.ge(x, lo * s), ctx.le(x, hi * s)) for x in v]), "the traders' values are in the scaled range")
                    ks[who] += res.num_of_deals()
                    gains[who] = gains[who] + res.gain_from_trade()
            for e, b in zip(calls["ext"][first:first + iterations], calls["asc"][first:first + iterations]):
                ctx.check(all(len(x) == len(y) for x, y in zip(e[0], b[0])) and ctx.And(*[ctx.all_eq(x, y) for x, y in zip(e[0], b[0])]), "both mechanisms run on the same traders")
            wins["k"][0 if ks["ext"] > ks["asc"] else 1 if ks["ext"] == ks["asc"] else 2] += 1
            w = 0 if gains["ext"] > gains["asc"] else 1 if gains["ext"] == gains["asc"] else 2
            wins["gft"][w] += 1
            ctx.cover(["external wins", "tie", "ascending wins"][w])
        for j, who in enumerate(("external_wins", "tie", "ascending_wins")):
            for what in wins:
                share = Fraction(100 * wins[what][j], len(agents))
                ctx.check(abs(Fraction(row["%s_%s" % (who, what)]) - share) < 1, "share of %s in percent (%s)" % (who, what))
            ctx.check(row[who] == wins["gft"][j], "number of %s" % who)
