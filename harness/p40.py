"""Tracing changes nothing."""
import logging

from .trees import *
from .trees import auction as tree_auction

BOUNDS = "all mechanisms, the optimal trades and the recipe-tree auctions, with the loggers of the code at level DEBUG, INFO and WARNING; names that look like formats where `names` is odd; recipes, sizes and trees as listed; " + VALUES
COVER = ["asc", "ext", "ext0", "mcafee", "mcafee0", "opt", "bin", "int", "traced", "deals", "no deals"]


def configs(tier):
    for i, c in enumerate(all_configs(tier)):
        yield dict(c, names="odd") if i % 2 else c


def all_configs(tier):
    big = tier == "thorough"
    single = [("asc", [1, 1], [3, 3]), ("asc", [1, 2], [2, 3]), ("asc", [1, 0, 1], [2, 1, 2]), ("asc", [1, 1], [0, 2]), ("asc", [1, 1, 1], [2, 2, 2]), ("ext", [1, 1], [3, 2]), ("ext", [2, 1], [3, 2]), ("ext", [1, 1, 1], [2, 2, 1]), ("ext", [1, 1], [0, 2]), ("ext0", [1, 1], [2, 2]),
              ("mcafee", [1, 1], [3, 3]), ("mcafee", [1, 1], [2, 0]), ("mcafee", [1, 1, 1], [2, 2, 2]), ("mcafee0", [1, 1, 1], [2, 1, 2]), ("mcafee0", [1, 1], [3, 3]), ("opt", [1, 2], [2, 4])]
    if big:
        single += [("asc", [1, 1], [6, 6]), ("asc", [2, 3], [5, 7]), ("asc", [1, 1, 1], [3, 3, 3]), ("ext", [1, 1], [4, 4]), ("ext", [1, 2], [2, 4]), ("mcafee", [1, 1], [5, 5])]
    for mech, recipe, sizes in single:
        yield dict(mech=mech, recipe=recipe, sizes=sizes, weight=sum(sizes))
    for c in tree_configs(tier):
        if sum(c["sizes"]) <= (8 if not big else 10):
            yield dict(c, mech=c["kind"])
    for c in every_shape(tier, plan=((4, 1), (5, 1)), units=(4,)):
        yield dict(c, mech=c["kind"])


class Trace(logging.Handler):
    """Formats every message, like a handler that prints it would."""

    def __init__(self, bad):
        super().__init__(logging.DEBUG)
        self.count, self.bad = 0, bad

    def emit(self, record):
        self.count += 1
        args = record.args
        try:
            if isinstance(args, tuple):
                # %d and %f need a number at hand
                record.args = tuple(1.5 if type(a).__name__ == "Sym" else a for a in args)
            record.getMessage()
        except (TypeError, ValueError, KeyError, IndexError) as e:
            self.bad.append("%s: %s" % (record.msg, e))


def run(ctx, cfg):
    vals = supply(ctx, cfg["sizes"])
    root, bad = logging.getLogger(), []
    names = ["ascending_auction_protocol", "trade_reduction_protocol", "mcafee_protocol", "prices", "prices_integer", "recipetree", "recipetree_integer",
             "ascending_auction_recipetree_protocol", "ascending_auction_recipetree_integer_protocol", "markets", "agents", "trade"]
    outcomes = []
    for level in (logging.DEBUG, logging.INFO, logging.WARNING):
        m = market(ctx, vals)
        if cfg["mech"] in ("bin", "int"):
            f = lambda: tree_auction(ctx, cfg, m)
            ctx.load({"bin": names[-5], "int": names[-4]}[cfg["mech"]])
        elif cfg["mech"] == "opt":
            f = lambda: m.optimal_trade(cfg["recipe"])[0]
        else:
            g = mechanism(ctx, cfg["mech"])
            f = lambda: g(m, cfg["recipe"])
        trace, loggers = Trace(bad), [logging.getLogger(n) for n in names]
        old = [(lg, lg.level, list(lg.handlers), lg.propagate) for lg in loggers]
        try:
            for lg in loggers:
                lg.handlers[:], lg.propagate = [trace], False
                lg.setLevel(level)
            t = f()
        finally:
            for lg, lv, hs, pr in old:
                lg.setLevel(lv)
                lg.handlers[:], lg.propagate = hs, pr
        if level == logging.DEBUG and trace.count:
            ctx.cover("traced")
        outcomes.append(t)
        ctx.check(ctx.And(*[ctx.all_eq(c.values, v) for c, v in zip(m.categories, vals)]), "tracing leaves the market as it is")
    *traced, b = outcomes
    ctx.cover(cfg["mech"])
    ctx.check(not bad, "every trace message can be printed")
    k = b.num_of_deals()
    ctx.observe("deals", [a.num_of_deals() for a in outcomes])
    ctx.cover("deals" if k else "no deals")
    for a in traced:
        ctx.check(k == a.num_of_deals() and ctx.eq(a.gain_from_trade(), b.gain_from_trade()), "the same deals and gain with and without tracing")
        if cfg["mech"] == "opt":
            ctx.check(ctx.And(*[ctx.all_eq(x, y) for x, y in zip(a.procurement_sets, b.procurement_sets)]), "the same deals with and without tracing")
            continue
        ctx.check(ctx.And(*[ctx.all_eq(x, y) for x, y in zip(cat_values(a), cat_values(b))]), "the same traders with and without tracing")
        if k:
            ctx.check(ctx.all_eq(list(a.prices), list(b.prices)), "the same prices with and without tracing")
