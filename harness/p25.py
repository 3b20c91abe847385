"""Recipe-tree auctions are truthful: a misreport that wins at a good price changes nothing."""
from .trees import *

BOUNDS = ("binary and integer recipe-tree auctions; one trader of each category in turn misreports; `sizes` counts the other traders; tree shapes and units per deal as listed; " + VALUES)
COVER = ["lie: stays", "lie: leaves", "truth would stay too"]
LISTED = (5, 16)

_B = [("pair", [2, 2]), ("pair", [1, 3]), ("chain3", [1, 2, 1]), ("chain3", [2, 1, 2]), ("fork", [2, 1, 1]), ("fork", [1, 1, 1]), ("fork", [2, 2, 1]), ("fork", [3, 1, 1]), ("mixed", [2, 1, 1, 1]), ("mixed", [1, 1, 1, 1]), ("mixed", [2, 1, 1, 0]), ("late", [1, 1, 1, 1]), ("fork3", [2, 1, 1, 0])]
_I = [("pair", [3, 2], [2, 1]), ("pair", [2, 3], [1, 2]), ("chain3", [1, 3, 1], [1, 2, 1]), ("fork", [2, 3, 1], [1, 2, 1]), ("fork", [2, 1, 1], [2, 1, 1]), ("mixed", [1, 2, 1, 1], [1, 2, 1, 1]), ("mixed", [2, 1, 1, 1], [1, 1, 1, 2])]
_BBIG = [("pair", [4, 4]), ("chain3", [2, 2, 2]), ("fork", [3, 2, 2]), ("fork", [2, 3, 1]), ("mixed", [2, 2, 1, 1]), ("mixed", [2, 1, 2, 1]), ("mixed", [2, 1, 1, 2]), ("late", [2, 1, 1, 1]), ("fork3", [2, 1, 1, 1]), ("deep", [1, 1, 1, 1, 1])]
_IBIG = [("pair", [4, 4], [2, 2]), ("chain3", [2, 4, 2], [1, 2, 1]), ("fork", [2, 3, 2], [1, 2, 1]), ("fork", [2, 3, 4], [1, 2, 3]), ("fork", [4, 2, 1], [2, 1, 1]), ("mixed", [2, 3, 1, 2], [1, 2, 1, 2]), ("late", [1, 1, 3, 1], [1, 1, 2, 1])]


def configs(tier):
    big = tier == "thorough"
    for tree, sizes in _B + (_BBIG if big else []):
        for kind in ("bin", "int"):
            for who in range(len(sizes)):
                yield dict(kind=kind, tree=tree, sizes=sizes, who=who, weight=sum(sizes))
    for tree, sizes, counts in _I + (_IBIG if big else []):
        for who in range(len(sizes)):
            yield dict(kind="int", tree=tree, sizes=sizes, counts=counts, who=who, weight=sum(sizes) + 1)
    for tree, sizes, counts in [("pair", [6, 6], None), ("chain3", [4, 4, 4], None), ("fork", [3, 3, 3], None), ("pair", [7, 10], [2, 3])] + ([("pair", [10, 10], None), ("fork", [4, 3, 3], None), ("late", [3, 3, 3, 3], None), ("fork", [4, 7, 3], [1, 3, 1])] if big else []):
        for who in range(len(sizes)):
            yield dict(dict(kind="int" if counts else ("bin", "int")[who % 2], tree=tree, sizes=sizes, who=who, values="even" if tree == "fork" else ("levels", "even")[who % 2], weight=sum(sizes)), **(dict(counts=counts) if counts else {}))
    for c in every_shape(tier, plan=((4, 1), (5, 1))[:2 if big else 1], units=(4,)):
        if not big and "counts" in c:
            continue
        for who in range(len(c["sizes"])):
            yield dict(c, who=who)


def run(ctx, cfg):
    c = cfg["who"]
    vals = supply(ctx, cfg["sizes"])                # the other traders
    number = ctx.int if cfg.get("numbers") == "ints" else ctx.real
    truth, report = number("truth", -LIM, LIM), number("report", -LIM, LIM)

    def play(x):
        vs = [list(v) for v in vals]
        vs[c].append(x)
        return auction(ctx, cfg, market(ctx, vs))
    lie = play(report)
    ctx.observe("deals", lie.num_of_deals())
    left = list(lie.categories[c].values)
    if lie.num_of_deals() == 0 or not left or not ctx.ge(report, left[-1]):
        ctx.cover("lie: leaves")
        return
    ctx.cover("lie: stays")
    price = lie.prices[c]
    if not ctx.gt(truth, price):
        return                                      # nothing to gain at this price
    honest = play(truth)
    observe_tree_trade(ctx, honest)
    ctx.cover("truth would stay too")
    same = honest.num_of_deals() == lie.num_of_deals() and [len(x.values) for x in honest.categories] == [len(x.values) for x in lie.categories]
    ctx.check(same and ctx.all_eq(honest.prices, lie.prices), "a misreport that stays at a price below the true value meets the same prices and the same competition as the truth")
    h = list(honest.categories[c].values)
    ctx.check(bool(h) and ctx.ge(truth, h[-1]), "the truth stays too")
