"""The printed reports say what actually happened."""
import re

from .common import *

BOUNDS = ("printed form of trades with arbitrary prices, of deal lists, of markets and of mechanism results; sizes as listed; names that look like formats where `names` is odd; printed numbers are "
          "symbolic tokens that are mapped back to the value they stand for; " + VALUES)
COVER = ["all", "random", "No trade", "sets", "market"]
LINE = re.compile(r"(?P<name>[^:\[\]]+): \[(?P<vals>.*)\]: (?:all (?P<all>\d+)|random (?P<some>\d+) out of (?P<n>\d+)) agents trade and pay (?P<price>.+)")


def configs(tier):
    for i, c in enumerate(all_configs(tier)):
        yield dict(c, names="odd") if i % 2 and c["kind"] != "sets" or c["kind"] == "market" else c
        if c["kind"] == "market":
            yield c


def all_configs(tier):
    base = [([1, 1], [3, 3]), ([1, 1], [4, 2]), ([1, 2], [2, 5]), ([2, 3], [5, 7]), ([1, 1, 1], [2, 3, 4]), ([1, 0, 1], [2, 0, 3]), ([1, 1], [0, 3]), ([0, 2], [2, 5])]
    for n, top in ((1, 3), (2, 3), (3, 2)):
        for shape in (lambda i, r: 2 * r + (2 * i + 1) % 3, lambda i, r: 2 * r - i % 2 if r else 0, lambda i, r: (3 - i) * r + 1):
            base += [c for c in every_recipe(n, top, shape) if c not in base]
    for recipe, sizes in base:
        yield dict(kind="trade", recipe=recipe, sizes=sizes)
    for recipe, sizes in ([1, 1], [23, 22]), ([1, 1], [19, 30]), ([3, 2], [30, 31]), ([0, 1], [3, 25]):
        for values in ("even", "levels"):
            yield dict(kind="trade", recipe=recipe, sizes=sizes, values=values)
    for values in ("even", "levels"):
        yield dict(kind="market", sizes=[24, 2, 31], values=values)
        yield dict(kind="mech", mech="asc", recipe=[1, 1], sizes=[19, 22], values=values)
    for sizes in ([2, 2], [3, 1, 2], [0], []):
        yield dict(kind="sets", sizes=sizes)
    for sizes in ([3, 2], [0, 2], [1, 2, 3], [5, 4]):
        yield dict(kind="market", sizes=sizes)
    mech = [("asc", [1, 1], [2, 3]), ("asc", [1, 2], [2, 3]), ("asc", [1, 0, 1], [2, 1, 2]), ("ext", [1, 1], [2, 2]), ("ext", [2, 1], [3, 2]), ("mcafee", [1, 1], [2, 2]), ("mcafee0", [1, 1], [2, 2])]
    if tier == "thorough":
        mech += [("asc", [1, 1], [4, 4]), ("asc", [2, 3], [4, 6]), ("ext", [1, 1], [3, 3]), ("ext", [1, 1, 1], [2, 2, 2]), ("mcafee", [1, 1], [3, 3])]
    for m, recipe, sizes in mech:
        yield dict(kind="mech", mech=m, recipe=recipe, sizes=sizes)


def numbers(ctx, text):
    text = text.strip()
    # values printed as fractions contain a comma of their own
    text = re.sub(r"Fraction\((-?\d+), (\d+)\)", r"\1/\2", text)
    return [ctx.number_of_token(t) for t in text.split(",")] if text else []


def same_numbers(ctx, shown, real):
    return None not in shown and ctx.all_eq(shown, real)


def check_trade_text(ctx, t, recipe):
    text = str(t)
    ctx.check(text == repr(t), "both printed forms agree")
    k = t.num_of_deals()
    if k == 0:
        ctx.cover("No trade")
        ctx.check(text == "No trade", "an empty trade is announced as such")
        return
    lines = [LINE.fullmatch(x.strip()) for x in text.splitlines()]
    cats = [(c, r, p) for c, r, p in zip(t.categories, recipe, t.prices) if r > 0]
    if None in lines or len(lines) != len(cats):
        ctx.fail("one line per participating category")
        return
    for m, (c, r, p) in zip(lines, cats):
        ctx.check(m.group("name") == c.name, "the category is named")
        ctx.check(same_numbers(ctx, numbers(ctx, m.group("vals")), list(c.values)), "the traders are listed")
        price = ctx.number_of_token(re.sub(r"Fraction\((-?\d+), (\d+)\)", r"\1/\2", m.group("price")))
        ctx.check(price is not None and ctx.eq(price, p), "the price is announced")
        if m.group("all"):
            ctx.cover("all")
            ctx.check(len(c.values) == k * r == int(m.group("all")), "everybody trades exactly when told so")
        else:
            ctx.cover("random")
            ctx.check(int(m.group("some")) == k * r and int(m.group("n")) == len(c.values) and len(c.values) > k * r, "the size of the lottery is announced")


def run(ctx, cfg):
    agents, trade_mod = ctx.load("agents"), ctx.load("trade")
    sizes = cfg["sizes"]
    if cfg["kind"] == "sets":
        ctx.cover("sets")
        sets = [tuple(ctx.real("p%d_%d" % (i, j), -LIM, LIM) for j in range(n)) for i, n in enumerate(sizes) if n]
        text = str(trade_mod.TradeWithMaterialBalance(list(sets)))
        m = re.fullmatch(r"(\d+) deals: \[(.*)\]", text)
        if not m:
            ctx.fail("a deal list is printed with its number of deals")
            return
        ctx.check(int(m.group(1)) == len(sets), "the number of deals is printed")
        shown = [numbers(ctx, g.rstrip(", ")) for g in re.findall(r"\(((?:Fraction\([^)]*\)|[^()])*)\)", m.group(2))]
        ctx.check(len(shown) == len(sets) and ctx.And(*[same_numbers(ctx, a, b) for a, b in zip(shown, sets)]), "the deals are listed")
        return
    vals = supply(ctx, sizes)
    if cfg["kind"] == "market":
        ctx.cover("market")
        text = str(market(ctx, vals))
        groups = re.findall(r"([^\[\],: ][^\[\],:]*): \[([^\[\]]*)\]", text[len("Traders: ["):])
        ctx.check([g[0] for g in groups] == [category_name(ctx, i) for i in range(len(sizes))] and text.startswith("Traders: ["), "all categories are listed")
        ctx.check(len(groups) == len(vals) and ctx.And(*[same_numbers(ctx, numbers(ctx, g[1]), v) for g, v in zip(groups, vals)]), "all traders are listed from high to low")
    elif cfg["kind"] == "trade":
        prices = [ctx.real("price%d" % i, -LIM, LIM) for i in range(len(sizes))]
        t = trade_mod.TradeWithSinglePrice([agents.AgentCategory(category_name(ctx, i), list(v)) for i, v in enumerate(vals)], list(cfg["recipe"]), prices)
        check_trade_text(ctx, t, cfg["recipe"])
    else:
        t = mechanism(ctx, cfg["mech"])(market(ctx, vals), cfg["recipe"])
        observe_trade(ctx, t)
        check_trade_text(ctx, t, cfg["recipe"])
