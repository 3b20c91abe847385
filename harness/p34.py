"""The printed report of a recipe-tree auction says what happened."""
import re

from .trees import *

BOUNDS = ("printed form of the result of both recipe-tree auctions and of tree trades with arbitrary prices over categories of the listed sizes; names that look like formats where `names` is odd; printed numbers are symbolic tokens that are mapped back to the value they stand for; " + VALUES + ", every price likewise")
COVER = ["no trade", "all", "some", "all deals", "some deals", "potential", "mechanism", "constructed"]
LISTED = (6, 24, True)
LEAF = re.compile(r"(?P<name>[^:]+): (?P<n>\d+) potential deals, price=(?P<price>.+)")
NODE = re.compile(r"(?P<name>[^:]+): (?:all (?P<all>\d+)|(?P<some>\d+) out of (?P<n>\d+)) traders selected, price=(?P<price>.+)")
KIDS = re.compile(r"(?P<name>[^:]+): (?:all (?P<all>\d+)|(?P<some>\d+) out of (?P<n>\d+)) (?:traders|deals) selected")


def configs(tier):
    for i, c in enumerate(all_configs(tier)):
        yield dict(c, names="odd") if i % 2 else c


def all_configs(tier):
    for c in tree_configs(tier):
        if sum(c["sizes"]) <= (9 if tier == "quick" else 12):
            yield dict(c, what="mechanism")
    for c in every_shape(tier, plan=((4, 1), (5, 1)), units=(4,)):
        yield dict(c, what="mechanism")
    for c in every_shape(tier, plan=((5, 2), (6, 1)), units=(5, 6)):
        if len(paths(SHAPES[c["tree"]][0])) < 4:
            yield dict(c, what="constructed", weight=0)
    seen = set()
    for tree in [t for t in SHAPES if t[:2] != "t("] if tier == "thorough" else ("single", "pair", "chain3", "fork", "mixed", "mixed_r", "late", "deep", "sparse"):
        n = SHAPES[tree][1]
        for s in ([[2] * n, [3] * n, [1 + i % 3 for i in range(n)], [3 - i % 3 for i in range(n)], [4] + [1] * (n - 1), [1] + [3] * (n - 1), [5 if i % 2 else 2 for i in range(n)], [0] * n, [3 * (i % 2) for i in range(n)]]):
            yield dict(kind="bin", tree=tree, sizes=s, what="constructed", weight=0)
            for counts in ([2] * n, [1 + i % 2 for i in range(n)], [2 - i % 2 for i in range(n)], [1] * n):
                yield dict(kind="int", tree=tree, sizes=s, counts=counts, what="constructed", weight=0)


def number(ctx, text):
    return ctx.number_of_token(re.sub(r"Fraction\((-?\d+), (\d+)\)", r"\1/\2", text))


def run(ctx, cfg):
    struct, counts, sizes = SHAPES[cfg["tree"]][0], counts_of(cfg), cfg["sizes"]
    vals = supply(ctx, sizes)
    m = market(ctx, vals)
    if cfg["what"] == "mechanism":
        t = auction(ctx, cfg, m)
    else:
        prices = [ctx.real("price%d" % i, -LIM, LIM) for i in range(len(sizes))]
        tree = recipe_tree(ctx, cfg, m.categories)
        if cfg["kind"] == "bin":
            t = ctx.load("ascending_auction_recipetree_protocol").TradeWithMultipleRecipes(m.categories, tree, prices)
        else:
            t = ctx.load("ascending_auction_recipetree_integer_protocol").TradeWithMultipleRecipes(m.categories, tree, prices, counts)
    ctx.cover(cfg["what"])
    text = str(t)
    ctx.check(text == repr(t), "both printed forms agree")
    units = units_of(cfg, t.categories)
    k = t.num_of_deals()
    ctx.check(k == capacity(struct, units), "as many deals as the traders support")
    if k == 0:
        ctx.cover("no trade")
        ctx.check(text == "No trade", "an empty trade is announced as such")
        return
    lines = text.splitlines()
    want = []                       # expected lines, children before their parent
    name = lambda i: t.categories[i].name

    def walk(node):
        for i, sub in children(node):
            if sub is None:
                want.append((LEAF, name(i), units[i], units[i], t.prices[i]))
            else:
                walk(sub)
                below = capacity(sub, units)
                here = min(below, units[i])
                want.append((NODE, name(i), here * counts[i], len(t.categories[i]), t.prices[i]))
                want.append((KIDS, " + ".join(name(j) for j, _ in children(sub)), here, below, None))
    walk(struct)
    ctx.check(len(lines) == len(want) + 1, "the report has one line per leaf and two per inner category")
    if len(lines) != len(want) + 1:
        return
    ctx.check(lines[-1].strip() == "%d deals overall" % k, "the number of deals is announced")
    for line, (form, who, some, total, price) in zip(lines, want):
        g = form.fullmatch(line.strip())
        if not g:
            ctx.fail("the report says how many traders or deals are selected")
            continue
        g = g.groupdict()
        ctx.check(g["name"] == who, "the category is named")
        if form is LEAF:
            ctx.cover("potential")
            ctx.check(int(g["n"]) == some, "the potential deals of a leaf are counted")
        elif g["all"]:
            ctx.cover("all deals" if form is KIDS else "all")
            ctx.check(int(g["all"]) == total == some, "everybody is selected exactly when told so")
        else:
            ctx.cover("some deals" if form is KIDS else "some")
            ctx.check(int(g["some"]) == some and int(g["n"]) == total and some < total, "the size of the lottery is announced")
        if price is not None:
            shown = number(ctx, g["price"])
            ctx.check(shown is not None and ctx.eq(shown, price), "the price is announced")
