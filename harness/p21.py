"""Recipes of a tree, the set of clocks that is advanced, and the number of possible deals."""
from .trees import *

BOUNDS = ("binary and integer recipe trees; every category's size is a variable with the listed upper limit; tree shapes (among them every ordered tree with 4 to 6 categories) and units per deal as listed")
COVER = ["clocks: root", "clocks: several", "no deals", "scarce root", "scarce branches"]


def configs(tier):
    big = tier == "thorough"
    for tree, (struct, n) in list(SHAPES.items()):
        lim = {1: 6, 2: 5, 3: 4, 4: 3, 5: 2, 6: 1}[n] + (1 if big else 0)
        yield dict(kind="bin", tree=tree, limits=[lim] * n, weight=n)
        yield dict(kind="int", tree=tree, limits=[lim] * n, counts=None, weight=n)
        for counts in ([1 + i % 2 for i in range(n)], [2 - i % 2 for i in range(n)], [1 + i % 3 for i in range(n)]):
            yield dict(kind="int", tree=tree, limits=[min(lim + (c > 1), 4 if big else 3) for c in counts], counts=counts, weight=n)


    for n, lim in ((4, 2), (5, 2 if big else 1), (6, 1)):
        for tree in all_shapes(n):
            yield dict(kind="bin", tree=tree, limits=[lim] * n, weight=n)
            yield dict(kind="int", tree=tree, limits=[lim + 1] + [lim] * (n - 1), counts=[1 + i % 2 for i in range(n)], weight=n)


def run(ctx, cfg):
    struct, n = SHAPES[cfg["tree"]]
    counts = counts_of(cfg)
    sizes = [ctx.choose("size%d" % i, 0, lim) for i, lim in enumerate(cfg["limits"])]
    m = market(ctx, [[0] * s for s in sizes])
    tree = recipe_tree(ctx, cfg, m.categories)
    ps = paths(struct)
    ctx.check([list(p) for p in tree.paths_to_leaf(indices=True)] == ps, "one path per leaf, from the root to the leaf")
    ctx.check([list(p) for p in tree.paths_to_leaf()] == [["cat%d" % i for i in p] for p in ps], "paths by name are the same paths")
    ctx.check([list(r) for r in tree.recipes()] == [[counts[i] if i in p else 0 for i in range(n)] for p in ps], "one recipe per path, with the units of its categories")
    units = [s // c for s, c in zip(sizes, counts)]
    top = capacity(struct, units)
    k = tree.num_of_deals()
    ctx.observe("deals", k)
    ctx.check(k == top, "the number of possible deals")
    told = tree.num_of_deals_explained([10 + i for i in range(n)])
    ctx.check(told[0] == top and told[1].rstrip().endswith("%d deals overall" % top), "the report has the number of possible deals")
    largest, combined, names = tree.largest_categories()
    largest2, combined2, clocks = tree.largest_categories(indices=True)
    ctx.check(["cat%d" % i for i in clocks] == list(names) and largest == largest2 and combined == combined2, "clocks by name and by index are the same")
    for p in ps:
        ctx.check(sum(i in p for i in clocks) == 1, "exactly one clock of the recipe %s is advanced" % p)
    ctx.check(len(set(clocks)) == len(clocks) and all(i in nodes(struct) for i in clocks), "no clock is advanced twice")
    ctx.check(combined > 0 or top == 0, "the auction is given up only when no deal is possible")
    if top == 0:
        ctx.cover("no deals")
    ctx.cover("clocks: root" if list(clocks) == [struct[0]] else "clocks: several" if len(clocks) > 1 else "clocks: one")
    if struct[1]:
        ctx.cover("scarce root" if units[struct[0]] < capacity(struct[1], units) else "scarce branches")
