"""Recipe trees: shapes, the two implementations, and reference notions written from the definitions."""
from .common import *

# name -> (structure, number of categories)
SHAPES = {
    "single": ([0, None], 1),
    "pair": ([0, [1, None]], 2),
    "chain3": ([0, [1, [2, None]]], 3),
    "chain4": ([0, [1, [2, [3, None]]]], 4),
    "fork": ([0, [1, None, 2, None]], 3),
    "fork3": ([0, [1, None, 2, None, 3, None]], 4),
    "mixed": ([0, [1, None, 2, [3, None]]], 4),
    "mixed_r": ([3, [2, [1, None], 0, None]], 4),
    "late": ([0, [1, [2, None, 3, None]]], 4),
    "deep": ([0, [1, [2, None, 3, None], 4, None]], 5),
    "wide": ([0, [1, [2, None], 3, [4, None]]], 5),
    "three": ([1, [0, None, 2, [3, None], 4, None]], 5),
    "twice": ([0, [1, [2, None, 3, None], 4, [5, None]]], 6),
    "sparse": ([2, [0, None]], 3),      # category 1 takes no part
}


def _forests(n):
    """All lists of ordered trees with n nodes together, as nested tuples."""
    if n == 0:
        return [()]
    return [((first,) + rest) for k in range(1, n + 1) for first in _forests(k - 1) for rest in _forests(n - k)]


def all_shapes(n):
    """The names of all ordered trees with n categories."""
    return ["t" + repr(sub).replace(" ", "").replace(",", "") for sub in _forests(n - 1)]


class _Shapes(dict):
    def __missing__(self, name):
        """The tree of a name of all_shapes: its categories are numbered in the order of the walk."""
        if not name.startswith("t("):
            raise KeyError(name)
        stack, count = [[]], 0
        for c in name[1:]:
            if c == "(":
                stack[-1] += [count, []]
                stack.append(stack[-1][-1])
                count += 1
            else:
                if not stack.pop():
                    stack[-1][-1] = None
        self[name] = (stack[0], count)
        return self[name]


SHAPES = _Shapes(SHAPES)


def children(struct):
    """[(index, sub-structure)] of a list of trees."""
    return [(struct[i], struct[i + 1]) for i in range(0, len(struct), 2)] if struct else []


def paths(struct):
    out = []

    def walk(node, prefix):
        for i, sub in children(node):
            if sub is None:
                out.append(prefix + [i])
            else:
                walk(sub, prefix + [i])
    walk(struct, [])
    return out


def nodes(struct):
    return [i for i, sub in children(struct)] + [j for _, sub in children(struct) if sub for j in nodes(sub)]


def capacity(struct, units):
    """The maximum number of deals when category i has units[i] units (forest: sum; node: min)."""
    return sum(min(units[i], capacity(sub, units)) if sub else units[i] for i, sub in children(struct))


def plans(struct, units):
    """All vectors of deals per path that the categories can support."""
    ps = paths(struct)
    out = []
    for vec in itertools.product(*[range(min(units[i] for i in p) + 1) for p in ps]):
        use = {}
        for n, p in zip(vec, ps):
            for i in p:
                use[i] = use.get(i, 0) + n
        if all(use[i] <= units[i] for i in use):
            out.append((vec, use))
    return out


def unit_sums(vals, counts):
    """Prefix sums: prefix[i][n] = total value of the n best units (count_i traders each) of category i. vals sorted."""
    out = []
    for vs, c in zip(vals, counts):
        pre = [0]
        for n in range(len(vs) // c):
            pre.append(pre[-1] + sum(vs[n * c:(n + 1) * c], 0))
        out.append(pre)
    return out


def plan_values(struct, vals, counts):
    """[(number of deals, gain, deals per path)] of every plan, serving each category's best traders."""
    pre = unit_sums(vals, counts)
    units = [len(vs) // c for vs, c in zip(vals, counts)]
    return [(sum(vec), sum((pre[i][n] for i, n in use.items()), 0), vec) for vec, use in plans(struct, units)]


def auction(ctx, cfg, m):
    struct, counts = SHAPES[cfg["tree"]][0], cfg.get("counts")
    if cfg["kind"] == "bin":
        return ctx.load("ascending_auction_recipetree_protocol").budget_balanced_ascending_auction(m, struct)
    f = ctx.load("ascending_auction_recipetree_integer_protocol").budget_balanced_ascending_auction
    return f(m, struct, list(counts)) if counts else f(m, struct)


def recipe_tree(ctx, cfg, categories):
    struct, counts = SHAPES[cfg["tree"]][0], cfg.get("counts")
    if cfg["kind"] == "bin":
        return ctx.load("recipetree").RecipeTree(categories, struct)
    cls = ctx.load("recipetree_integer").RecipeTree
    return cls(categories, struct, list(counts)) if counts else cls(categories, struct)


def counts_of(cfg):
    return cfg.get("counts") or [1] * SHAPES[cfg["tree"]][1]


def units_of(cfg, categories):
    return [len(c.values) // n for c, n in zip(categories, counts_of(cfg))]


def observe_tree_trade(ctx, t):
    ctx.observe("deals", t.num_of_deals())
    ctx.observe("remaining", cat_values(t))
    if t.num_of_deals() > 0:
        ctx.observe("prices", list(t.prices))


_QUICK = [("pair", [3, 3]), ("pair", [2, 4]), ("pair", [4, 2]), ("chain3", [3, 2, 3]), ("chain3", [2, 3, 2]), ("chain3", [2, 2, 3]), ("fork", [3, 2, 2]), ("fork", [2, 1, 2]), ("fork", [3, 2, 1]),
          ("fork", [4, 1, 2]), ("fork", [2, 2, 0]), ("fork", [1, 2, 2]), ("mixed", [3, 1, 2, 1]), ("mixed", [2, 2, 2, 2]), ("mixed", [3, 2, 1, 2]), ("mixed", [2, 1, 1, 0]), ("mixed", [3, 1, 1, 2]), ("mixed_r", [1, 2, 1, 2]), ("late", [2, 2, 1, 2]), ("late", [2, 3, 2, 1]),
          ("fork3", [3, 1, 1, 1]), ("fork3", [2, 1, 2, 1]), ("chain4", [2, 2, 2, 2]), ("single", [3]), ("sparse", [2, 1, 3])]
_INT = [("pair", [4, 4], [2, 1]), ("pair", [3, 5], [1, 2]), ("pair", [4, 4], [2, 2]), ("pair", [5, 5], [3, 2]), ("chain3", [2, 4, 2], [1, 2, 1]), ("chain3", [4, 2, 3], [2, 1, 1]), ("fork", [3, 3, 2], [1, 2, 1]), ("fork", [2, 4, 2], [1, 2, 1]),
        ("fork", [2, 3, 3], [1, 2, 3]), ("fork", [4, 2, 2], [2, 1, 1]), ("mixed", [2, 2, 1, 2], [1, 2, 1, 2]), ("mixed", [2, 1, 2, 2], [1, 1, 2, 1]), ("mixed", [3, 2, 2, 1], [1, 1, 2, 1]), ("late", [2, 2, 2, 1], [1, 1, 2, 1]), ("late", [2, 3, 1, 2], [1, 2, 1, 1]),
        ("single", [5], [2]), ("sparse", [4, 1, 2], [2, 3, 1])]
_BIG = [("pair", [5, 5]), ("pair", [3, 6]), ("pair", [6, 3]), ("chain3", [3, 3, 3]), ("chain3", [4, 3, 4]), ("fork", [3, 3, 3]), ("fork", [4, 2, 3]), ("fork", [4, 3, 3]), ("mixed", [3, 2, 2, 2]), ("mixed", [3, 2, 3, 2]),
        ("mixed", [3, 3, 2, 3]), ("late", [3, 3, 2, 2]), ("fork3", [3, 2, 2, 2]), ("fork3", [4, 1, 2, 2]), ("deep", [3, 2, 1, 1, 2]), ("deep", [2, 2, 2, 1, 1]), ("wide", [2, 1, 2, 2, 1]), ("wide", [3, 2, 1, 1, 2]), ("three", [1, 3, 1, 2, 1]), ("chain4", [3, 3, 3, 3]),
        ("mixed_r", [2, 2, 2, 3]), ("twice", [2, 1, 1, 1, 1, 1])]
_INT_BIG = [("pair", [6, 6], [2, 2]), ("pair", [3, 6], [1, 2]), ("pair", [6, 4], [3, 2]), ("chain3", [3, 6, 3], [1, 2, 1]), ("fork", [3, 4, 3], [1, 2, 1]), ("fork", [3, 5, 5], [1, 2, 3]), ("fork", [6, 3, 3], [2, 1, 1]), ("mixed", [3, 4, 2, 4], [1, 2, 1, 2]),
            ("mixed", [3, 2, 4, 2], [1, 1, 2, 1]), ("late", [3, 3, 4, 2], [1, 1, 2, 1]), ("deep", [2, 2, 2, 1, 2], [1, 1, 2, 1, 2]), ("fork3", [3, 2, 1, 3], [1, 2, 1, 3])]


def tree_configs(tier, kinds=("bin", "int"), single=True):
    big = tier == "thorough"
    for tree, sizes in _QUICK + (_BIG if big else []):
        for kind in kinds:
            if kind in ("bin", "int") and (single or tree not in ("single",)):
                yield dict(kind=kind, tree=tree, sizes=sizes, weight=sum(sizes) + len(paths(SHAPES[tree][0])) * 2)
    if "int" in kinds:
        for tree, sizes, counts in _INT + (_INT_BIG if big else []):
            if single or tree not in ("single",):
                yield dict(kind="int", tree=tree, sizes=sizes, counts=counts, weight=sum(sizes) + len(paths(SHAPES[tree][0])) * 2)


# larger trees whose values depend on few symbolic numbers (few_parameters)
_TALL_TREES = [("pair", [24, 23], None), ("chain3", [18, 17, 19], None), ("fork", [17, 2, 2], None), ("pair", [38, 57], [2, 3]), ("fork", [24, 15, 15], None), ("pair", [12, 12], None), ("pair", [6, 14], None), ("chain3", [8, 7, 8], None), ("fork", [5, 3, 3], None), ("fork", [3, 4, 3], None), ("mixed", [4, 3, 3, 3], None), ("late", [4, 4, 3, 3], None),
               ("pair", [13, 9], [2, 3]), ("chain3", [5, 11, 9], [1, 3, 2]), ("fork", [4, 7, 3], [1, 3, 1]), ("pair", [7, 16], [1, 5])]
_TALL_TREES_BIG = [("fork", [7, 4, 4], None), ("fork", [4, 5, 4], None), ("late", [4, 5, 3, 3], None), ("late", [4, 9, 3, 5], [1, 3, 1, 2]), ("mixed", [5, 3, 4, 3], None), ("fork", [8, 7, 4], [2, 3, 1]), ("fork3", [5, 3, 3, 3], None), ("deep", [4, 3, 3, 3, 3], None), ("pair", [16, 16], None), ("fork", [9, 6, 6], None), ("mixed", [6, 4, 4, 4], None), ("wide", [5, 4, 3, 3, 4], None), ("three", [3, 5, 3, 4, 3], None), ("chain4", [6, 6, 6, 6], None), ("fork", [12, 12, 6], [2, 4, 1]), ("pair", [20, 21], [4, 5])]

_TALL_TREES_STATIC = [("fork", [6, 4, 4], None), ("mixed", [5, 3, 4, 3], None), ("late", [4, 5, 3, 4], None), ("pair", [16, 16], None), ("chain4", [6, 6, 6, 6], None), ("mixed", [4, 7, 4, 6], [1, 3, 1, 2]), ("fork", [8, 10, 4], [2, 3, 1])]


def tall_trees(tier, kinds=("bin", "int"), more=False):
    """more: trees for what does not run an auction."""
    for tree, sizes, counts in _TALL_TREES_STATIC if more else _TALL_TREES + (_TALL_TREES_BIG if tier == "thorough" else []):
        for kind in kinds if counts is None else [k for k in kinds if k == "int"]:
            many = tree == "fork" and min(sizes) > 8        # two long branches: every way of mixing them is a path
            for values in ("levels",) if many else ("even", "bent", "levels") if tier == "thorough" else ("levels",) if kind == "int" and counts is None and len(kinds) > 1 else ("even",):
                yield dict(dict(kind=kind, tree=tree, sizes=sizes, values=values, weight=sum(sizes) + len(paths(SHAPES[tree][0])) * 4), **(dict(counts=counts) if counts else {}))


def every_shape(tier, kinds=("bin", "int"), plan=None, units=(3, 4)):
    """Every shape with up to 7 categories (the larger ones with one trader each)."""
    big = tier == "thorough"
    for n, sizes in plan or ((3, 3), (4, 2), (5, 2 if big else 1), (6, 1), (7, 1)):
        for tree in all_shapes(n):
            for kind in kinds:
                yield dict(kind=kind, tree=tree, sizes=[sizes] * n, weight=sizes * n)
                if len(children(SHAPES[tree][0][1])) > 1:
                    yield dict(kind=kind, tree=tree, sizes=[sizes + 1] + [sizes] * (n - 1), weight=sizes * n)
            if "int" in kinds and n in units:
                counts = [1 + i % 2 for i in range(n)]
                yield dict(kind="int", tree=tree, counts=counts, sizes=[c * sizes for c in counts], weight=sizes * n)
                counts = [2] + [1 + (i * i) % 3 for i in range(1, n)]
                yield dict(kind="int", tree=tree, counts=counts, sizes=[c * sizes + (i == 0) for i, c in enumerate(counts)], weight=sizes * n)
