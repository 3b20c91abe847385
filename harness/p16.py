"""A category always lists its traders from high to low, whatever is added or removed."""
import itertools

from .common import *

BOUNDS = ("a category created from an arbitrary list, and a category in an arbitrary state of the listed size, followed by every sequence of 1-3 operations (add one, add several, remove "
          "highest, remove several highest, remove lowest, clone-and-change-the-clone); added values arbitrary; 18 and more traders whose values depend on few symbolic numbers, added at once and one by one; " + VALUES)
COVER = ["add", "addmany", "top", "tops", "low", "clone"]
OPS = ["add", "addmany", "top", "tops", "low", "clone"]


def configs(tier):
    depth = 3
    for n in (18, 25) if tier == "quick" else (18, 25, 40):
        for values in ("even", "levels", "bent"):
            for first in (0, 1, n // 2, n):
                yield dict(n=n, values=values, first=first, ops=[], weight=n)
    for n in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5, 6):
        yield dict(n=n, ops=[])
    for n in (0, 1, 3) if tier == "quick" else (0, 1, 2, 4):
        for d in range(1, depth + 1):
            for ops in itertools.product(OPS, repeat=d):
                size, ok = n, True
                for o in ops:
                    size += {"add": 1, "addmany": 2, "top": -1, "tops": -2, "low": -1, "clone": 0}[o]
                    ok = ok and size >= 0
                added = sum({"add": 1, "addmany": 2, "clone": 1}.get(o, 0) for o in ops)
                if ok and added <= (3 if n > 2 else 4):
                    yield dict(n=n, ops=list(ops))


def insert(ref, v):
    out, done = [], False
    for w in ref:
        if not done and v >= w:
            out.append(v)
            done = True
        out.append(w)
    return out if done else out + [v]


def look(ctx, cat, ref, when):
    ctx.check(cat.size() == len(ref) and len(cat) == len(ref), "the size is right " + when)
    ctx.check(ctx.all_eq(cat.values, ref), "exactly the right traders, from high to low, " + when)
    if ref:
        ctx.check(ctx.eq(cat.highest_agent_value(), ref[0]), "the highest trader is found " + when)
        ctx.check(ctx.eq(cat.lowest_agent_value(), ref[-1]), "the lowest trader is found " + when)
    for k in range(len(ref) + 2):
        ctx.check(ctx.all_eq(cat.highest_agent_values(k), ref[:k]), "the %d highest traders are found %s" % (k, when))


def run_many(ctx, cfg):
    """Many traders, whose values depend on few symbolic numbers: some at creation, some as a group, two one by one."""
    agents, n, first = ctx.load("agents"), cfg["n"], cfg["first"]
    ordered = few_parameters(ctx, cfg["values"], n, "v_", LIM)
    given = [ordered[(7 * j + 3) % n if n % 7 else (5 * j + 3) % n] for j in range(n)]
    late = 2 if n - first > 3 else 0
    at_first, group, single = given[:first], given[first:n - late], given[n - late:]
    cat = agents.AgentCategory("traders", list(at_first))
    ref = sorted(at_first, reverse=True)
    look(ctx, cat, ref, "initially")
    if group:
        ctx.cover("addmany")
        cat.append(list(group))
        ref = sorted(at_first + group, reverse=True)
        look(ctx, cat, ref, "after addmany")
    for v in single:
        ctx.cover("add")
        cat.append(v)
        ref = insert(ref, v)
        look(ctx, cat, ref, "after add")
    other = cat.clone()
    look(ctx, other, ref, "in a clone")
    ctx.cover("clone")
    other.remove_lowest_agent()
    look(ctx, other, ref[:-1], "after low in a clone")
    cat.remove_highest_agents(n // 2 + 1)
    ctx.cover("tops")
    look(ctx, cat, ref[n // 2 + 1:], "after tops")
    cat.remove_highest_agent()
    look(ctx, cat, ref[n // 2 + 2:], "after top")
    look(ctx, other, ref[:-1], "in a clone when the original is changed")


def run(ctx, cfg):
    if cfg.get("values"):
        return run_many(ctx, cfg)
    agents = ctx.load("agents")
    raw = supply(ctx, [cfg["n"]], ordered=bool(cfg["ops"]))[0]
    given = list(raw)
    ref = []
    for v in raw:
        ref = insert(ref, v)
    cat = agents.AgentCategory("traders", given)
    look(ctx, cat, ref, "initially")
    ctx.check(ctx.all_eq(given, raw), "the list handed in is left as it was")
    handed, clones = [(given, raw)], []
    for step, op in enumerate(cfg["ops"]):
        ctx.cover(op)
        new = [ctx.real("a%d_%d" % (step, j), -LIM, LIM) for j in range({"add": 1, "addmany": 2, "clone": 1}.get(op, 0))]
        if op == "add":
            cat.append(new[0])
        elif op == "addmany":
            group = list(new)
            cat.append(group)
            handed.append((group, new))
        elif op == "top":
            cat.remove_highest_agent()
            ref = ref[1:]
        elif op == "tops":
            cat.remove_highest_agents(2)
            ref = ref[2:]
        elif op == "low":
            cat.remove_lowest_agent()
            ref = ref[:-1]
        else:
            c2 = cat.clone()
            ctx.check(c2.name == cat.name, "a clone has the same name")
            look(ctx, c2, ref, "in a clone")
            c2.append(new[0])
            look(ctx, cat, ref, "when a clone is changed")
            look(ctx, c2, insert(ref, new[0]), "in a changed clone")
            clones.append((c2, insert(ref, new[0])))
        if op in ("add", "addmany"):
            for v in new:
                ref = insert(ref, v)
        look(ctx, cat, ref, "after %s" % op)
    for c2, r2 in clones:
        look(ctx, c2, r2, "in a clone when the original is changed")
    for group, was in handed:
        ctx.check(len(group) == len(was) and ctx.all_eq(group, was), "the lists handed in are left as they were")
        group += [LIM, LIM]
    look(ctx, cat, ref, "when the lists handed in are changed")
    ctx.observe("values", list(cat.values))
