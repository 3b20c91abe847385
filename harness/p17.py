"""One step of a single clock: the price rises to its target or to the point where the price sum meets its bound."""
from .common import *

BOUNDS = ("price vectors of both kinds (with and without units per agent) in an arbitrary state; the raised category, its target and the bound are arbitrary with target >= current price and price sum < bound; recipes as listed; "
          "prices, targets and bounds are arbitrary reals in [-10^7, 10^7]")
COVER = ["reached target", "stopped at bound", "exactly at bound", "not in recipe", "second step"]


def configs(tier):
    recipes = [[1, 1], [2, 1], [1, 1, 1], [2, 3, 1], [1, 0, 2], [3], [0, 1, 0, 4]] + ([[5, 4, 3, 2, 1], [1, 0, 0, 1, 7]] if tier == "thorough" else [])
    recipes += [r for n, top in ((1, 4), (2, 3), (3, 2)) for r, _ in every_recipe(n, top, lambda i, k: k) if r not in recipes]
    for r in recipes:
        for c in range(len(r)):
            yield dict(module="prices", recipe=r, cat=c, counts=None)
            yield dict(module="prices_integer", recipe=r, cat=c, counts=None)
            for module in ("prices", "prices_integer"):
                yield dict(module=module, recipe=r, cat=c, counts=None, plain=True)     # one initial price, the usual bound
            yield dict(module="prices_integer", recipe=r, cat=c, counts=[1 + (i + 1) % 3 for i in range(len(r))])


def run(ctx, cfg):
    mod, recipe, c = ctx.load(cfg["module"]), cfg["recipe"], cfg["cat"]
    n = len(recipe)
    weights = [r * k for r, k in zip(recipe, cfg["counts"] or [1] * n)]
    start = [ctx.real("p%d" % i, -LIM, LIM) for i in range(n)]
    bound = ctx.real("bound", -LIM, LIM)
    args = [list(recipe), list(start)] + ([list(cfg["counts"])] if cfg["counts"] else [])
    if cfg.get("plain"):
        ctx.assume(ctx.And(ctx.eq(bound, 0), *[ctx.eq(p, start[0]) for p in start]))
        args[1] = start[0]
    v = mod.AscendingPriceVector(*args)
    prices = list(start)
    for step in range(2):
        target = ctx.real("target%d" % step, -LIM, LIM)
        before = dot(prices, weights)
        ctx.check(ctx.eq(v.price_sum(), before), "the price sum counts every trader of a deal")
        ctx.assume(ctx.lt(before, bound))
        ctx.assume(ctx.ge(target, prices[c]))
        after = before + weights[c] * (target - prices[c])
        ctx.check(ctx.eq(v.price_sum_without_category(c), before - weights[c] * prices[c]), "the price sum without one category")
        ctx.check(ctx.eq(v.price_sum_after_increase(c, target), after), "the price sum after a planned increase")
        ctx.check(ctx.all_eq([v[i] for i in range(n)], prices), "asking changes nothing")
        v.increase_price_up_to_balance(c, target, "category", **({} if cfg.get("plain") else dict(sum_upper_bound=bound)))
        for i in range(n):
            if i != c:
                ctx.check(ctx.eq(v[i], prices[i]), "the other prices stay")
        ctx.check(ctx.And(ctx.ge(v[c], prices[c]), ctx.le(v[c], target)), "the price moves between its old value and its target")
        ctx.check(ctx.le(v.price_sum(), bound), "the price sum never exceeds its bound")
        name = v.status.name
        ctx.observe("status%d" % step, name)
        ctx.observe("price%d" % step, v[c])
        if weights[c] == 0:
            ctx.cover("not in recipe")
        if after < bound:
            ctx.cover("reached target")
            ctx.check(name == "STOPPED_AT_AGENT_VALUE" and ctx.eq(v[c], target), "the price reaches its target when the bound allows it")
        else:
            ctx.cover("exactly at bound" if after == bound else "stopped at bound")
            ctx.check(name == "STOPPED_AT_ZERO_SUM" and ctx.eq(v.price_sum(), bound), "otherwise the clock stops exactly at the bound")
            return
        prices = [v[i] for i in range(n)]
        if step:
            ctx.cover("second step")
        c = (c + 1) % n
