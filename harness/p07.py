"""Truthfulness of the ascending auction."""
from .truth import *

BOUNDS = ("ascending auction; one trader of each category in turn misreports; `sizes` counts the other traders; recipes as listed; " + VALUES)
COVER = ["lie: no trade", "lie: excluded", "lie: participates", "truth: participates", "truth: no gain"]
LISTED = (5, 16)


def configs(tier):
    base = [([1, 1], [3, 3]), ([1, 1], [1, 4]), ([1, 1], [4, 1]), ([1, 1, 1], [2, 2, 2]), ([1, 2], [2, 4]), ([2, 1], [4, 2]), ([2, 2], [3, 3]), ([2, 3], [3, 4]),
            ([1, 0, 1], [2, 1, 2]), ([3, 1], [5, 1])]
    if tier == "thorough":
        base += [([1, 1], [5, 5]), ([1, 1, 1], [3, 3, 3]), ([1, 2], [3, 7]), ([2, 1], [7, 3]), ([3, 2], [6, 4]), ([1, 1, 1, 1], [2, 2, 2, 2]), ([1, 2, 3], [2, 4, 5])]
    for n in (1, 2, 3):
        for recipe, sizes in every_recipe(n, 3 if n < 3 or tier == "thorough" else 2, lambda i, r: max(2 * r - 1 + (i == 1), 1)):
            base += [(recipe, sizes)] * ((recipe, sizes) not in base)
    base += [([1, 1, 1, 1], [1, 1, 1, 1]), ([1, 1, 1, 1], [2, 1, 1, 0]), ([1, 2, 1, 1], [1, 2, 1, 1]), ([0, 1, 1, 1], [1, 1, 2, 1]), ([1, 1, 0, 2], [1, 1, 1, 2]), ([1] * 5, [1, 0, 1, 0, 1])]
    base += [([1, 1], [a, b]) for a in range(5) for b in range(5) if ([1, 1], [a, b]) not in base]
    yield from tall_truth(tier, ("asc",))
    for recipe, sizes in base:
        for who in range(len(recipe)):
            if recipe[who] > 0:
                yield dict(mech="asc", recipe=recipe, sizes=sizes, who=who, weight=sum(sizes))


run = run_truth
