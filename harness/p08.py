"""Truthfulness of the external-competition mechanism (one trader per category and deal)."""
from .truth import *

BOUNDS = ("external competition with recipes of ones; one trader of each category in turn misreports; `sizes` counts the other traders; " + VALUES)
COVER = ["lie: no trade", "lie: excluded", "lie: participates", "truth: participates", "truth: no gain"]
LISTED = (5, 16)


def configs(tier):
    base = [([1, 1], [2, 2]), ([1, 1], [1, 3]), ([1, 1], [3, 1]), ([1, 1], [2, 3]), ([1, 1], [3, 2]), ([1, 1, 1], [1, 2, 2]), ([1, 1, 1], [2, 1, 2]), ([1, 1, 1], [2, 2, 1])]
    if tier == "thorough":
        base += [([1, 1], [3, 3]), ([1, 1], [3, 4]), ([1, 1], [4, 3]), ([1, 1, 1], [2, 2, 2]), ([1, 1, 1, 1], [1, 1, 1, 1])]
    base += [([1, 1], [a, b]) for a in range(4) for b in range(4) if ([1, 1], [a, b]) not in base and a + b < (7 if tier == "thorough" else 6)]
    base += [([1, 1, 1], [a, b, c]) for a in range(3) for b in range(3) for c in range(3) if ([1, 1, 1], [a, b, c]) not in base and a + b + c < 6]
    base += [([1, 1, 1, 1], s) for s in ([1, 1, 1, 1], [1, 0, 1, 1], [2, 1, 0, 1]) if ([1, 1, 1, 1], s) not in base] + [([1] * 5, [0, 1, 1, 0, 1])]
    yield from tall_truth(tier, ("ext", "ext0"))
    for recipe, sizes in base:
        for who in range(len(recipe)):
            for mech in ("ext", "ext0"):
                yield dict(mech=mech, recipe=recipe, sizes=sizes, who=who, weight=sum(sizes) * 2)


run = run_truth
