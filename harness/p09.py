"""Truthfulness of McAfee's mechanism."""
from .truth import *

BOUNDS = ("McAfee in a two-sided market with and without the price heuristic, and with up to five categories without it (with it: buyers have positive and sellers negative values); one trader of "
          "each side in turn misreports; `sizes` counts the other traders; " + VALUES)
COVER = ["lie: no trade", "lie: excluded", "lie: participates", "truth: participates", "truth: no gain"]
LISTED = (5, 16)


def configs(tier):
    base = [[2, 2], [1, 3], [3, 1], [2, 3], [3, 2], [0, 1], [1, 1]]
    if tier == "thorough":
        base += [[3, 3], [3, 4], [4, 3]]
    base += [[a, b] for a in range(5) for b in range(5) if [a, b] not in base and a + b < 7]
    for c in tall_truth(tier, ("mcafee", "mcafee0")):
        if c["mech"] == "mcafee0":
            yield c
        else:
            yield dict(c, signs=[1, -1])
            yield dict(c, signs=[-1, 1])
    for sizes in base:
        for who in (0, 1):
            yield dict(mech="mcafee0", recipe=[1, 1], sizes=sizes, who=who, weight=sum(sizes))
            for signs in ([1, -1], [-1, 1]):
                yield dict(mech="mcafee", recipe=[1, 1], sizes=sizes, who=who, signs=signs, weight=sum(sizes) + 1)
    for sizes in ([1, 1, 1, 1], [0, 1, 1, 1], [1, 0, 1, 0, 1]):
        for who in (0, len(sizes) - 2):
            yield dict(mech="mcafee0", recipe=[1] * len(sizes), sizes=sizes, who=who, weight=sum(sizes) + 1)
    for sizes in [[1, 1, 1], [2, 1, 1], [0, 1, 1], [1, 2, 2]] + ([[2, 2, 2]] if tier == "thorough" else []):
        for who in (0, 2):
            yield dict(mech="mcafee0", recipe=[1, 1, 1], sizes=sizes, who=who, weight=sum(sizes) + 1)


run = run_truth
