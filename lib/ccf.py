"""Reference model of common-cause failure groups (from the documented parametric models)."""
from itertools import combinations
from math import comb

MODELS = ("beta-factor", "MGL", "alpha-factor", "phi-factor")


def assign_levels(model, n, factors):
    """factors: [(level or None, value)].  Returns {level: value}, or None if the setup must be
    rejected (documented rules: levels in range, no redefinition, none missing)."""
    lo = {"beta-factor": n, "MGL": 2}.get(model, 1)
    prev = None
    got = {}
    for level, value in factors:
        if level is None:
            level = lo if prev is None else prev + 1
        if level < lo or level > n or level in got:
            return None
        got[level] = value
        prev = level
    if not got or sorted(got) != list(range(lo, max(got) + 1)):
        return None
    return got


def valid(model, n, q, factors):
    if n < 2:
        return False
    if not 0 <= q <= 1:
        return False
    got = assign_levels(model, n, factors)
    if got is None or any(not 0 <= v <= 1 for v in got.values()):
        return False
    if model == "phi-factor" and abs(sum(got.values()) - 1) > 1e-4:
        return False
    if model == "alpha-factor" and sum(got.values()) == 0:
        return False
    return True


def level_probs(model, n, q, factors):
    """{level: probability of each common-cause event of that many members}"""
    f = assign_levels(model, n, factors)
    if model == "beta-factor":
        b = f[n]
        return {1: (1 - b) * q, n: b * q}
    if model == "MGL":
        top = max(f)
        res = {}
        for k in range(1, top + 1):
            x = q
            for i in range(2, k + 1):
                x *= f[i]
            if k < top:
                x *= 1 - f[k + 1]
            res[k] = x / comb(n - 1, k - 1)
        return res
    if model == "alpha-factor":
        at = sum(k * a for k, a in f.items())
        return {k: k / comb(n - 1, k - 1) * a / at * q for k, a in f.items()}
    return {k: v * q for k, v in f.items()}


def events(n, levels):
    """Masks of members of the common-cause events, by level."""
    return [(k, sum(1 << i for i in c)) for k in sorted(levels) for c in combinations(range(n), k)]
