"""The exhaustively enumerated spaces of fault trees (see DESIGN.md for what each reaches).

family(name) -> (n events, iterator of trees, description)."""
from itertools import combinations, product

import ft
from ft import ALL, CONST, G, HOUSE

AO = ("and", "or")
AOX = ("and", "or", "xor")
AOA = ("and", "or", "atleast")


def functions(n, cover):
    """Every Boolean function of n events, written as an OR of its minterms ('dnf') or an AND
    of its maxterms ('cnf')."""
    for tt in range(1, (1 << (1 << n)) - 1):
        gates, args = [], []
        for a in range(1 << n):
            on = bool(tt >> a & 1)
            if on != (cover == "dnf"):
                continue
            lits = tuple((i, not bool(a >> i & 1)) for i in range(n)) if cover == "dnf" else \
                tuple((i, bool(a >> i & 1)) for i in range(n))
            args.append((G + 1 + len(gates), False))
            gates.append(("and" if cover == "dnf" else "or", 0, 0, lits))
        if len(gates) == 1:
            yield (gates[0],)
        else:
            yield (("or" if cover == "dnf" else "and", 0, 0, tuple(args)),) + tuple(gates)


def antichains(n):
    """Every antichain of non-empty subsets of n events (every monotone function)."""
    subsets = list(range(1, 1 << n))

    def rec(i, acc):
        if i == len(subsets):
            if acc:
                yield tuple(acc)
            return
        yield from rec(i + 1, acc)
        s = subsets[i]
        if all(s & x != s and s & x != x for x in acc):
            acc.append(s)
            yield from rec(i + 1, acc)
            acc.pop()
    yield from rec(0, [])


def monotone(n, dual):
    inner, outer = ("or", "and") if dual else ("and", "or")
    for fam in antichains(n):
        gates, args = [], []
        for s in fam:
            ev = tuple((i, False) for i in range(n) if s >> i & 1)
            if len(ev) == 1:
                args.append(ev[0])
            else:
                args.append((G + 1 + len(gates), False))
                gates.append((inner, 0, 0, ev))
        if len(args) == 1:
            if gates:
                yield (gates[0],)
            continue
        yield ((outer, 0, 0, tuple(args)),) + tuple(gates)


def substitute(tree, n, blocks):
    """Replaces event i of the tree by the root of a private copy of blocks[i] (a tree over
    its own events) -- every block is an independent module."""
    gates = [list(g) for g in tree]
    refs = {}
    ev = 0
    tail = []
    base = len(tree)
    for i in range(n):
        b = blocks[i]
        if b is None:
            refs[i] = ev
            ev += 1
            continue
        k = max(ft.used_events(b)) + 1
        off = base + len(tail)
        for (c, lo, hi, args) in b:
            tail.append((c, lo, hi, tuple(
                (r + ev, s) if r < G else (r + off, s) for r, s in args)))
        refs[i] = G + off
        ev += k
    out = []
    for c, lo, hi, args in gates:
        out.append((c, lo, hi, tuple((refs[r], s) if r < G else (r, s) for r, s in args)))
    return tuple(out) + tuple(tail), ev


BLOCKS = [None,
          (("and", 0, 0, ((0, False), (1, False))),),
          (("or", 0, 0, ((0, False), (1, False))),)]
BLOCKS_N = BLOCKS + [
    (("and", 0, 0, ((0, False), (1, True))),),
    (("xor", 0, 0, ((0, False), (1, False))),),
    (("atleast", 2, 3, ((0, False), (1, False), (2, False))),)]


def modular(n, outer, blocks, maxev):
    """Outer trees with every combination of blocks in place of their events."""
    for t in outer:
        used = sorted(ft.used_events(t))
        m = len(used)
        for bl in product(blocks, repeat=m):
            if all(b is None for b in bl):
                continue
            tree, ev = substitute(t, m, bl)
            if ev <= maxev:
                yield tree


def with_house(n, nh, ngates, kmin, kmax, types):
    for t in ft.trees(n, ngates, kmin, kmax, types, "any",
                      leaf_extra=tuple(HOUSE + i for i in range(nh))):
        if any(r >= HOUSE for g in t for r, _ in g[3]):
            yield t


F = {
    # one gate: every connective, parameter, arity, polarity, with Boolean constants
    "one3c": (3, lambda: ft.trees(3, 1, 1, 3, ALL, "any", leaf_extra=(200, 201)),
              "1 gate, all 11 connectives, 1-3 arguments out of 3 events and 2 constants"),
    "one4": (4, lambda: ft.trees(4, 1, 1, 4, ALL, "any"),
             "1 gate, all 11 connectives, 1-4 arguments, any polarity"),
    "two3k3": (3, lambda: ft.trees(3, 2, 1, 3, ALL, "any"),
               "2 gates, all connectives, 1-3 arguments, any polarity, 3 events"),
    "two3": (3, lambda: ft.trees(3, 2, 1, 4, ALL, "any"),
             "2 gates, all connectives, 1-4 arguments, any polarity, 3 events"),
    "two4": (4, lambda: ft.trees(4, 2, 1, 4, ALL, "any"),
             "2 gates, all connectives, 1-4 arguments, any polarity, 4 events"),
    "house2": (2, lambda: with_house(2, 1, 2, 1, 3, ALL),
               "2 gates, all connectives, 2 events and a house event"),
    "house2x": (2, lambda: with_house(2, 1, 2, 1, 2, ALL),
                "2 gates, all connectives, 1-2 arguments, 2 events and a house event"),
    "three3": (3, lambda: ft.trees(3, 3, 2, 2, AOX, "any"),
               "3 gates, and/or/xor, 2 arguments, any polarity, 3 events"),
    "three3k3": (3, lambda: ft.trees(3, 3, 2, 3, ("and", "or", "xor", "atleast"), "any"),
                 "3 gates, and/or/xor/atleast, 2-3 arguments, any polarity, 3 events"),
    "three2all": (2, lambda: ft.trees(2, 3, 1, 3, ALL, "pos"),
                  "3 gates, all connectives, 1-3 positive arguments, 2 events"),
    "four3": (3, lambda: ft.trees(3, 4, 2, 2, AO, "any"),
              "4 gates, and/or, 2 arguments, any polarity, 3 events"),
    "four3x": (3, lambda: ft.trees(3, 4, 2, 2, AOX, "any"),
               "4 gates, and/or/xor, 2 arguments, any polarity, 3 events"),
    "three4a": (4, lambda: ft.trees(4, 3, 2, 4, AOA, "pos"),
                "3 gates, and/or/atleast, 2-4 positive arguments, 4 events"),
    "four4a": (4, lambda: ft.trees(4, 4, 2, 3, AOA, "pos"),
               "4 gates, and/or/atleast, 2-3 positive arguments, 4 events"),
    "four3a": (3, lambda: ft.trees(3, 4, 2, 3, AOA, "pos"),
               "4 gates, and/or/atleast, 2-3 positive arguments, 3 events"),
    "four5a": (5, lambda: ft.trees(5, 4, 2, 3, AOA, "pos"),
               "4 gates, and/or/atleast, 2-3 positive arguments, 5 events"),
    "five4": (4, lambda: ft.trees(4, 5, 2, 2, AO, "pos"),
              "5 gates, and/or, 2 positive arguments, 4 events"),
    "five5": (5, lambda: ft.trees(5, 5, 2, 2, AO, "pos"),
              "5 gates, and/or, 2 positive arguments, 5 events"),
    "six3": (3, lambda: ft.trees(3, 6, 2, 2, AO, "pos"),
             "6 gates, and/or, 2 positive arguments, 3 events"),
    "six4": (4, lambda: ft.trees(4, 6, 2, 2, AO, "pos"),
             "6 gates, and/or, 2 positive arguments, 4 events"),
    "fn3": (3, lambda: (t for c in ("dnf", "cnf") for t in functions(3, c)),
            "every Boolean function of 3 events as minterm DNF and maxterm CNF"),
    "fn4": (4, lambda: (t for c in ("dnf", "cnf") for t in functions(4, c)),
            "every Boolean function of 4 events as minterm DNF and maxterm CNF"),
    "mono4": (4, lambda: (t for d in (False, True) for t in monotone(4, d)),
              "every monotone function of 4 events as DNF and CNF of an antichain"),
    "mono5": (5, lambda: (t for d in (False, True) for t in monotone(5, d)),
              "every monotone function of 5 events as DNF and CNF of an antichain"),
    "mod3": (6, lambda: modular(3, ft.trees(3, 2, 2, 3, AOA, "any"), BLOCKS, 6),
             "2-gate trees over 3 slots, each slot an event or an and/or module"),
    "modn": (7, lambda: modular(3, ft.trees(3, 2, 2, 2, AOX, "any"), BLOCKS_N, 7),
             "2-gate trees over 3 slots, each slot an event or one of 5 module kinds"),
    "modx": (7, lambda: modular(3, ft.trees(3, 2, 2, 3, ("and", "or", "xor", "atleast"), "any"),
                                BLOCKS_N, 7),
             "2-gate and/or/xor/atleast trees over 3 slots, modules of 5 kinds"),
    "mod3g": (6, lambda: modular(3, ft.trees(3, 3, 2, 2, AO, "any"), BLOCKS, 6),
              "3-gate trees over 3 slots, each slot an event or an and/or module"),
}


def family(name):
    n, mk, text = F[name]
    return n, mk(), text
