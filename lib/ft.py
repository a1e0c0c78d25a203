"""Fault trees: representation, exhaustive enumeration, MEF XML and brute-force oracles.

A tree is a tuple of gates, gate 0 is the top.  A gate is (connective, lo, hi, args):
args is a tuple of (ref, neg); ref < 100 is basic event number ref, 100+j is gate j,
200/201 are the Boolean constants false/true, 300+j is house event j.
Nothing in this file is derived from scram's implementation: the oracles are truth tables.
"""
from functools import lru_cache
from itertools import combinations, permutations, product

G = 100          # gate references
CONST = 200      # constants: 200 false, 201 true
HOUSE = 300      # house events

# ---------------------------------------------------------------- truth tables


@lru_cache(None)
def var_tt(n, i):
    """Truth table of variable i over n variables: bit a is set iff a has bit i."""
    t = 0
    for a in range(1 << n):
        if a >> i & 1:
            t |= 1 << a
    return t


@lru_cache(None)
def full(n):
    return (1 << (1 << n)) - 1


def card_tt(tts, lo, hi, n):
    """Truth table of `lo <= number of true arguments <= hi`."""
    k = len(tts)
    cnt = [full(n)] + [0] * k
    for t in tts:
        for j in range(k, 0, -1):
            cnt[j] = (cnt[j] & ~t) | (cnt[j - 1] & t)
        cnt[0] &= ~t
    r = 0
    for j in range(max(lo, 0), min(hi, k) + 1):
        r |= cnt[j]
    return r & full(n)


def gate_tt(conn, lo, hi, tts, n):
    f = full(n)
    if conn == "and" or conn == "nand":
        r = f
        for t in tts:
            r &= t
        return r if conn == "and" else f & ~r
    if conn == "or" or conn == "nor":
        r = 0
        for t in tts:
            r |= t
        return r if conn == "or" else f & ~r
    if conn == "not":
        return f & ~tts[0]
    if conn == "null":
        return tts[0]
    if conn == "xor":
        return (tts[0] ^ tts[1]) & f
    if conn == "iff":
        return f & ~(tts[0] ^ tts[1])
    if conn == "imply":
        return (f & ~tts[0]) | tts[1]
    if conn == "atleast":
        return card_tt(tts, lo, len(tts), n)
    if conn == "cardinality":
        return card_tt(tts, lo, hi, n)
    raise ValueError(conn)


def tree_tt(tree, n, house=(), gate=0, events=None):
    """Truth table of a gate of the tree over n basic events."""
    memo = {}
    f = full(n)

    def lit(ref, neg):
        if ref < G:
            t = events[ref] if events is not None else var_tt(n, ref)
        elif ref < CONST:
            t = val(ref - G)
        elif ref < HOUSE:
            t = f if ref == CONST + 1 else 0
        else:
            t = f if house[ref - HOUSE] else 0
        return f & ~t if neg else t

    def val(j):
        if j not in memo:
            conn, lo, hi, args = tree[j]
            memo[j] = gate_tt(conn, lo, hi, [lit(r, s) for r, s in args], n)
        return memo[j]
    return val(gate)


@lru_cache(maxsize=1 << 18)
def mcs_of(n, tt):
    """Minimal S such that the function is true when exactly S has occurred."""
    sols = sorted((a for a in range(1 << n) if tt >> a & 1), key=lambda a: bin(a).count("1"))
    res = []
    for a in sols:
        if not any(m & a == m for m in res):
            res.append(a)
    return frozenset(res)


@lru_cache(maxsize=1 << 16)
def primes_of(n, tt):
    """Prime implicants as (positive mask, negative mask), by consensus-free expansion."""
    imps = set()
    for pos in range(1 << n):
        rest = ((1 << n) - 1) & ~pos
        neg = rest
        while True:
            cube = full(n)
            for i in range(n):
                if pos >> i & 1:
                    cube &= var_tt(n, i)
                elif neg >> i & 1:
                    cube &= ~var_tt(n, i)
            if cube & ~tt & full(n) == 0:
                imps.add((pos, neg))
            if neg == 0:
                break
            neg = (neg - 1) & rest
    res = set()
    for p, q in imps:
        ok = True
        for i in range(n):
            b = 1 << i
            if (p & b and (p & ~b, q) in imps) or (q & b and (p, q & ~b) in imps):
                ok = False
                break
        if ok:
            res.add((p, q))
    return frozenset(res)


@lru_cache(maxsize=64)
def minterm_probs(ps):
    """Probability of each of the 2^n assignments."""
    w = [1.0]
    for p in ps:
        w = [x * (1 - p) for x in w] + [x * p for x in w]
    return w


def prob_of(n, tt, ps):
    w = minterm_probs(tuple(ps))
    s = 0.0
    a = 0
    while tt:
        low = tt & -tt
        a = low.bit_length() - 1
        s += w[a]
        tt ^= low
    return s


# ---------------------------------------------------------------- XML

def arg_xml(ref, neg, pfx, ename):
    if ref < G:
        x = '<basic-event name="%s"/>' % ename(ref)
    elif ref < CONST:
        x = '<gate name="%s%d"/>' % (pfx, ref - G)
    elif ref < HOUSE:
        return '<constant value="%s"/>' % ("true" if ref == CONST + 1 else "false")
    else:
        x = '<house-event name="h%d"/>' % (ref - HOUSE)
    return "<not>%s</not>" % x if neg else x


def gate_xml(gate, name, pfx, ename):
    conn, lo, hi, args = gate
    body = "".join(arg_xml(r, s, pfx, ename) for r, s in args)
    if conn == "null":
        f = body
    elif conn == "atleast":
        f = '<atleast min="%d">%s</atleast>' % (lo, body)
    elif conn == "cardinality":
        f = '<cardinality min="%d" max="%d">%s</cardinality>' % (lo, hi, body)
    else:
        f = "<%s>%s</%s>" % (conn, body, conn)
    return '<define-gate name="%s">%s</define-gate>' % (name, f)


def ft_xml(tree, tid, ename=None):
    ename = ename or (lambda i: "e%d" % i)
    pfx = "%sg" % tid
    return ('<define-fault-tree name="%s">' % tid +
            "".join(gate_xml(g, "%s%d" % (pfx, j), pfx, ename) for j, g in enumerate(tree)) +
            "</define-fault-tree>")


def be_xml(i, p, ename=None):
    nm = ename(i) if ename else "e%d" % i
    if p is None:
        return '<define-basic-event name="%s"/>' % nm
    return '<define-basic-event name="%s"><float value="%r"/></define-basic-event>' % (nm, p)


def house_xml(i, state):
    return ('<define-house-event name="h%d"><constant value="%s"/></define-house-event>'
            % (i, "true" if state else "false"))


def model_xml(trees, ps, house=(), extra="", extra_data=""):
    """trees: [(id, tree)]; ps: probabilities (or None) of the shared basic events."""
    return ('<?xml version="1.0"?>\n<opsa-mef>\n' +
            "\n".join(ft_xml(t, tid) for tid, t in trees) + "\n" + extra +
            "\n<model-data>" + "".join(be_xml(i, p) for i, p in enumerate(ps)) +
            "".join(house_xml(i, s) for i, s in enumerate(house)) + extra_data +
            "</model-data>\n</opsa-mef>\n")


def show(tree, house=()):
    """One-line rendering of a tree."""
    def a(r, s):
        if r < G:
            x = "e%d" % r
        elif r < CONST:
            x = "g%d" % (r - G)
        elif r < HOUSE:
            x = "TRUE" if r == CONST + 1 else "FALSE"
        else:
            x = "h%d" % (r - HOUSE)
        return ("~" if s else "") + x
    out = []
    for j, (c, lo, hi, args) in enumerate(tree):
        k = "" if c not in ("atleast", "cardinality") else (
            "[%d]" % lo if c == "atleast" else "[%d,%d]" % (lo, hi))
        out.append("g%d=%s%s(%s)" % (j, c, k, ",".join(a(*x) for x in args)))
    if house:
        out.append("h=%s" % (list(house),))
    return "; ".join(out)


# ---------------------------------------------------------------- enumeration

def reachable(tree):
    seen = {0}
    todo = [0]
    while todo:
        for r, _ in tree[todo.pop()][3]:
            if G <= r < CONST and r - G not in seen:
                seen.add(r - G)
                todo.append(r - G)
    return len(seen) == len(tree)


def used_events(tree):
    u = set()
    for g in tree:
        for r, _ in g[3]:
            if r < G:
                u.add(r)
    return u


def canonical(tree, n):
    """Is the first-occurrence order of the events 0,1,2,...?  (kills event permutations
    that differ only in naming; every tree is a renaming of one that passes)"""
    nxt = 0
    for g in tree:
        for r, _ in g[3]:
            if r < G:
                if r > nxt:
                    return False
                if r == nxt:
                    nxt += 1
    return True


def conns_for(k, types):
    """Connectives (with parameters) admissible for k arguments, from the set `types`."""
    out = []
    for t in types:
        if t in ("and", "or", "nand", "nor"):
            if k >= 2:
                out.append((t, 0, 0))
        elif t in ("xor", "iff", "imply"):
            if k == 2:
                out.append((t, 0, 0))
        elif t in ("not", "null"):
            if k == 1:
                out.append((t, 0, 0))
        elif t == "atleast":
            for lo in range(2, k):
                out.append((t, lo, k))
        elif t == "cardinality":
            for lo in range(0, k + 1):
                for hi in range(lo, k + 1):
                    if k >= 2 or True:
                        out.append((t, lo, hi))
    return out


ALL = ("and", "or", "nand", "nor", "xor", "iff", "imply", "not", "null", "atleast",
       "cardinality")


def gate_choices(refs, kmin, kmax, types, polar, asym=()):
    """All gates over subsets of refs.  polar: 'pos' only positive arguments, 'any' every
    polarity, 'const' polarity-free refs are given in asym."""
    for k in range(kmin, kmax + 1):
        for sub in combinations(refs, k):
            if polar == "any":
                signs = product(*[((False,) if CONST <= r < HOUSE else (False, True))
                                  for r in sub])
            else:
                signs = [(False,) * k]
            for sg in signs:
                args = tuple(zip(sub, sg))
                for c, lo, hi in conns_for(k, types):
                    if c in ("null", "not") and args[0][1]:
                        continue
                    if c == "not" and CONST <= args[0][0] < HOUSE:
                        continue          # not admitted by the schema
                    yield (c, lo, hi, args)
                    if c == "imply":
                        yield (c, lo, hi, args[::-1])


def trees(n, ngates, kmin, kmax, types, polar, top_types=None, leaf_extra=(), canon=True):
    """Every DAG of ngates gates over n events: gate i takes a set of kmin..kmax arguments
    from the later gates and the events; all gates reachable; canonical event naming."""
    levels = []
    for i in range(ngates):
        refs = [G + j for j in range(i + 1, ngates)] + list(range(n)) + list(leaf_extra)
        levels.append(list(gate_choices(refs, kmin, kmax,
                                        (top_types or types) if i == 0 else types, polar)))

    def rec(i, acc):
        if i == ngates:
            t = tuple(acc)
            if reachable(t):
                yield t
            return
        for g in levels[i]:
            acc.append(g)
            if not canon or canonical(tuple(acc), n):
                yield from rec(i + 1, acc)
            acc.pop()
    yield from rec(0, [])


def two_level(n, sizes, dual=False):
    """OR of ANDs (or AND of ORs) for every family of `sizes` distinct non-empty subsets."""
    inner, outer = ("or", "and") if dual else ("and", "or")
    subsets = [s for s in range(1, 1 << n)]
    for m in sizes:
        for fam in combinations(subsets, m):
            gates = []
            args = []
            for s in fam:
                ev = [i for i in range(n) if s >> i & 1]
                if len(ev) == 1:
                    args.append((ev[0], False))
                else:
                    args.append((G + 1 + len(gates), False))
                    gates.append((inner, 0, 0, tuple((e, False) for e in ev)))
            if len(args) < 2:
                continue
            t = ((outer, 0, 0, tuple(args)),) + tuple(gates)
            yield t


def family_canonical(tree, n):
    """Canonical under all permutations of events, for two-level trees (exact)."""
    def key(t, perm):
        fam = []
        top = t[0]
        for r, _ in top[3]:
            if r < G:
                fam.append((perm[r],))
            else:
                fam.append(tuple(sorted(perm[x] for x, _ in t[r - G][3])))
        return sorted(fam)
    base = key(tree, list(range(n)))
    return all(base <= key(tree, p) for p in permutations(range(n)))
