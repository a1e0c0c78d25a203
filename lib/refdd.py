"""A reference analyser for large fault trees: reads MEF XML, builds a plain BDD (no
complement edges, no modules, no preprocessing), computes the exact probability and the
minimal cut sets (Rauzy's recursion).  Written from the textbook, not from scram."""
import sys
import xml.etree.ElementTree as ET

sys.setrecursionlimit(200000)


class TooBig(Exception):
    pass


class Model:
    def __init__(self, files):
        self.gates = {}
        self.probs = {}
        self.house = {}
        for f in files:
            root = ET.parse(f).getroot()
            for g in root.iter("define-gate"):
                body = [x for x in g if x.tag not in ("label", "attributes")]
                self.gates[g.get("name")] = body[0]
            for b in root.iter("define-basic-event"):
                x = b.find("float")
                if x is not None:
                    self.probs[b.get("name")] = float(x.get("value"))
            for h in root.iter("define-house-event"):
                self.house[h.get("name")] = h.find("constant").get("value") == "true"
        refs = set()
        for b in self.gates.values():
            for x in b.iter():
                if x.tag in ("gate", "event"):
                    refs.add(x.get("name"))
        self.tops = [g for g in self.gates if g not in refs]


class Bdd:
    def __init__(self, model, limit=3000000):
        self.m = model
        self.limit = limit
        self.unique = {}
        self.nodes = [None, None]
        self.cache = {}
        self.order = {}
        self.names = []

    def var(self, name):
        if name not in self.order:
            self.order[name] = len(self.names)
            self.names.append(name)
        return self.mk(self.order[name], 1, 0)

    def mk(self, v, hi, lo):
        if hi == lo:
            return hi
        k = (v, hi, lo)
        r = self.unique.get(k)
        if r is None:
            r = len(self.nodes)
            if r > self.limit:
                raise TooBig()
            self.nodes.append(k)
            self.unique[k] = r
        return r

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.cache.get(k)
        if r is not None:
            return r
        N = self.nodes
        v = N[f][0]
        if g > 1 and N[g][0] < v:
            v = N[g][0]
        if h > 1 and N[h][0] < v:
            v = N[h][0]

        def cof(x, b):
            return x if x < 2 or N[x][0] != v else N[x][1 if b else 2]
        hi = self.ite(cof(f, 1), cof(g, 1), cof(h, 1))
        lo = self.ite(cof(f, 0), cof(g, 0), cof(h, 0))
        r = self.mk(v, hi, lo)
        self.cache[k] = r
        return r

    def build(self, top):
        # the variable order: depth-first appearance
        memo = {}

        def ev(name):
            if name in self.m.gates:
                if name not in memo:
                    memo[name] = form(self.m.gates[name])
                return memo[name]
            if name in self.m.house:
                return int(self.m.house[name])
            return self.var(name)

        def form(x):
            t = x.tag
            if t in ("gate", "basic-event", "house-event", "event"):
                return ev(x.get("name"))
            if t == "constant":
                return int(x.get("value") == "true")
            a = [form(y) for y in x if y.tag not in ("label", "attributes")]
            if t == "not":
                return self.ite(a[0], 0, 1)
            if t in ("and", "nand"):
                r = 1
                for y in a:
                    r = self.ite(r, y, 0)
                return r if t == "and" else self.ite(r, 0, 1)
            if t in ("or", "nor"):
                r = 0
                for y in a:
                    r = self.ite(r, 1, y)
                return r if t == "or" else self.ite(r, 0, 1)
            if t == "xor":
                return self.ite(a[0], self.ite(a[1], 0, 1), a[1])
            if t == "atleast":
                k = int(x.get("min"))
                st = [1] + [0] * k
                for y in a:
                    for j in range(k, 0, -1):
                        st[j] = self.ite(y, self.ite(st[j], 1, st[j - 1]), st[j])
                return st[k]
            raise ValueError(t)
        return ev(top)

    def prob(self, r):
        memo = {0: 0.0, 1: 1.0}
        P = [self.m.probs.get(n) for n in self.names]

        def go(x):
            if x not in memo:
                v, hi, lo = self.nodes[x]
                memo[x] = P[v] * go(hi) + (1 - P[v]) * go(lo)
            return memo[x]
        return go(r)

    def counts(self, r, maxorder):
        """Number of minimal cut sets of each order <= maxorder (monotone functions)."""
        z = Zdd(self)
        root = z.minsol(r)
        memo = {0: (0,) * (maxorder + 1), 1: (1,) + (0,) * maxorder}

        def go(x):
            if x not in memo:
                _, hi, lo = z.nodes[x]
                h, l = go(hi), go(lo)
                memo[x] = tuple(l[i] + (h[i - 1] if i else 0) for i in range(maxorder + 1))
            return memo[x]
        return go(root)


class Zdd:
    """Zero-suppressed DD of the minimal solutions; 0 empty family, 1 the empty set."""

    def __init__(self, bdd):
        self.b = bdd
        self.unique = {}
        self.nodes = [None, None]
        self.ms = {}
        self.wo = {}

    def mk(self, v, hi, lo):
        if hi == 0:
            return lo
        k = (v, hi, lo)
        r = self.unique.get(k)
        if r is None:
            r = len(self.nodes)
            self.nodes.append(k)
            self.unique[k] = r
        return r

    def minsol(self, x):
        if x < 2:
            return x
        r = self.ms.get(x)
        if r is None:
            v, hi, lo = self.b.nodes[x]
            l = self.minsol(lo)
            r = self.mk(v, self.without(self.minsol(hi), l), l)
            self.ms[x] = r
        return r

    def without(self, f, g):
        """Sets of f that include no set of g."""
        if f == 0 or g == 1:
            return 0
        if g == 0 or f == 1:
            return f
        k = (f, g)
        r = self.wo.get(k)
        if r is not None:
            return r
        N = self.nodes
        fv, fh, fl = N[f]
        gv, gh, gl = N[g]
        if fv < gv:
            r = self.mk(fv, self.without(fh, g), self.without(fl, g))
        elif fv > gv:
            r = self.without(f, gl)
        else:
            r = self.mk(fv, self.without(self.without(fh, gh), gl), self.without(fl, gl))
        self.wo[k] = r
        return r
