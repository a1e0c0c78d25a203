#!/usr/bin/env python3
"""P23: the fault-tree generator under every single deviation of its random decisions; the writers
of fault-tree models; the N-queens trees."""
import os
import re
import subprocess
import sys
from itertools import product
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from lxml import etree
import build
import common
import families
import ft
import generator
import mc

quick = common.tier() != "thorough"
ck = mc.Check("P23", "exploration", common.tier())
exe = build.build_cli()
RNG = etree.RelaxNG(etree.parse(os.path.join(mc.REPO, "share", "input.rng")))
OPS = ["and", "or", "atleast", "not", "xor"]


# ------------------------------------------------------------------ reading what was written

class Bad(Exception):
    pass


def need(ok, *text):
    if not ok:
        raise Bad(" ".join(map(str, text)))


class Tree:
    """gates: {name: (operator, k, [literal])}; literal: (name, negated)"""

    def __init__(self):
        self.name, self.gates, self.probs, self.house, self.ccf = None, {}, {}, {}, {}
        self.order = []


def formula(e):
    op, k, args = "null", None, []
    if e.tag in OPS + ["nand", "nor"]:
        op, k = e.tag, int(e.get("min")) if e.tag == "atleast" else None
        kids = list(e)
    else:
        kids = [e]
    for a in kids:
        neg = False
        if a.tag == "not":
            need(len(a) == 1, "a negation of", len(a), "arguments")
            neg, a = True, a[0]
        need(a.tag in ("gate", "basic-event", "house-event", "event"), "an argument", a.tag)
        args.append((a.get("name"), neg, a.tag))
    return op, k, args


def read_xml(text):
    try:
        root = etree.fromstring(text.encode())
    except etree.XMLSyntaxError as e:
        raise Bad("not well-formed: %s" % e)
    need(RNG.validate(root), "not valid:", RNG.error_log.last_error)
    t = Tree()
    fts = root.findall("define-fault-tree")
    need(len(fts) == 1, len(fts), "fault trees")
    t.name = fts[0].get("name")
    for g in fts[0].findall("define-gate"):
        need(g.get("name") not in t.gates, "gate", g.get("name"), "is defined twice")
        need(len(g) == 1, "gate", g.get("name"), "has", len(g), "formulas")
        t.gates[g.get("name")] = formula(g[0])
        t.order.append(g.get("name"))
    for c in fts[0].findall("define-CCF-group"):
        need(c.get("name") not in t.ccf, "a CCF group twice")
        t.ccf[c.get("name")] = ([m.get("name") for m in c.find("members")], float(c.find("distribution/float").get("value")),
                                [(int(f.get("level")), float(f.find("float").get("value"))) for f in c.iter("factor")])
    for b in root.iter("define-basic-event"):
        need(b.get("name") not in t.probs, "basic event", b.get("name"), "is defined twice")
        t.probs[b.get("name")] = float(b.find("float").get("value"))
    for h in root.iter("define-house-event"):
        need(h.get("name") not in t.house, "house event", h.get("name"), "is defined twice")
        t.house[h.get("name")] = h.find("constant").get("value")
    return t


def read_aralia(text):
    """The format of the Aralia benchmarks, as far as the scripts write it."""
    t = Tree()
    lines = [l.strip() for l in text.splitlines() if l.strip()]
    t.name = lines[0]
    for l in lines[1:]:
        m = re.fullmatch(r"([ps])\((\w+)\) *= *(\S+)", l)
        if m:
            where = t.probs if m.group(1) == "p" else t.house
            need(m.group(2) not in where, m.group(2), "is defined twice")
            where[m.group(2)] = float(m.group(3)) if m.group(1) == "p" else m.group(3)
            continue
        m = re.fullmatch(r"(\w+) *:= *(.*)", l)
        need(m, "not a definition:", l)
        need(m.group(1) not in t.gates, m.group(1), "is defined twice")
        f = m.group(2).strip()
        c = re.fullmatch(r"@\((\d+), *\[(.*)\]\)", f)
        n = re.fullmatch(r"~\((\w+)\)", f)
        if c:
            op, k, parts = "atleast", int(c.group(1)), c.group(2).split(",")
        elif n:
            op, k, parts = "not", None, [n.group(1)]
        else:
            if f.startswith("("):
                need(f.endswith(")"), "parentheses of", l)
                f = f[1:-1]
            seps = {s for s in "&|^" if s in f}
            need(len(seps) <= 1, "several operators:", l)
            s = seps.pop() if seps else None
            op, k = {"&": "and", "|": "or", "^": "xor", None: "null"}[s], None
            parts = f.split(s) if s else [f]
        args = []
        for p in parts:
            p = p.strip()
            need(re.fullmatch(r"~?\w+", p), "an argument", p)
            args.append((p.lstrip("~"), p.startswith("~"), None))
        t.gates[m.group(1)] = (op, k, args)
        t.order.append(m.group(1))
    return t


def structure(t):
    """Gates without the kinds of their arguments."""
    return {n: (op, k, sorted((a, neg) for a, neg, _ in args)) for n, (op, k, args) in t.gates.items()}


def nested(t):
    """What the gates become if negations are written in place."""
    res = {}
    for n, (op, k, args) in t.gates.items():
        out = []
        for a, neg, kind in args:
            if op != "not" and a in t.gates and t.gates[a][0] == "not":
                out.append((t.gates[a][2][0][0], True))
            else:
                out.append((a, neg))
        if op == "null" and out[0][1]:      # a negation instead of the name of its gate
            op, out = "not", [(out[0][0], False)]
        res[n] = (op, k, sorted(out))
    return res


def sound(t, root):
    """Everything is defined once, used, reachable and acyclic."""
    kinds = {"gate": t.gates, "house-event": t.house}
    members = [m for c in t.ccf.values() for m in c[0]]
    need(len(set(members)) == len(members), "an event is in two CCF groups")
    basic = dict(t.probs)
    for m in members:
        need(m not in basic, m, "is a CCF member and defined on its own")
        basic[m] = None
    names = list(t.gates) + list(basic) + list(t.house)
    need(len(set(names)) == len(names), "a name is used twice")
    used = set()
    for n, (op, k, args) in t.gates.items():
        plain = [a[0] for a in args]
        need(len(set(plain)) == len(plain), "gate", n, "has an argument twice")
        for a, neg, kind in args:
            need(a in names, "gate", n, "refers to the undefined", a)
            if kind == "basic-event":
                need(a in basic, a, "is no basic event")
            elif kind in kinds:
                need(a in kinds[kind], a, "is no", kind)
            used.add(a)
    need(root in t.gates, "there is no root gate", root)
    need(set(names) - used == {root}, "not used:", sorted(set(names) - used)[:5])
    state = {}

    def visit(n):
        if n not in t.gates:
            return
        need(state.get(n) != 1, "a cycle at", n)
        if n not in state:
            state[n] = 1
            for a in t.gates[n][2]:
                visit(a[0])
            state[n] = 2
    visit(root)
    need(len(state) == len(t.gates), "gates out of the tree")
    return basic


# ------------------------------------------------------------------ the generator

def option(argv, name, default):
    return argv[argv.index(name) + 1] if name in argv else default


def inspect(text, argv):
    """Compares a generated tree with its parameters."""
    t = read_xml(text)
    need(t.name == option(argv, "--ft-name", "Autogenerated"), "the tree is", t.name)
    basic = sound(t, option(argv, "--root", "root"))
    b = int(option(argv, "-b", 100))
    need(len(basic) == b, len(basic), "basic events instead of", b)
    h = int(option(argv, "--num-house", 0))
    need(len(t.house) == h, len(t.house), "house events instead of", h)
    lo, hi = float(option(argv, "--min-prob", .01)), float(option(argv, "--max-prob", .1))
    for p in list(t.probs.values()) + [c[1] for c in t.ccf.values()]:
        need(lo - 1e-15 <= p <= hi + 1e-15, "a probability", p)
    need(set(t.house.values()) <= {"true", "false"}, "house events", t.house)
    need(len(t.ccf) <= int(option(argv, "--num-ccf", 0)), len(t.ccf), "CCF groups")
    for m, _, f in t.ccf.values():
        need(len(m) >= 2 and [l for l, _ in f] == list(range(2, len(f) + 2)) and 1 <= len(f) < len(m), "a CCF group", m, f)
        need(all(0 < v <= 1 for _, v in f), "factors", f)
    w = [1, 1, 0, 0, 0]
    if "--weights-g" in argv:
        i = argv.index("--weights-g") + 1
        w = []
        while i < len(argv) and not argv[i].startswith("-"):
            w.append(float(argv[i]))
            i += 1
        w += [0] * (5 - len(w))
    for n, (op, k, args) in t.gates.items():
        need(op in OPS and w[OPS.index(op)] > 0, "a gate", op)
        c = len(args)
        need(c == 1 if op == "not" else c == 2 if op == "xor" else c >= 3 if op == "atleast" else c >= 2,
             "gate", n, op, "of", c, "arguments")
        if op == "atleast":
            need(2 <= k < c, "gate", n, "is", k, "of", c)
    top = t.gates[option(argv, "--root", "root")][0]
    need(top not in ("not", "xor"), "the root is", top)
    said = dict((a, float(v)) for a, v in re.findall(r"^(?: {4})?(The number of [a-z ]+|[A-Z/]+ gates): ([0-9.]+)$", text, re.I | re.M))
    real = {"The number of basic events": b, "The number of house events": h, "The number of gates": len(t.gates)}
    for n, o in zip(("AND", "OR", "K/N", "NOT", "XOR"), OPS):
        real[n + " gates"] = sum(g[0] == o for g in t.gates.values())
    for k, v in real.items():
        need(k not in said or said[k] == v, "the summary says", k, said.get(k), "instead of", v)
    return t


def one(argv, changes, out, bound):
    """(status, tree, log); raises Bad."""
    status, text, log = generator.generate(argv, out, changes, bound)
    if status != "ok":
        return status, text, log
    return status, inspect(text, argv), log


def show(argv, changes):
    return " ".join(argv) + (" with %s" % changes if changes else "")


def job(chunk):
    out = os.path.join(mc.scratch(), "g%d.xml" % os.getpid())
    n, stat, bad, shapes = 0, {}, [], set()

    def go(argv, changes, bound):
        nonlocal n
        n += 1
        try:
            status, t, log = one(argv, changes, out, bound)
        except Bad as e:
            bad.append((show(argv, changes), str(e)))
            return "bad", None, generator.INST.log
        stat[status] = stat.get(status, 0) + 1
        if status in ("crashed", "hung"):
            bad.append((show(argv, changes), t or "goes on without an end"))
        if status == "ok":
            shapes.add(hash(repr(sorted(structure(t).items()))))
        return status, t, log

    for argv, depth, extras in chunk:
        status, t, log = go(argv, {}, 60000)
        if status == "abandoned" and promising(argv):
            bad.append((show(argv, {}), "no end after %d random decisions" % len(log)))
        if status != "ok":
            continue
        if extras:
            try:
                st, again, _ = one(argv, {}, out, 60000)
                need(st == "ok", "the same seed once more:", st, again)
                need(structure(again) == structure(t) and again.probs == t.probs and again.ccf == t.ccf,
                     "the same seed gives another tree")
                r = mc.run([exe, out, "--validate"])
                need(r.rc == 0, "scram refuses the tree:", r.err[-300:])
                s, text, _ = generator.generate(argv + ["--nest"], out, {}, 60000)
                need(s == "ok", "with --nest:", text)
                x = read_xml(text)
                need(structure(x) == nested(t), "nested, the gates differ")
                if not t.ccf:
                    s, text, _ = generator.generate(argv + ["--aralia"], out, {}, 60000)
                    need(s == "ok", "with --aralia:", text)
                    y = read_aralia(text)
                    need(structure(y) == structure(t) and y.probs == t.probs and y.house == t.house and y.name == t.name,
                         "in the Aralia format, the tree differs")
                n += 3
            except Bad as e:
                bad.append((show(argv, {}), str(e)))
        # Every single decision replaced by every alternative; the ones behind it follow the seed.
        limit = 20 * len(log) + 2000

        def deviate(changes, log, d):
            start = max(changes) + 1 if changes else 0
            for i in range(start, len(log)):
                if len(bad) > 5:
                    return
                for v in generator.alternatives(log[i]):
                    c = dict(changes)
                    c[i] = v
                    s, _, l = go(argv, c, limit)
                    if d > 1 and s == "ok":
                        deviate(c, l, d - 1)
        if depth and len(log) <= (700 if quick else 30000):
            deviate({}, log, depth)
    return n, stat, bad, shapes


def promising(argv):
    """The random process of the generator surely ends: there are enough events for any gate."""
    return int(option(argv, "-b", 100)) >= 10


def parameters():
    weights = ["1 1", "1 1 1", "0 0 1", "1 1 1 .5 .5", "1 0 0 0 2"]
    for b, a, w, (cb, cg), (pb, pg) in product((4, 10, 24), ("2", "2.5", "3", "4.5"), weights, ((".1", ".1"), (".5", ".3"), (".3", ".9")), ((2, 2), (5, 3))):
        for s in ("1",) if quick else ("1", "2", "3"):
            few = b == 10 and a in ("2", "3") and pb == 2 or b == 4 and a == "2.5"
            depth = int(few or not quick and b < 24 or s == "3")
            yield (["--weights-g"] + w.split() + ["-b", str(b), "-a", a, "--common-b", cb, "--common-g", cg, "--parents-b", str(pb), "--parents-g", str(pg),
                    "--seed", s], depth, True)
    for b, a, w, g in product((10, 40), ("2", "3", "4.5"), weights[:4:3], (1, 4, 10, 20, 40)):
        yield ["--weights-g"] + w.split() + ["-b", str(b), "-a", a, "-g", str(g), "--seed", "5"], 1 if b == 10 else 0, True
    for b, w, h, c in product((4, 12), weights[::3], (1, 3), (1, 2)):
        yield ["--weights-g"] + w.split() + ["-b", str(b), "-a", "2", "--num-house", str(h), "--num-ccf", str(c), "--min-prob", "0", "--max-prob", "1",
               "--ft-name", "tree", "--root", "top"], 1, True
        yield ["--weights-g"] + w.split() + ["-b", str(b), "-a", "2.5", "--num-house", str(h), "--min-prob", "0.5", "--max-prob", "0.5", "--root", "G_0"], 1, True
    for b, a, c in product((6, 9, 13), ("2", "3", "4.5"), (1, 2, 3, 4)):
        if 3 * c <= b:
            yield ["-b", str(b), "-a", a, "--num-ccf", str(c)], 1, True
    for b, w in product((2, 3, 4), weights):        # two decisions at a time
        yield ["--weights-g"] + w.split() + ["-b", str(b), "-a", "2", "--common-b", ".4", "--common-g", ".4", "--num-house", str(b // 2)], 1 if quick else 2, True


REJECTED = [["-b", "0"], ["-a", "1.9"], ["--num-house", "100"], ["--num-house", "-1"], ["--num-ccf", "34"], ["--num-ccf", "-1"], ["--min-prob", "0.5", "--max-prob", "0.4"],
            ["--max-prob", "1.1"], ["--min-prob", "-0.1"], ["--common-b", "0"], ["--common-b", "0.91"], ["--common-g", "0"], ["--common-g", "0.91"],
            ["--parents-b", "1.9"], ["--parents-g", "1.9"], ["--parents-b", "101"], ["--parents-g", "101"], ["--weights-g", "0", "0", "0", "1", "1"],
            ["--weights-g", "0"], ["--weights-g", "1", "1", "1", "1", "1", "1"], ["-g", "-1"], ["-g", "33"]]


# ------------------------------------------------------------------ the writers of models

FAMILIES = ["one4", "three3", "house2x", "mono4"] if quick else ["one4", "three3", "house2x", "mono4", "three4a", "mono5", "mod3"]


def write_job(j):
    """Builds the objects for trees and reads back what they write."""
    fam, chunk = j
    m = generator.load("fault_tree")
    count, bad = 0, []
    for tree in chunk:
        try:
            count += roundtrip(m, tree)
        except Bad as e:
            bad.append((ft.show(tree), str(e)))
        except Exception as e:
            bad.append((ft.show(tree), "%s: %s" % (type(e).__name__, e)))
        if len(bad) > 5:
            break
    return fam, count, bad


def roundtrip(m, tree):
    """Complements become gates of their own; constants stay out."""
    if any(ft.CONST <= r < ft.HOUSE for g in tree for r, _ in g[3]):
        return 0
    if any(g[0] not in OPS + ["null", "nand", "nor"] for g in tree):
        return 0
    obj, ref = {}, Tree()
    events = sorted(ft.used_events(tree))

    def name(r):
        return "e%d" % r if r < ft.G else "g%d" % (r - ft.G) if r < ft.HOUSE else "h%d" % (r - ft.HOUSE)

    def get(r):
        if name(r) not in obj:
            if r < ft.G:
                obj[name(r)] = m.BasicEvent(name(r), 0.25 * (r % 4 + .5))
                ref.probs[name(r)] = 0.25 * (r % 4 + .5)
            elif r < ft.HOUSE:
                obj[name(r)] = m.Gate(name(r), tree[r - ft.G][0], tree[r - ft.G][1] if tree[r - ft.G][0] == "atleast" else None)
            else:
                obj[name(r)] = m.HouseEvent(name(r), "true" if r % 2 else "false")
                ref.house[name(r)] = obj[name(r)].state
        return obj[name(r)]

    for gi, (op, lo, hi, args) in enumerate(tree):
        g = get(ft.G + gi)
        lits = []
        for r, neg in args:
            a = get(r)
            if neg:
                x = "n" + name(r)
                if x not in obj:
                    obj[x] = m.Gate(x, "not")
                    obj[x].add_argument(a)
                    ref.gates[x] = ("not", None, [(name(r), False, None)])
                a = obj[x]
            lits.append((a.name, False, None))
            g.add_argument(a)
        ref.gates["g%d" % gi] = (op, lo if op == "atleast" else None, lits)
    f = m.FaultTree("F")
    f.top_gate = obj["g0"]
    f.gates = [o for o in obj.values() if isinstance(o, m.Gate)]
    f.basic_events = [o for o in obj.values() if isinstance(o, m.BasicEvent)]
    f.house_events = [o for o in obj.values() if isinstance(o, m.HouseEvent)]
    for o in obj.values():
        if o.name != "g0":
            parents = {n for n, g in ref.gates.items() if any(a == o.name for a, _, _ in g[2])}
            need({p.name for p in o.parents} == parents and o.num_parents() == len(parents) and o.is_common() == (len(parents) > 1),
                 "the parents of", o.name)
    up = {"g0"}
    below = {n: {n} for n in ref.gates}
    for _ in ref.gates:
        for n, g in ref.gates.items():
            for a, _, _ in g[2]:
                below[n] |= below.get(a, set())
    for o in f.gates:
        need({x.name for x in o.get_ancestors()} == {n for n in below if o.name in below[n]}, "the ancestors of", o.name)
    n = 0
    for nest in (False, True):
        lines = []
        f.to_xml(lambda *a: lines.append("".join(map(str, a))), nest)
        t = read_xml("\n".join(lines))
        need(structure(t) == (nested(ref) if nest else structure(ref)), "the gates", structure(t))
        need(t.probs == ref.probs and t.house == ref.house and t.name == "F", "the events", t.probs, t.house)
        sorted_below(t.order, ref)
        kinds = {x: "gate" if x in ref.gates else "basic-event" if x in ref.probs else "house-event" for x in obj}
        for _, _, args in t.gates.values():
            need(all(kinds[a] == k for a, _, k in args), "the kinds of arguments")
        n += 1
    if all(g[0] in OPS for g in ref.gates.values()):
        lines = []
        f.to_aralia(lambda *a: lines.append("".join(map(str, a))))
        t = read_aralia("\n".join(lines))
        # a list of one argument has no operator
        want = {g: ("null" if len(x[2]) == 1 and x[0] in ("and", "or", "xor") else x[0], x[1], x[2]) for g, x in ref.gates.items()}
        ref.gates = want
        need(structure(t) == structure(ref), "the gates in the Aralia format", structure(t))
        need(t.probs == ref.probs and t.house == ref.house and t.name == "F", "the events in the Aralia format", t.probs, t.house)
        sorted_below(t.order, ref)
        n += 1
    elif any(g[0] not in OPS for g in ref.gates.values()):
        try:
            f.to_aralia(lambda *a: None)
        except KeyError:
            n += 1
        else:
            raise Bad("the Aralia format has no such operator")
    return n


def sorted_below(order, ref):
    place = {g: i for i, g in enumerate(order)}
    need(set(place) == set(ref.gates), "the gates written are", sorted(place))
    for g, (_, _, args) in ref.gates.items():
        for a, _, _ in args:
            need(a not in place or place[g] < place[a], "gate", a, "is written before its parent", g)


# ------------------------------------------------------------------ queens

def queens(n):
    r = mc.execute([sys.executable, os.path.join(mc.REPO, "scripts", "nqueens.py"), str(n)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    need(r.returncode == 0, r.stderr[-300:])
    t = read_aralia(r.stdout)
    cells = [(i, j) for i in range(1, n + 1) for j in range(1, n + 1)]
    names = {"Qr%dc%d" % c: c for c in cells}
    need(set(t.probs) == set(names) and set(t.probs.values()) == {1.0}, "the events", sorted(t.probs))
    tops = set(t.gates) - {a for g in t.gates.values() for a, _, _ in g[2]}
    need(len(tops) == 1, "tops", sorted(tops))
    top = tops.pop()
    need(set(a for g in t.gates.values() for a, _, _ in g[2]) - set(t.gates) == set(names), "events and arguments differ")

    def value(g, queens, memo):
        if g in names:
            return names[g] in queens
        if g not in memo:
            op, _, args = t.gates[g]
            vals = [value(a, queens, memo) != neg for a, neg, _ in args]
            need(op in ("and", "or", "null"), "an operator", op)
            memo[g] = all(vals) if op == "and" else any(vals)
        return memo[g]

    def placements():
        if n <= 4:
            for bits in product((0, 1), repeat=n * n):
                yield {c for c, b in zip(cells, bits) if b}
            return
        for cols in product(range(1, n + 1), repeat=n):     # a queen in every row, and one more
            q = {(i + 1, c) for i, c in enumerate(cols)}
            yield q
            if n <= 5:
                for c in cells:
                    if c not in q:
                        yield q | {c}
    k = 0
    for q in placements():
        k += 1
        peace = not any(a != b and (a[0] == b[0] or a[1] == b[1] or abs(a[0] - b[0]) == abs(a[1] - b[1])) for a in q for b in q)
        need(value(top, q, {}) == (peace and len(q) == n), "%d queens on" % n, sorted(q))
    return k


# ------------------------------------------------------------------ exploration

DISTINCT = set()
for n, stat, bad, shapes in mc.pmap(job, [[p] for p in parameters()]):
    ck.count("evaluations", n)
    DISTINCT |= shapes
    for k, v in stat.items():
        ck.count("generator runs " + k, v)
    for key, text in bad[:3]:
        ck.violation("generator/" + key, text, {"run": key})
out = os.path.join(mc.scratch(), "g.xml")
for argv in REJECTED:
    status, text, _ = generator.generate(argv, out, {}, 60000)
    ck.count("evaluations")
    ck.count("bad parameters")
    if status != "rejected":
        ck.violation("generator/" + " ".join(argv), "parameters that make no tree must be rejected: %s %s" % (status, (text or "")[:200]), {"run": argv})
for fam, n, bad in mc.pmap(write_job, [(f, list(c)) for f in FAMILIES for c in mc.chunks(families.family(f)[1], 4000)]):
    ck.count("evaluations", n)
    ck.count("documents written: " + fam, n)
    for key, text in bad[:3]:
        ck.violation("writer/" + key, text, {"tree": key})
for n in range(1, 6 if quick else 7):
    try:
        k = queens(n)
        ck.count("evaluations", k)
        ck.count("boards", k)
    except Bad as e:
        ck.violation("queens/%d" % n, str(e), {"queens": n})
ck.count("distinct_nontrivial", len(DISTINCT))
ck.sample({"parameters": " ".join(next(iter(parameters()))[0])})
ck.sample("the same run with its 7th random decision replaced by every alternative")
sys.exit(ck.finish("every random decision of the listed generator runs is replaced by every alternative, one at a time (two at a time for the smallest); every tree of the families is written"))
