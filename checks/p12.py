#!/usr/bin/env python3
"""P12: phases of alignments, by exhaustive enumeration of instructions, fractions and orders."""
import math
import os
import sys
from itertools import permutations, product
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
import common
import mc
import scram

quick = common.tier() != "thorough"
ck = mc.Check("P12", "exploration", common.tier())
exe = build.build_cli()

RATE = {"a": 0.1, "b": 0.03, "c": 0.007, "d": 0.2}
HOUSES = {"h1": False, "h2": True}
TIME = 8.0
SETS = [(h, s) for h in HOUSES for s in (True, False)]

MODEL = """<opsa-mef>%s
<define-initiating-event name='I' event-tree='T'/>
<define-event-tree name='T'><define-functional-event name='F'/><define-sequence name='S1'/><define-sequence name='S2'/>
<initial-state><fork functional-event='F'><path state='x'><collect-formula><gate name='g'/></collect-formula><sequence name='S1'/></path>
<path state='y'><set-house-event name='h1'><constant value='true'/></set-house-event><collect-formula><gate name='g'/></collect-formula>
<set-house-event name='h2'><constant value='false'/></set-house-event><collect-formula><gate name='g'/></collect-formula><sequence name='S2'/></path></fork></initial-state></define-event-tree>
<define-fault-tree name='ft'>
<define-gate name='top'><or><gate name='g'/><gate name='k'/></or></define-gate>
<define-gate name='g'><or><gate name='g1'/><event name='c'/></or></define-gate>
<define-gate name='g1'><and><event name='h1'/><event name='a'/></and></define-gate>
<define-gate name='k'><and><not><event name='h2'/></not><event name='b'/></and></define-gate>
</define-fault-tree>
<define-fault-tree name='fu'><define-gate name='alone'><and><event name='d'/><event name='h2'/></and></define-gate></define-fault-tree>
<model-data>%s%s</model-data></opsa-mef>"""


def p(event, t):
    return 1 - math.exp(-RATE[event] * t)


def values(h, t):
    """Results of the phase with the house events h and the mission time t."""
    def orp(*xs):
        q = 1.0
        for x in xs:
            q *= 1 - x
        return 1 - q

    def g(h1):
        return orp(p("a", t) if h1 else 0.0, p("c", t))

    return {"top": orp(p("a", t) if h["h1"] else 0.0, p("c", t), 0.0 if h["h2"] else p("b", t)),
            "alone": p("d", t) if h["h2"] else 0.0,
            "S1": g(h["h1"]), "S2": g(True)}


def phase_xml(name, fraction, sets):
    return "<define-phase name='%s' time-fraction='%r'>%s</define-phase>" % (
        name, fraction, "".join(
            "<set-house-event name='%s'><constant value='%s'/></set-house-event>" % (
                h, str(s).lower()) for h, s in sets))


def render(cases):
    al = "".join("<define-alignment name='A%d'>%s</define-alignment>" % (
        k, "".join(phase_xml("P%d" % i, f, s) for i, (f, s) in enumerate(phases)))
        for k, phases in cases)
    data = "".join("<define-basic-event name='%s'><exponential><float value='%r'/>"
                   "<system-mission-time/></exponential></define-basic-event>" % kv
                   for kv in RATE.items())
    houses = "".join("<define-house-event name='%s'><constant value='%s'/></define-house-event>" % (
        n, str(v).lower()) for n, v in HOUSES.items())
    return MODEL % (al, data, houses)


def show(phases):
    return "; ".join("%g[%s]" % (f, ",".join("%s=%d" % x for x in s)) for f, s in phases)


def compare(cases, root, step):
    out, n = [], 0
    res, curve, ie = {}, {}, {}
    products, importance = {}, {}
    for e in root.find("results"):
        key = (e.get("alignment"), e.get("phase"), e.get("name"))
        if e.tag == "sum-of-products":
            res.setdefault(key, []).append(float(e.get("probability")))
            products[key] = [([("~" + l[0].get("name")) if l.tag == "not" else l.get("name")
                               for l in x], float(x.get("probability"))) for x in e]
        elif e.tag == "importance":
            importance[key] = [(x.get("name"), float(x.get("probability"))) for x in e]
        elif e.tag == "curve":
            curve.setdefault(key, []).append([(float(x.get("X")), float(x.get("Y"))) for x in e])
        elif e.tag == "initiating-event":
            for s in e:
                ie.setdefault(key[:2] + (s.get("name"),), []).append(float(s.get("value")))
    expected = 0
    for k, phases in cases:
        for i, (f, sets) in enumerate(phases):
            h = dict(HOUSES)
            for name, s in sets:
                h[name] = s
            t = f * TIME
            for name, want in values(h, t).items():
                n += 1
                expected += 1
                key = ("A%d" % k, "P%d" % i, name)
                got = res.get(key, [])
                if len(got) != 1 or not mc.close(got[0], want):
                    out.append((phases, "phase %d: %s is %s, expected %.6g" % (i, name, got, want)))
                if name[0] == "S" and (len(ie.get(key, [])) != 1 or
                                       not mc.close(ie[key][0], want)):
                    out.append((phases, "phase %d: sequence value %s is %s, expected %.6g" % (
                        i, name, ie.get(key), want)))
                for lits, q in products.get(key, []):
                    exp = 1.0
                    for x in lits:
                        exp *= 1 - p(x[1:], t) if x[0] == "~" else p(x, t)
                    if not mc.close(q, exp):
                        out.append((phases, "phase %d: the product %s of %s has the probability "
                                            "%g, expected %.6g" % (i, lits, name, q, exp)))
                for x, q in importance.get(key, []):
                    if not mc.close(q, p(x, t)):
                        out.append((phases, "phase %d: the importance of %s in %s states the "
                                            "probability %g, expected %.6g" % (
                                                i, x, name, q, p(x, t))))
                if step:
                    c = curve.get(key, [[]])[0]
                    bad = [(x, y) for x, y in c if not mc.close(y, values(h, x)[name], 1e-4)]
                    if len(c) < 2 or not mc.close(c[-1][0], t) or bad:
                        out.append((phases, "phase %d: the curve of %s ends at %s, expected %g, and "
                                            "differs at %s" % (i, name, c[-1:], t, bad[:2])))
    if len(res) != expected:
        out.append((cases[0][1], "%d results in the report, expected %d" % (len(res), expected)))
    return n, out


def explore(space, what, extra=()):
    space = list(enumerate(space))
    step = "--time-step" in extra

    def job(chunk):
        bad, res, n = [], [], 0
        for cases, root in scram.run_trees(
                exe, chunk, ["--bdd", "--probability", "--mission-time", "%r" % TIME] + list(extra),
                render, lambda c, r: bad.append((c, r)), "al"):
            m, out = compare(cases, root, step)
            n += m
            res += out
        for c, r in bad:
            res.append((c[1], "exit status %s: %s" % (r.rc, r.err.strip()[-300:])))
        return n, len(chunk), [(show(ph), t, render(chunk)) for ph, t in res]

    tot = [0, 0]
    for n, c, out in mc.pmap(job, list(mc.chunks(space, 12))):
        tot[0] += n
        tot[1] += c
        for name, t, m in out:
            ck.violation("phases/" + name, "alignment %s: %s" % (name, t), {
                "model": m, "options": "--bdd --probability --mission-time %r %s" % (
                    TIME, " ".join(extra)), "what": t})
    ck.count("evaluations", tot[0])
    ck.count("alignments", tot[1])
    ck.cov.setdefault("spaces", []).append({"what": what, "alignments": tot[1], "results": tot[0]})


def setlists(n):
    for k in range(n + 1):
        yield from product(SETS, repeat=k)


TWO = list(setlists(2))
ONE = list(setlists(1))


def single():
    for s in setlists(3 if quick else 4):
        yield ((1.0, s),)


def double():
    for s, t in product(TWO, repeat=2):
        yield ((0.25, s), (0.75, t))


def triple():
    lists = ONE + [(SETS[0], SETS[1]), (SETS[1], SETS[0]), (SETS[3], SETS[2]), (SETS[0], SETS[3])]
    if not quick:
        lists = TWO
    for a, b, c in product(lists, repeat=3):
        yield ((0.5, a), (0.125, b), (0.375, c))


def orders():
    """The same four phases in every order."""
    ph = [(0.1, ((SETS[0]),)), (0.2, (SETS[3],)), (0.3, ()), (0.4, (SETS[0], SETS[3], SETS[1]))]
    for o in permutations(ph):
        yield tuple(o)


explore(single(), "one phase: all sequences of instructions")
explore(double(), "two phases with up to two instructions each")
explore(triple(), "three phases")
explore(orders(), "all orders of four phases")
explore((((0.25, s), (0.75, t)) for s, t in product(ONE, repeat=2)),
        "two phases, probability over time", ("--time-step", "1.5"))
explore((((0.25, s), (0.75, t)) for s, t in product(ONE, repeat=2)),
        "two phases, importance, uncertainty and integrity levels",
        ("--time-step", "1.5", "--sil", "--importance", "--uncertainty", "--num-trials", "5"))


def fractions():
    """Accepted iff every fraction is in (0, 1] and they sum to one."""
    A = [0.0, -0.25, 0.25, 0.5, 0.75, 1.0, 1.25, 0.25005, 0.2501, 0.4, 1e-5, 2.0]
    for n in (1, 2, 3):
        for fs in product(A if n < 3 or not quick else A[1:7], repeat=n):
            s = sum(fs)
            inside = all(0 < f <= 1 for f in fs)
            if inside and 0.5e-4 < abs(s - 1) < 2e-4:
                continue                # the documented tolerance is not pinned down
            yield fs, inside and abs(s - 1) <= 1e-4


def explore_fractions():
    def job(item):
        fs, ok = item
        m = render([(0, tuple((f, ()) for f in fs))])
        r, root = scram.run_model(exe, m, ["--bdd", "--probability", "--mission-time", "8"], "fr")
        if ok == (r.rc == 0 and root is not None) and not r.crashed:
            return None
        return fs, ok, "exit status %s: %s" % (r.rc, r.err[-200:]), m

    n = 0
    for res in mc.pmap(job, list(fractions())):
        n += 1
        if res:
            fs, ok, what, m = res
            ck.violation("fractions/%s" % (fs,), "fractions %s must be %s: %s" % (
                fs, "accepted" if ok else "rejected", what), {"model": m, "what": what})
    ck.count("evaluations", n)
    ck.count("fraction_vectors", n)


explore_fractions()
ck.count("distinct_nontrivial", ck.cov["alignments"])
ck.sample({"alignment": show(((0.25, TWO[7]), (0.75, TWO[3])))})
sys.exit(ck.finish(rule="alignments share one model (12 per run), each result is compared with the "
                        "closed form for its own house events and mission time"))
