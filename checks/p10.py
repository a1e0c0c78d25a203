#!/usr/bin/env python3
"""P10: probability over time and safety integrity levels."""
import math
import os
import sys
from itertools import product
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
import common
import ft
import mc
import scram

quick = common.tier() != "thorough"
ck = mc.Check("P10", "exploration", common.tier())
exe = build.build_cli()

PFD = [0, 1e-5, 1e-4, 1e-3, 1e-2, 1e-1, 1]
PFH = [0, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1]
TM = "<system-mission-time/>"


def num(x):
    return "<float value='%r'/>" % x


def event(name, x):
    return "<define-basic-event name='%s'>%s</define-basic-event>" % (name, x)


def gates(names):
    """One gate per event; an event alone is not a formula with a connective."""
    return "<define-fault-tree name='f'>" + "".join(
        "<define-gate name='g%d'><and><event name='%s'/><event name='one'/></and></define-gate>"
        % (i, n) for i, n in enumerate(names)) + "</define-fault-tree>"


def grid(mission, step):
    n = 0
    pts = []
    while n * step < mission * (1 - 1e-12):
        pts.append(n * step)
        n += 1
    return pts + [mission]


def average(points):
    area = math.fsum((a[1] + b[1]) * (b[0] - a[0]) / 2 for a, b in zip(points, points[1:]))
    return area / (points[-1][0] - points[0][0])


def shares(points, bounds):
    """The share of the time in which the interpolated curve lies in (lower, upper]."""
    res = []
    for i, (lo, up) in enumerate(zip(bounds, bounds[1:])):
        total = 0.0
        for (t0, a), (t1, b) in zip(points, points[1:]):
            if a == b:
                if lo < a <= up or (i == 0 and a == 0):
                    total += t1 - t0
                continue
            a, b = min(a, b), max(a, b)
            total += max(0.0, min(b, up) - max(a, lo)) / (b - a) * (t1 - t0)
        res.append(total / (points[-1][0] - points[0][0]))
    return res


def read(root):
    curves, sil, totals = {}, {}, {}
    for e in root.find("results"):
        n = e.get("name")
        if e.tag == "curve":
            curves.setdefault(n, []).append([(float(x.get("X")), float(x.get("Y"))) for x in e])
        elif e.tag == "safety-integrity-levels":
            sil.setdefault(n, []).append(e)
        elif e.tag == "sum-of-products":
            totals[n] = float(e.get("probability"))
    return curves, sil, totals


def same(a, b, rel=2e-5):
    return abs(a - b) <= rel * max(abs(a), abs(b)) + 1e-300


def judge_curve(curve, want):
    """The differences of a reported curve from [(time, probability)]."""
    got = list(curve)
    # A mission time that is a multiple of the step up to rounding may appear twice.
    if len(got) == len(want) + 1 and same(got[-2][0], got[-1][0]):
        del got[-2]
    if len(got) != len(want):
        return ["%d points, expected %d: %s" % (len(got), len(want), got[:6])]
    out = []
    for (x, y), (t, p) in zip(got, want):
        if not same(x, t):
            out.append("a point at %g, expected %g" % (x, t))
        if not same(y, p):
            out.append("%g at the time %g, expected %.7g" % (y, t, p))
    return out


def judge_sil(e, points):
    out = []
    hourly = [(t, p / t if t else 0.0) for t, p in points]
    if len(points) == 1:
        p = points[0][1]
        one = [1.0 if lo < p <= up or (i == 0 and p == 0) else 0.0
               for i, (lo, up) in enumerate(zip(PFD, PFD[1:]))]
        want = (p, 0.0, one, [1.0] + [0.0] * 5)
    else:
        want = (average(points), average(hourly), shares(points, PFD), shares(hourly, PFH))
    for a, w in (("PFD-avg", want[0]), ("PFH-avg", want[1])):
        if not same(float(e.get(a)), w):
            out.append("%s is %s, expected %.7g" % (a, e.get(a), w))
    for h, bounds, w, curve in zip(e.findall("histogram"), (PFD, PFH), want[2:], (points, hourly)):
        v = [float(b.get("value")) for b in h]
        lim = [(float(b.get("lower-bound")), float(b.get("upper-bound"))) for b in h]
        if lim != list(zip(map(float, bounds), map(float, bounds[1:]))):
            out.append("the bands are %s" % (lim,))
            continue
        # The share of a band is as exact as the differences of the probabilities.
        if any(not abs(x - y) < 1e-4 for x, y in zip(v, w)):
            out.append("the shares of the bands are %s, expected %s" % (
                v, ["%.5g" % x for x in w]))
        if max(p for _, p in curve) <= 1 and abs(sum(v) - 1) > 1e-4:
            out.append("the shares add up to %g" % sum(v))
    if len(e.findall("histogram")) != 2:
        out.append("%d histograms" % len(e.findall("histogram")))
    return out


# ------------------------------------------------------------------ arbitrary curves and SIL

def steps(values, times):
    """An expression of the mission time with the given value at every time of the grid."""
    x = "<switch>"
    for v, a, b in zip(values, times, times[1:]):
        x += "<case><lt>%s%s</lt>%s</case>" % (TM, num((a + b) / 2), num(v))
    return x + num(values[-1]) + "</switch>"


def curves(values, mission, step, what, extra=()):
    times = grid(mission, step)
    space = list(product(values, repeat=len(times)))
    args = ["--sil", "--mission-time", repr(mission), "--time-step", repr(step)] + list(extra)

    def one(chunk):
        m = "<opsa-mef>" + gates(["e%d" % i for i in range(len(chunk))]) + "<model-data>" + \
            event("one", num(1.0)) + "".join(event("e%d" % i, steps(v, times))
                                             for i, v in enumerate(chunk)) + "</model-data></opsa-mef>"
        r, root = scram.run_model(exe, m, args)
        if scram.bad_run(r, root):
            if len(chunk) == 1:
                return [(chunk[0], ["the analysis failed (exit %d): %s" % (r.rc, r.err[:300])])]
            mid = len(chunk) // 2
            return one(chunk[:mid]) + one(chunk[mid:])
        cs, sil, totals = read(root)
        bad = []
        for i, v in enumerate(chunk):
            pts = list(zip(times, v))
            c, s = cs.get("g%d" % i, []), sil.get("g%d" % i, [])
            diff = ["%d curves" % len(c)] if len(c) != 1 else judge_curve(c[0], pts)
            diff += ["%d SIL records" % len(s)] if len(s) != 1 else judge_sil(s[0], pts)
            if not same(totals["g%d" % i], v[-1]):
                diff.append("the probability is %g after the curve, expected %g" % (
                    totals["g%d" % i], v[-1]))
            if diff:
                bad.append((v, diff))
        return bad

    ck.count("evaluations", len(space))
    ck.count("curves", len(space))
    ck.distinct.update((what, mission, step, v) for v in space)
    for bad in mc.pmap(one, list(mc.chunks(iter(space), 150))):
        for v, diff in bad:
            ck.violation("curve:%r/%r/%s" % (mission, step, ",".join("%g" % x for x in v)),
                         "probabilities %s at the times %s: %s" % (list(v), times,
                                                                   "; ".join(diff[:4])),
                         {"values": v, "times": times, "args": args})
    ck.sample("%s: every curve over %s at %s" % (what, list(values), times))


BANDS = (0.0, 1e-5, 3e-5, 1e-4, 1e-3, 5e-3, 1e-2, 0.1, 0.4, 1.0)
FEW = (0.0, 2e-6, 1e-4, 2e-2, 0.1, 1.0)
curves(BANDS, 3.0, 2.0, "three points")
curves(FEW, 1000.0, 300.0, "five points")
curves(BANDS, 10.0, 4.0, "four points")
curves((1e-9, 1e-8, 4e-6, 1e-5, 1e-3, 0.2), 100.0, 40.0, "hourly bands")
curves((1e-7, 1e-6, 1e-5, 1e-4, 1e-3), 100.0, 50.0, "hourly boundaries")
curves(BANDS, 4.0, 4.0, "two points")
curves(BANDS, 4.0, 7.0, "a step beyond the mission time")
curves(BANDS, 0.0, 7.0, "no mission time")
curves(BANDS, 0.5, 0.25, "fractions of an hour")
if not quick:
    curves(FEW, 10.0, 2.0, "six points")
    curves((1e-9, 1e-8, 4e-6, 1e-5, 1e-3, 0.2), 100.0, 20.0, "hourly bands")

# ------------------------------------------------------------------ trees, options and grids

EXPR = {
    "x": ("<exponential>%s%s</exponential>" % (num(0.05), TM), lambda t: 1 - math.exp(-0.05 * t)),
    "w": ("<Weibull>%s%s%s%s</Weibull>" % (num(9.0), num(2.0), num(1.0), TM),
          lambda t: 1 - math.exp(-(((t - 1) / 9.0) ** 2)) if t > 1 else 0.0),
    "c": (num(0.125), lambda t: 0.125),
    "q": ("<sub>%s<div>%s<add>%s%s</add></div></sub>" % (num(1.0), num(10.0), TM, num(10.0)), lambda t: t / (t + 10)),
}
ENAMES = list(EXPR)


def trees_space():
    yield from ft.trees(4, 1, 2, 3, ("and", "or", "xor", "atleast", "nand", "iff"), "any",
                        canon=False)
    yield from ft.trees(3, 2, 2, 2, ("and", "or"), "any", canon=False)
    if not quick:
        yield from ft.trees(4, 2, 2, 3, ("and", "or"), "pos", canon=False)


def trees(space, mission, step, args, approx):
    space = list(space)
    times = grid(mission, step)

    def one(chunk):
        m = "<opsa-mef>" + "".join(ft.ft_xml(t, "t%d" % i, ENAMES.__getitem__) for i, t in chunk) + \
            "<model-data>" + "".join(event(n, x[0]) for n, x in EXPR.items()) + \
            "</model-data></opsa-mef>"
        r, root = scram.run_model(exe, m, ["--probability", "--mission-time", repr(mission),
                                           "--time-step", repr(step)] + args)
        if scram.bad_run(r, root):
            if len(chunk) == 1:
                return [(chunk[0][1], ["the analysis failed (exit %d): %s" % (r.rc, r.err[:300])])]
            mid = len(chunk) // 2
            return one(chunk[:mid]) + one(chunk[mid:])
        cs, sil, totals = read(root)
        bad = []
        for i, t in chunk:
            tt = ft.tree_tt(t, 4)
            pts = []
            for x in times:
                ps = [EXPR[n][1](x) for n in ENAMES]
                if approx == "exact":
                    pts.append((x, min(1.0, round(ft.prob_of(4, tt, ps), 14))))
                else:
                    terms = [math.prod(ps[k] for k in range(4) if m >> k & 1)
                             for m in ft.mcs_of(4, tt)]
                    pts.append((x, min(1.0, sum(terms)) if approx == "rare" else
                                1 - math.prod(1 - y for y in terms)))
            name = "t%dg0" % i
            c, s = cs.get(name, []), sil.get(name, [])
            diff = ["%d curves" % len(c)] if len(c) != 1 else judge_curve(c[0], pts)
            if "--sil" in args:
                diff += ["%d SIL records" % len(s)] if len(s) != 1 else judge_sil(s[0], pts)
            elif s:
                diff.append("SIL without a request")
            if not same(totals[name], pts[-1][1]):
                diff.append("the total is %g, expected %g" % (totals[name], pts[-1][1]))
            if diff:
                bad.append((t, diff))
        return bad

    ck.count("evaluations", len(space))
    ck.count("trees", len(space))
    for bad in mc.pmap(one, list(mc.chunks(enumerate(space), 150))):
        for t, diff in bad:
            ck.violation("tree:%r/%r/%s:%s" % (mission, step, "".join(args), ft.show(t)),
                         "%s at %r/%r with %s: %s" % (ft.show(t), mission, step, args,
                                                      "; ".join(diff[:4])),
                         {"tree": ft.show(t), "mission": mission, "step": step, "args": args})
    ck.distinct.update((mission, step, tuple(args), t) for t in space)


mono = list(ft.trees(4, 1, 2, 3, ("and", "or", "atleast"), "pos", canon=False)) + \
    list(ft.trees(4, 2, 2, 2, ("and", "or"), "pos", canon=False))
allt = list(trees_space())
trees(allt, 8.0, 3.0, ["--bdd", "--sil"], "exact")
trees(allt, 6.0, 2.0, ["--bdd", "--importance"], "exact")
for algo in ("--bdd", "--zbdd", "--mocus"):
    trees(mono, 8.0, 2.5, [algo, "--rare-event", "--sil"], "rare")
    trees(mono, 8.0, 2.5, [algo, "--mcub", "--importance"], "mcub")
GRIDS = [(m, s) for m in (0.0, 0.1, 0.3, 0.7, 1.0, 2.5, 7.0, 8.0, 1000.0, 8760.0)
         for s in (0.1, 0.25, 0.3, 1.0, 2.0, 3.5, 8.0, 100.0, 10000.0) if m / s <= 300]
few = mono[:4] + mono[-4:]
for m, s in GRIDS:
    trees(few, m, s, ["--sil"], "exact")
ck.count("grids", len(GRIDS))

# ------------------------------------------------------------------ pointwise agreement

KINDS = [
    "<GLM>%s%s%s%s</GLM>" % (num(0.1), num(0.01), num(0.2), TM),
    "<periodic-test>%s%s%s%s</periodic-test>" % (num(0.01), num(4.0), num(1.0), TM),
    "<periodic-test>%s%s%s%s%s</periodic-test>" % (num(0.01), num(0.2), num(4.0), num(1.0), TM),
    "<Weibull>%s%s%s%s</Weibull>" % (num(3.0), num(0.7), num(2.0), TM),
    "<ite><gt>%s%s</gt>%s%s</ite>" % (TM, num(4.0), num(0.5), num(0.25)),
    "<exponential><parameter name='L'/>%s</exponential>" % TM,
    "<exponential><uniform-deviate>%s%s</uniform-deviate>%s</exponential>" % (num(0.1), num(0.3), TM),
    "<exponential><parameter name='LT'/>%s</exponential>" % TM,
    "<min><parameter name='LT'/>%s</min>" % num(0.5),
    "<periodic-test>%s</periodic-test>" % "".join(
        [num(x) for x in (0.05, 0.06, 0.2, 5.0, 1.0, 0.5, 0.75, 0.125)] +
        ["<bool value='true'/>", num(0.9), TM]),
]


def pointwise(mission, step):
    data = ("<define-parameter name='L'>%s</define-parameter><define-parameter name='LT'><mul>"
            "%s%s</mul></define-parameter>" % (num(0.02), TM, num(0.01))) + event("one", num(1.0)) + \
        "".join(event("k%d" % i, x) for i, x in enumerate(KINDS))
    pairs = [(a, b) for a in range(len(KINDS)) for b in range(a)]
    m = "<opsa-mef>" + gates(["k%d" % i for i in range(len(KINDS))])[:-len("</define-fault-tree>")] + \
        "".join("<define-gate name='p%d'><or><event name='k%d'/><event name='k%d'/></or></define-gate>"
                % (i, a, b) for i, (a, b) in enumerate(pairs)) + \
        "</define-fault-tree><model-data>" + data + "</model-data></opsa-mef>"
    times = grid(mission, step)
    r, root = scram.run_model(exe, m, ["--probability", "--mission-time", repr(mission),
                                       "--time-step", repr(step)])
    ck.count("evaluations", len(times))
    if scram.bad_run(r, root):
        ck.violation("pointwise/run", "the analysis failed: " + r.err[:300], {"xml": m})
        return
    cs, _, _ = read(root)

    def at(t):
        r, root = scram.run_model(exe, m, ["--probability", "--mission-time", repr(t)])
        return t, None if scram.bad_run(r, root) else read(root)[2]

    points = {}
    for t, totals in mc.pmap(at, times):
        if totals is None:
            ck.violation("pointwise/run@%r" % t, "the analysis at the time %r failed" % t, {"xml": m})
            return
        points[t] = totals
    for name in points[mission]:
        diff = judge_curve(cs[name][0], [(t, points[t][name]) for t in times])
        ck.count("pointwise_curves")
        if diff:
            ck.violation("pointwise:%s" % name, "%s: %s" % (name, "; ".join(diff[:3])),
                         {"gate": name, "mission": mission, "step": step, "xml": m})


pointwise(20.0, 1.0)
pointwise(11.0, 0.75)
if not quick:
    pointwise(100.0, 1.0)

ck.assumptions += [
    "between two points of the curve the probability is taken as linear, as the tool does",
    "the hourly frequency is the probability over the time, zero at the start",
    "a share is compared with an absolute tolerance of 1e-4; shares must add up to one only while "
    "the curve stays in the bands (the hourly frequency may exceed 1 in the first hour)"]
sys.exit(ck.finish(
    rule="every curve over a set of band values and boundaries at every grid point, every small "
         "tree over time-dependent events, every pair of the listed mission times and steps"))
