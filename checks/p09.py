#!/usr/bin/env python3
"""P09: uncertainty statistics, with the random numbers replaced by exhaustive scripts."""
import math
import os
import sys
from itertools import product
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
import common
import ft
import mc
import scram

quick = common.tier() != "thorough"
ck = mc.Check("P09", "exploration", common.tier())
exe = build.build_cli()
lib = build.build_shared("scripted")

HEAD = """<opsa-mef>
<define-extern-library name='lib' path='%s'/>
<define-extern-function name='scripted' symbol='scripted' library='lib'><double/><int/><double/></define-extern-function>
""" % lib


def draw(i):
    return ("<extern-function name='scripted'><int value='%d'/><uniform-deviate><float value='0'/>"
            "<float value='1'/></uniform-deviate></extern-function>" % i)


def quantity(name, i):
    return "<define-parameter name='%s'>%s</define-parameter>" % (name, draw(i))


def event(name, x):
    return "<define-basic-event name='%s'>%s</define-basic-event>" % (name, x)


def clamp(x):
    return min(1.0, max(0.0, x))


def run(xml, scripts, args):
    """scripts: [(base, [values])] -> Run, report, draws."""
    import tempfile
    d = tempfile.mkdtemp(dir=mc.scratch())
    sin, sout = os.path.join(d, "in"), os.path.join(d, "out")
    with open(sin, "w") as f:
        for base, v in scripts:
            f.write("%d %r %s\n" % (len(v), base, " ".join("%r" % x for x in v)))
    r, root = scram.run_model(exe, xml, ["--allow-extern", "--uncertainty"] + list(args),
                              env={"SCRIPT_IN": sin, "SCRIPT_OUT": sout})
    draws = [int(x) for x in open(sout)] if os.path.exists(sout) else []
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))
    os.rmdir(d)
    return r, root, draws


def judge(m, xs, bins=None, quantiles=None):
    """Compares one <measure> with the samples xs; returns the list of differences."""
    out = []
    n = len(xs)
    tol = 2e-5

    def num(e, a="value"):
        try:
            return float(e.get(a))
        except (TypeError, ValueError, AttributeError):
            return math.nan

    def same(a, b):
        return abs(a - b) <= tol * max(1.0, abs(b))

    mean = math.fsum(xs) / n
    sd = math.sqrt(math.fsum((x - mean) ** 2 for x in xs) / (n - 1)) if n > 1 else 0.0
    for what, got, exp in (
            ("mean", num(m.find("mean")), mean),
            ("standard deviation", num(m.find("standard-deviation")), sd),
            ("error factor", num(m.find("error-factor")), math.exp(1.96 * sd)),
            ("confidence lower bound", num(m.find("confidence-range"), "lower-bound"),
             mean - 1.96 * sd / math.sqrt(n)),
            ("confidence upper bound", num(m.find("confidence-range"), "upper-bound"),
             mean + 1.96 * sd / math.sqrt(n))):
        if not same(got, exp):
            out.append("%s is %g, expected %.7g" % (what, got, exp))
    # Quantiles: the bound of the quantile p leaves p of the samples below or at it.
    q = m.find("quantiles")
    prev = None
    lst = q.findall("quantile") if q is not None else []
    if quantiles is not None and (len(lst) != quantiles or int(q.get("number")) != quantiles):
        out.append("%d quantiles, expected %d" % (len(lst), quantiles))
    for i, e in enumerate(lst):
        p, lo, up = num(e), num(e, "lower-bound"), num(e, "upper-bound")
        if not same(p, (i + 1) / len(lst)):
            out.append("quantile %d has the level %g" % (i + 1, p))
        below = sum(1 for x in xs if x < up - tol)
        within = sum(1 for x in xs if x <= up + tol)
        if math.isnan(up) or below > p * n + 1e-3 or \
                within < math.floor(p * n + 1e-3):
            out.append("quantile %g is %g: %d samples are below and %d not above it of %d" % (
                p, up, below, within, n))
        if prev is not None and (not same(lo, prev) or up < lo - tol):
            out.append("quantile %d covers [%g, %g] after %g" % (i + 1, lo, up, prev))
        prev = up
    # Histogram: bins of equal width between the extremes, every sample in one bin.
    h = m.find("histogram")
    lst = h.findall("bin") if h is not None else []
    if bins is not None and (len(lst) != bins or int(h.get("number")) != bins):
        out.append("%d bins, expected %d" % (len(lst), bins))
    lo, hi, k, cum = min(xs), max(xs), len(lst), 0.0
    for i, e in enumerate(lst):
        a, b, v = num(e, "lower-bound"), num(e, "upper-bound"), num(e)
        if not same(a, lo + (hi - lo) * i / k) or not same(b, lo + (hi - lo) * (i + 1) / k):
            out.append("bin %d is [%g, %g], expected a %d-th of [%g, %g]" % (i + 1, a, b, k, lo, hi))
        cum += v
        least = sum(1 for x in xs if x < b - tol) if i + 1 < k else n
        most = sum(1 for x in xs if x <= b + tol)
        if not least - 1e-3 * n <= cum * n <= most + 1e-3 * n or not v >= 0:
            out.append("%g of the samples up to bin %d, expected %d..%d of %d" % (
                cum, i + 1, least, most, n))
    return out


def report_bad(what, key, r):
    ck.violation("%s/run:%s" % (what, key), "the analysis failed (exit %d): %s" % (
        r.rc, r.err[:300]), {"what": what, "case": key})


# ------------------------------------------------------------------ statistics of every script

def statistics(n, values, bins, quantiles, what):
    space = list(product(values, repeat=n))
    args = ["--num-trials", str(n), "--num-bins", str(bins), "--num-quantiles", str(quantiles)]

    def job(chunk):
        return one(chunk)

    def one(chunk):
        # The mean that the model declares is unlike any sample.
        scripts = [(0.3125, list(v)) for v in chunk]
        xml = HEAD + "<define-fault-tree name='f'>" + "".join(
            "<define-gate name='g%d'><and><event name='e%d'/><event name='one'/></and></define-gate>"
            % (i, i) for i in range(len(chunk))) + "</define-fault-tree><model-data>" + \
            event("one", "<float value='1'/>") + "".join(
                event("e%d" % i, draw(i)) for i in range(len(chunk))) + "</model-data></opsa-mef>"
        r, root, draws = run(xml, scripts, args)
        if scram.bad_run(r, root):
            if len(chunk) == 1:
                return [(chunk[0], ["the analysis failed (exit %d): %s" % (r.rc, r.err[:300])])]
            mid = len(chunk) // 2
            return one(chunk[:mid]) + one(chunk[mid:])
        ms = scram.results(root, "measure")
        bad = []
        for i, v in enumerate(chunk):
            m = ms.get("g%d" % i)
            diff = ["no measure"] if m is None else judge(m, [clamp(x) for x in v], bins, quantiles)
            if draws[i] != n:
                diff.append("%d draws in %d trials" % (draws[i], n))
            if diff:
                bad.append((v, diff))
        return bad

    ck.count("evaluations", len(space))
    ck.count("scripts_" + what, len(space))
    ck.distinct.update((what, n, bins, quantiles, v) for v in space)
    for bad in mc.pmap(job, list(mc.chunks(iter(space), 250))):
        for v, diff in bad:
            ck.violation("stat:%d/%d/%d/%s" % (n, bins, quantiles, ",".join("%g" % x for x in v)),
                         "samples %s, %d bins, %d quantiles: %s" % (list(v), bins, quantiles,
                                                                     "; ".join(diff[:4])),
                         {"samples": v, "args": args})
    ck.sample("%d trials, %d bins, %d quantiles: every sequence over %s" % (n, bins, quantiles,
                                                                          list(values)))


V6 = (-0.5, 0.0, 0.125, 0.5, 1.0, 1.5)
V4 = (0.0, 0.125, 0.5, 1.0)
V3 = (0.125, 0.25, 0.75)
for n in (1, 2, 3):
    for b, q in ((1, 1), (2, 2), (3, 4), (8, 20), (5, 3)):
        statistics(n, V6, b, q, "small")
for b, q in ((1, 4), (4, 1), (3, 5), (7, 20), (20, 3)):
    statistics(4, V4, b, q, "four")
    statistics(5, V3 if quick else V4, b, q, "five")
statistics(8, (0.125, 0.5), 5, 8, "eight")
statistics(8, (0.125, 0.5), 3, 3, "eight")
statistics(6, V4, 3, 3, "six")
statistics(8, V3, 4, 4, "eight")
if not quick:
    statistics(5, V6, 4, 3, "five")
    statistics(6, V4, 6, 20, "six")
    statistics(7, V4, 3, 5, "seven")
    statistics(9, V3, 5, 7, "nine")
    statistics(12, (0.25, 0.5), 4, 5, "twelve")


def long_scripts(n, bins, quantiles):
    """Every rotation of a ramp, and every place of one outlier in a constant run."""
    scripts = []
    ramp = [round(0.0625 + 0.875 * i / (n - 1), 9) for i in range(n)]
    for s in range(n):
        scripts.append(ramp[s:] + ramp[:s])
        scripts.append((ramp[s:] + ramp[:s])[::-1])
        c = [0.25] * n
        c[s] = 0.75
        scripts.append(c)
        c = [0.25] * n
        c[s] = 0.0625
        scripts.append(c)
    return scripts


def longs(n, bins, quantiles):
    args = ["--num-trials", str(n), "--num-bins", str(bins), "--num-quantiles", str(quantiles)]
    space = long_scripts(n, bins, quantiles)

    def job(chunk):
        xml = HEAD + "<define-fault-tree name='f'>" + "".join(
            "<define-gate name='g%d'><and><event name='e%d'/><event name='one'/></and></define-gate>"
            % (i, i) for i in range(len(chunk))) + "</define-fault-tree><model-data>" + \
            event("one", "<float value='1'/>") + "".join(
                event("e%d" % i, draw(i)) for i in range(len(chunk))) + "</model-data></opsa-mef>"
        r, root, draws = run(xml, [(0.3125, v) for v in chunk], args)
        if scram.bad_run(r, root):
            return [(chunk[0], ["the analysis failed: " + r.err[:300]])]
        ms = scram.results(root, "measure")
        bad = []
        for i, v in enumerate(chunk):
            diff = judge(ms["g%d" % i], v, bins, quantiles)
            if draws[i] != n:
                diff.append("%d draws in %d trials" % (draws[i], n))
            if diff:
                bad.append((v, diff))
        return bad

    ck.count("evaluations", len(space))
    ck.count("scripts_long", len(space))
    for bad in mc.pmap(job, list(mc.chunks(iter(space), 50))):
        for v, diff in bad:
            ck.violation("long:%d/%d/%d/%s" % (n, bins, quantiles, ",".join("%g" % x for x in v)),
                         "%d samples, %d bins, %d quantiles: %s" % (n, bins, quantiles,
                                                                    "; ".join(diff[:4])),
                         {"samples": v, "args": args})


for n in (10, 43, 60) if quick else (9, 10, 20, 42, 43, 44, 60, 100, 137):
    for b, q in ((20, 20), (7, 4)):
        longs(n, b, q)

# ------------------------------------------------------------------ structures and sharing

TIME = 2.0
C = 0.375
NAMES = ["p", "q", "pq", "np", "c", "xp", "tc", "pp"]


def event_values(p, q):
    return [clamp(p), clamp(q), p * q, 1 - p, C, 1 - math.exp(-p * TIME),
            1 - math.exp(-0.25 * TIME), clamp(p)]


DATA = (quantity("P", 0) + quantity("Q", 1) + quantity("R", 2) +
        event("p", "<parameter name='P'/>") + event("q", "<parameter name='Q'/>") +
        event("pq", "<mul><parameter name='P'/><parameter name='Q'/></mul>") +
        event("np", "<sub><float value='1'/><parameter name='P'/></sub>") +
        event("c", "<float value='%r'/>" % C) +
        event("xp", "<exponential><parameter name='P'/><system-mission-time/></exponential>") +
        event("tc", "<exponential><float value='0.25'/><system-mission-time/></exponential>") +
        event("pp", "<parameter name='P'/>"))
TRIALS = [(0.125, 0.5), (0.75, 0.25), (0.0625, 1.0)]
SCRIPTS = [(0.21875, [p for p, _ in TRIALS]), (0.40625, [q for _, q in TRIALS]),
           (0.65625, [0.5, 0.25, 0.125])]
N = len(NAMES)


def structure(space, args, approx, what):
    space = list(space)

    def job(chunk):
        return one(chunk)

    def one(chunk):
        xml = HEAD + "".join(ft.ft_xml(t, "t%d" % i, NAMES.__getitem__)
                             for i, t in chunk) + "<model-data>" + DATA + "</model-data></opsa-mef>"
        r, root, draws = run(xml, SCRIPTS, ["--num-trials", str(len(TRIALS)), "--mission-time",
                                            repr(TIME)] + args)
        if scram.bad_run(r, root):
            if len(chunk) == 1:
                return [(chunk[0][1], ["the analysis failed (exit %d): %s" % (r.rc, r.err[:300])])]
            mid = len(chunk) // 2
            return one(chunk[:mid]) + one(chunk[mid:])
        ms = scram.results(root, "measure")
        bad = []
        for i, t in chunk:
            tt = ft.tree_tt(t, N)
            xs = []
            for p, q in TRIALS:
                ps = event_values(p, q)
                if approx == "exact":
                    xs.append(ft.prob_of(N, tt, ps))
                else:
                    terms = []
                    for m in ft.mcs_of(N, tt):
                        x = 1.0
                        for k in range(N):
                            if m >> k & 1:
                                x *= ps[k]
                        terms.append(x)
                    if approx == "rare":
                        xs.append(min(1.0, sum(terms)))
                    else:
                        xs.append(1 - math.prod(1 - x for x in terms))
            m = ms.get("t%dg0" % i)
            diff = ["no measure"] if m is None else judge(m, xs)
            if diff:
                bad.append((t, diff))
        if any(d % len(TRIALS) for d in draws):
            bad.append((chunk[0][1], ["the draws %s are not whole sets of trials" % draws]))
        return bad

    ck.count("evaluations", len(space))
    ck.count("structures_" + what, len(space))
    for bad in mc.pmap(job, list(mc.chunks(enumerate(space), 300))):
        for t, diff in bad:
            ck.violation("%s:%s" % (what, ft.show(t)), "%s: %s" % (ft.show(t), "; ".join(diff[:4])),
                         {"tree": ft.show(t), "args": args})
    ck.distinct.update((what, ft.show(t)) for t in space)
    ck.sample("%s: %s" % (what, ft.show(space[len(space) // 2])))


single = list(ft.trees(N, 1, 1, 2, ft.ALL, "any", canon=False))
triple = list(ft.trees(N, 1, 3, 3, ft.ALL, "any",
                       canon=False))
structure(single + triple, [], "exact", "exact")
structure(ft.trees(4 if quick else 6, 2, 2, 2, ("and", "xor", "or") if quick else ("and", "or", "xor", "iff"), "any",
                   canon=False), [], "exact", "nested")
coherent = list(ft.trees(N, 1, 2, 3, ("and", "or", "atleast"), "pos", canon=False))
coherent += list(ft.trees(4, 2, 2, 2, ("and", "or"), "pos", canon=False))
for algo in ("--bdd", "--zbdd", "--mocus"):
    structure(coherent, [algo, "--rare-event"], "rare", "rare" + algo[1:])
    structure(coherent, [algo, "--mcub"], "mcub", "mcub" + algo[1:])
structure(coherent, ["--time-step", "0.75"], "exact", "steps")
structure(coherent, ["--importance", "--time-step", "0.5", "--sil"], "exact", "all")

# ------------------------------------------------------------------ common cause and event trees


def fixed(what, xml, target, args, samples, attr="name"):
    r, root, draws = run(HEAD + xml, SCRIPTS, ["--num-trials", "3"] + args)
    ck.count("evaluations")
    if scram.bad_run(r, root):
        report_bad(what, "-", r)
        return
    m = scram.results(root, "measure").get(target)
    diff = ["no measure"] if m is None else judge(m, samples)
    if diff:
        ck.violation("%s" % what, "%s: %s" % (what, "; ".join(diff)), {"xml": HEAD + xml})


def ccf(conn, factor, total):
    # Two members, beta factor: independent parts (1-b)Q and the common part bQ.
    xs = []
    for k in range(3):
        q, b = factor(k), total(k)
        ind, com = (1 - b) * q, b * q
        each = ind * ind if conn == "and" else 1 - (1 - ind) ** 2
        xs.append(1 - (1 - com) * (1 - each))
    return xs


for conn in ("and", "or"):
    for dist, dv in (("<parameter name='P'/>", lambda k: TRIALS[k][0]),
                     ("<float value='0.5'/>", lambda k: 0.5)):
        for fac, fv in (("<parameter name='R'/>", lambda k: SCRIPTS[2][1][k]),
                        ("<parameter name='P'/>", lambda k: TRIALS[k][0]),
                        ("<float value='0.125'/>", lambda k: 0.125)):
            fixed("ccf/%s/%s/%s" % (conn, dist, fac), """<define-CCF-group name='C' model='beta-factor'><members>
<basic-event name='m1'/><basic-event name='m2'/></members><distribution>%s</distribution>
<factor level='2'>%s</factor></define-CCF-group><define-fault-tree name='f'><define-gate name='top'><%s>
<event name='m1'/><event name='m2'/></%s></define-gate></define-fault-tree><model-data>%s</model-data></opsa-mef>""" % (
                dist, fac, conn, conn, DATA), "top", ["--ccf"], ccf(conn, dv, fv))

TREE = """<define-initiating-event name='I' event-tree='T'/><define-event-tree name='T'>
<define-functional-event name='F'/><define-sequence name='S1'/><define-sequence name='S2'/><initial-state>
<fork functional-event='F'><path state='x'>%s<sequence name='S1'/></path><path state='y'>%s<sequence name='S2'/></path></fork>
</initial-state></define-event-tree><define-fault-tree name='f'><define-gate name='top'><or><event name='p'/><event name='q'/></or></define-gate>
</define-fault-tree><model-data>%s</model-data></opsa-mef>"""
gate = "<collect-formula><gate name='top'/></collect-formula>"
expr = "<collect-expression>%s</collect-expression>"
P, Q = ([t[i] for t in TRIALS] for i in (0, 1))
OR = [1 - (1 - p) * (1 - q) for p, q in TRIALS]
R = SCRIPTS[2][1]
half = expr % "<float value='0.5'/>"
for x, other, f in ((gate, gate, lambda k: OR[k]),
                    (expr % "<parameter name='R'/>", half, lambda k: R[k]),
                    (expr % "<parameter name='R'/>" + expr % "<parameter name='P'/>", half,
                     lambda k: R[k] * P[k]),
                    (expr % "<parameter name='P'/>" + half + expr %
                     "<sub><float value='1'/><parameter name='Q'/></sub>",
                     expr % "<parameter name='P'/>", lambda k: 0.5 * P[k] * (1 - Q[k]))):
    xs = [f(k) for k in range(3)]
    fixed("sequence/%s" % x, TREE % (x, other, DATA), "S1", [], xs)
    fixed("sequence2/%s" % x, TREE % (other, x, DATA), "S2", [], xs)

ck.assumptions += [
    "the pseudo-random deviates themselves are judged by P08; here their values are scripted "
    "through an extern function with a deviate argument, so that every sequence is explored",
    "the error factor is the exponential of 1.96 standard deviations, as the tool prints it; its "
    "documentation gives no formula"]
sys.exit(ck.finish(
    rule="every sequence of sampled values up to the stated lengths, for several numbers of bins "
         "and quantiles; every small tree over events that share two random quantities"))
