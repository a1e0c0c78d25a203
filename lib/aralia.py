"""The shipped Aralia benchmark trees: reference results and scram's results."""
import glob
import os
import sys

import mc
import refdd
import scram

SMALL = """baobab1 baobab2 baobab3 chinese das9201 das9202 das9203 das9204 das9205 das9206 das9207
das9208 das9209 edf9201 edf9205 ftr10 isp9601 isp9602 isp9603 isp9604 isp9605 isp9606 isp9607
""".split()
LARGE = "das9601 edf9206 edfpa15p edfpa15r edfpa14p edfpa15b edfpa15o edfpa15q jbd9601".split()
MAXORDER = 8


def path(name):
    return os.path.join(mc.REPO, "input", "Aralia", name + ".xml")


def reference(name):
    """(names, probability, cut-set counts by order)."""
    m = refdd.Model([path(name)])
    b = refdd.Bdd(m)
    r = b.build(m.tops[0])
    return m.tops[0], b.prob(r), b.counts(r, MAXORDER)


def limit_for(counts, cap):
    """The largest order whose cut sets number at most cap in total."""
    tot, lim = 0, 1
    for k in range(1, MAXORDER + 1):
        tot += counts[k]
        if tot > cap:
            break
        lim = k
    return lim


def job(args):
    """Runs one (name, options, cap): returns comparison data."""
    exe, name, opts, cap, need_prob = args
    top, p, counts = reference(name)
    lim = limit_for(counts, cap)
    opt = list(opts) + ["--limit-order", str(lim)]
    with open(path(name)) as f:
        xml = f.read()
    r, root = scram.run_model(exe, xml, opt, timeout=600)
    bad = []
    n = 0
    if scram.bad_run(r, root):
        bad.append("exit status %s: %s" % (r.rc, r.err[-300:]))
        return name, opt, lim, n, bad
    e = scram.results(root).get(top)
    if e is None:
        bad.append("no sum-of-products for %s" % top)
        return name, opt, lim, n, bad
    got = [0] * (MAXORDER + 1)
    seen = set()
    for lits, _ in scram.products(e, lambda x: x):
        n += 1
        key = frozenset(lits)
        if len(key) != len(lits) or key in seen:
            bad.append("duplicate product or literal %s" % sorted(lits))
            break
        seen.add(key)
        got[min(len(lits), MAXORDER)] += 1
    want = [counts[k] if k <= lim else 0 for k in range(MAXORDER + 1)]
    if got != want:
        bad.append("cut sets by order: got %s, reference %s" % (got, want))
    if need_prob and not mc.close(float(e.get("probability")), p, rel=1e-4):
        bad.append("probability %s, reference %.8g" % (e.get("probability"), p))
    return name, opt, lim, n, bad


def compare(ck, exe, names, optsets, cap, need_prob=False):
    jobs = [(exe, n, o, cap, need_prob) for n in names for o in optsets]
    jobs.sort(key=lambda j: -os.path.getsize(path(j[1])))
    done = []
    for name, opt, lim, n, bad in mc.pmap(job, jobs):
        ck.count("evaluations")
        ck.count("benchmark_runs")
        ck.count("benchmark_products", n)
        done.append("%s<=%d:%d" % (name, lim, n))
        for b in bad:
            ck.violation("aralia/%s/%s" % (name, "".join(opt)),
                         "input/Aralia/%s.xml with %s: %s" % (name, " ".join(opt), b),
                         {"file": "input/Aralia/%s.xml" % name, "command": ["scram"] + opt,
                          "what": b})
    ck.cov.setdefault("benchmarks", []).append(
        {"options": [" ".join(o) for o in optsets], "files": sorted(set(done))[:60]})
