"""P04: approximated probability and the figures printed per product."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
import common
import ft
import ftcheck
import mc
import scram

T = common.tier()
ck = mc.Check("P04", "exploration", T)
exe = build.build_cli()


def judge_of(ps, approx, primes=False):
    def judge(n, t, tt, section):
        e = section("sum-of-products")
        if e is None or e.get("probability") is None:
            return [("missing", "no probability in the report")]
        out = []

        def expect(kind, what, got, exp):
            if got is None or not mc.close(float(got), exp, rel=1e-5):
                out.append((kind, "%s: reported %s, expected %.8g (p=%s)" % (
                    what, got, exp, list(ps[:n]))))
        terms = ft.primes_of(n, tt) if primes else [(m, 0) for m in ft.mcs_of(n, tt)]
        tp = {}
        for p, q in terms:
            x = 1.0
            for i in range(n):
                if p >> i & 1:
                    x *= ps[i]
                if q >> i & 1:
                    x *= 1 - ps[i]
            tp[(p, q)] = x
        total = sum(tp.values())
        if approx == "exact":
            expect("total", "probability", e.get("probability"), ft.prob_of(n, tt, ps[:n]))
        elif approx == "rare":
            expect("total", "rare-event probability", e.get("probability"), min(1.0, total))
        else:
            m = 1.0
            for x in tp.values():
                m *= 1 - x
            expect("total", "MCUB probability", e.get("probability"), 1 - m)
        prods = scram.products(e, scram.eidx)
        if len(prods) != len(tp) or int(e.get("products")) != len(tp):
            return out + [("count", "%d products listed, products=%s, expected %d" % (
                len(prods), e.get("products"), len(tp)))]
        used = set()
        dist = {}
        for lits, a in prods:
            p = sum(1 << v for v, s in lits if not s)
            q = sum(1 << v for v, s in lits if s)
            used |= set(v for v, _ in lits)
            if (p, q) not in tp:
                return out + [("product", "unexpected product %s" % ftcheck.cubes([(p, q)]))]
            order = max(1, len(lits))
            dist[order] = dist.get(order, 0) + 1
            if int(a["order"]) != order:
                out.append(("order", "order=%s for %s" % (a["order"], ftcheck.cubes([(p, q)]))))
            expect("product-p", "probability of %s" % ftcheck.cubes([(p, q)]),
                   a.get("probability"), tp[(p, q)])
            if total:
                expect("contribution", "contribution of %s" % ftcheck.cubes([(p, q)]),
                       a.get("contribution"), tp[(p, q)] / total)
        if int(e.get("basic-events")) != len(used):
            out.append(("events", "basic-events=%s, products mention %d" % (
                e.get("basic-events"), len(used))))
        if prods:
            exp = " ".join(str(dist.get(k, 0)) for k in range(1, max(dist) + 1))
            if e.get("distribution") != exp:
                out.append(("distribution", "distribution=%r, expected %r" % (
                    e.get("distribution"), exp)))
        elif e.get("distribution") is not None:
            out.append(("distribution", "distribution of no products"))
        return out
    return judge


HI = ftcheck.PS
LO = (1e-3, 2e-2, 5e-4, 3e-3, 1e-2, 4e-2, 6e-3)
runs = []
for a in ("bdd", "zbdd", "mocus"):
    for approx, flag in (("rare", "--rare-event"), ("mcub", "--mcub")):
        runs.append((["--" + a, "--probability", flag], approx, False))
runs.append((["--zbdd", "--probability"], "rare", False))
runs.append((["--mocus", "--probability"], "rare", False))
runs.append((["--bdd", "--probability"], "exact", False))
runs.append((["--bdd", "--prime-implicants", "--probability"], "exact", True))
fams = ["one4", "fn3", "mono4", "three4a", "three3"]
if T == "thorough":
    fams = ["one3c", "one4", "two3", "fn3", "mono4", "mono5", "three4a", "three3", "four3a",
            "five4", "mod3", "modn", "three2all"]
for args, approx, pi in runs:
    for ps in (HI, LO):
        for fam in fams:
            ftcheck.explore(ck, exe, fam, args, judge_of(ps, approx, pi), probs=ps)
ck.sample({"tree": "g0=or(e0,e1)", "rare-event": min(1, HI[0] + HI[1]),
           "mcub": 1 - (1 - HI[0]) * (1 - HI[1])})
sys.exit(ck.finish(
    rule="each fault tree of each listed family with each algorithm and approximation and two "
         "probability vectors; oracle computed from the truth table's minimal cut sets or prime "
         "implicants; distinct_nontrivial counts distinct functions summed over the passes"))
