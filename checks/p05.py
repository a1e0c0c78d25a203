"""P05: importance factors."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
import common
import ft
import ftcheck
import mc
import scram

T = common.tier()
ck = mc.Check("P05", "exploration", T)
exe = build.build_cli()


def judge_of(ps, approx, primes=False):
    def total(n, tt, terms, q):
        if approx == "exact":
            return ft.prob_of(n, tt, q[:n])
        s, m = 0.0, 1.0
        for mask in terms:
            x = 1.0
            for i in range(n):
                if mask >> i & 1:
                    x *= q[i]
            s += x
            m *= 1 - x
        return min(1.0, s) if approx == "rare" else 1 - m

    def judge(n, t, tt, section):
        e = section("importance")
        mcs = ft.mcs_of(n, tt)
        if primes:
            pr = ft.primes_of(n, tt)
            occ = {v: sum(1 for p, q in pr if (p | q) >> v & 1) for v in range(n)}
        else:
            occ = {v: sum(1 for m in mcs if m >> v & 1) for v in range(n)}
        if e is None:
            return [("missing", "no importance section")]
        out = []
        got = {}
        for b in e:
            if b.tag != "basic-event":
                out.append(("element", "unexpected element %s" % b.tag))
                continue
            if scram.eidx(b.get("name")) in got:
                out.append(("duplicate", "event %s listed twice" % b.get("name")))
            got[scram.eidx(b.get("name"))] = b.attrib
        if sorted(got) != [v for v in range(n) if occ[v]]:
            return out + [("events", "listed %s, events in products %s" % (
                sorted(got), [v for v in range(n) if occ[v]]))]
        if int(e.get("basic-events")) != len(got):
            out.append(("count", "basic-events=%s for %d events" % (
                e.get("basic-events"), len(got))))
        p = total(n, tt, mcs, list(ps))
        for v, a in got.items():
            q1, q0 = list(ps), list(ps)
            q1[v], q0[v] = 1.0, 0.0
            t1, t0 = total(n, tt, mcs, q1), total(n, tt, mcs, q0)
            mif = t1 - t0
            exp = {"MIF": mif}
            if p > 0:
                exp["CIF"] = ps[v] * mif / p
                exp["RAW"] = 1 + (1 - ps[v]) * mif / p
                exp["DIF"] = ps[v] * exp["RAW"]
                if abs(p - ps[v] * mif) > 1e-9:
                    exp["RRW"] = p / (p - ps[v] * mif)
            for k, x in exp.items():
                if not mc.close(float(a[k]), x, rel=2e-5, abs_=2e-6):
                    out.append((k, "%s of e%d: reported %s, expected %.8g (p=%s)" % (
                        k, v, a[k], x, list(ps[:n]))))
            if int(a["occurrence"]) != occ[v]:
                out.append(("occurrence", "occurrence of e%d: reported %s, expected %d" % (
                    v, a["occurrence"], occ[v])))
            if not mc.close(float(a["probability"]), ps[v]):
                out.append(("p", "probability of e%d: %s" % (v, a["probability"])))
        return out
    return judge


HI = ftcheck.PS
LO = (1e-2, 2e-2, 5e-2, 3e-2, 1e-1, 4e-2, 6e-2)
B = ["--bdd", "--importance"]
exact = ["one3c", "one4", "two3k3", "three3", "three2all", "three4a", "five4", "fn3", "mono4",
         "four3", "mod3", "modn"]
other = ["one4", "fn3", "mono4", "three4a", "mod3"]
if T == "thorough":
    exact = ["one3c", "one4", "two3", "two4", "three3", "three3k3", "three2all", "four3", "four3x",
             "three4a", "four4a", "five4", "five5", "fn3", "fn4", "mono4", "mono5", "mod3",
             "modn", "modx", "mod3g"]
    other = ["one4", "fn3", "mono4", "mono5", "three4a", "three3", "mod3", "modn", "two3k3"]
for fam in exact:
    ftcheck.explore(ck, exe, fam, B, judge_of(HI, "exact"), probs=HI)
for fam in other:
    ftcheck.explore(ck, exe, fam, B + ["--prime-implicants"], judge_of(LO, "exact", True), probs=LO)
    for a in ("bdd", "zbdd", "mocus"):
        for approx, flag in (("rare", "--rare-event"), ("mcub", "--mcub")):
            for ps in ((LO,) if T == "quick" else (LO, HI)):
                ftcheck.explore(ck, exe, fam, ["--" + a, "--importance", flag],
                                judge_of(ps, approx), probs=ps)
ck.sample({"tree": "g0=or(e0,e1)", "MIF(e0)": 1 - HI[1]})
sys.exit(ck.finish(
    rule="each fault tree of each listed family with the listed options; oracle: the defining "
         "quotients of the total probability with the event set to certain/impossible; "
         "distinct_nontrivial counts distinct functions summed over the passes"))
