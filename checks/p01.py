"""P01: the reported minimal cut sets are exactly the minimal cut sets."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import aralia
import build
import common
import ft
import ftcheck
import mc

T = common.tier()
ck = mc.Check("P01", "exploration", T)
exe = build.build_cli()


def judge_limit(limit):
    def judge(n, t, tt, section):
        exp = sorted(m for m in ft.mcs_of(n, tt) if bin(m).count("1") <= limit)
        e = section("sum-of-products")
        if e is None:
            return [("missing", "no sum-of-products in the report")]
        got = ftcheck.got_mcs(e)
        if got != exp:
            return [("mcs", "reported %s, minimal cut sets are %s" % (
                ftcheck.sets(got), ftcheck.sets(exp)))]
        ft_n = int(e.get("products"))
        if ft_n != len(exp):
            return [("count", "products=%d, listed %d" % (ft_n, len(exp)))]
        return []
    return judge


fams = ["one3c", "one4", "two3k3", "three3", "three4a", "five4", "fn3", "mono5",
        "mod3", "modn"]
limited = [("mono4", 1), ("mono4", 2), ("mono4", 3), ("mod3", 2), ("mod3", 3), ("fn3", 1),
           ("three3", 1), ("three4a", 2)]
if T == "thorough":
    fams = ["one3c", "one4", "two3", "two4", "three3", "three3k3", "three2all",
            "four3", "four3x", "three4a", "four4a", "four3a", "four5a", "five4", "five5", "six3", "fn3",
            "fn4", "mono4", "mono5", "mod3", "modn", "modx", "mod3g"]
    limited += [("modn", 1), ("modn", 2), ("modn", 3), ("mono5", 2), ("mono5", 3),
                ("five5", 2), ("mod3", 1), ("mod3", 4), ("two3", 1), ("two3", 2)]
for fam in fams:
    for a in ("bdd", "zbdd", "mocus"):
        ftcheck.explore(ck, exe, fam, ["--" + a], judge_limit(20))
for state in (False, True):
    for a in ("bdd", "zbdd", "mocus"):
        ftcheck.explore(ck, exe, "house2x" if T == "quick" else "house2", ["--" + a],
                        judge_limit(20), house=(state,))
for fam, k in limited:
    for a in ("bdd", "zbdd", "mocus"):
        ftcheck.explore(ck, exe, fam, ["--" + a, "--limit-order", str(k)], judge_limit(k))
opts = [["--" + a] for a in ("bdd", "zbdd", "mocus")]
if len(ck.violations) <= ftcheck.STOP:
    aralia.compare(ck, exe, aralia.SMALL, opts, 4000 if T == "quick" else 50000)
    if T == "thorough":
        aralia.compare(ck, exe, aralia.LARGE, opts, 20000)
ck.sample({"tree": "g0=or(g1,g2); g1=or(e0,e1); g2=atleast[2](g3,e2,e3); g3=or(e0,e2)",
           "minimal cut sets": ftcheck.sets([1, 2, 4])})
sys.exit(ck.finish(
    rule="each fault tree of each listed family is analysed by each algorithm with the listed "
         "options; evaluations counts (tree, options) pairs, distinct_nontrivial counts "
         "distinct Boolean functions summed over the passes"))
