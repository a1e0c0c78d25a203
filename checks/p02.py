"""P02: the reported prime implicants are exactly the prime implicants."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
import common
import ft
import ftcheck
import mc

T = common.tier()
ck = mc.Check("P02", "exploration", T)
exe = build.build_cli()


def judge_limit(limit):
    def judge(n, t, tt, section):
        exp = sorted((p, q) for p, q in ft.primes_of(n, tt)
                     if bin(p).count("1") + bin(q).count("1") <= limit)
        e = section("sum-of-products")
        if e is None:
            return [("missing", "no sum-of-products in the report")]
        got = ftcheck.got_primes(e)
        if got != exp:
            return [("primes", "reported %s, prime implicants are %s" % (
                ftcheck.cubes(got), ftcheck.cubes(exp)))]
        return []
    return judge


O = ["--bdd", "--prime-implicants"]
fams = ["one3c", "one4", "two3k3", "three3", "three2all", "three4a", "five4", "fn3", "mono4",
        "mod3", "modn"]
limited = [("fn3", 1), ("fn3", 2), ("three3", 1), ("three3", 2), ("mod3", 2), ("modn", 2),
           ("modn", 3), ("one4", 2)]
if T == "thorough":
    fams = ["one3c", "one4", "two3", "two4", "three3", "three3k3", "three2all", "four3", "four3x",
            "three4a", "four4a", "four3a", "five4", "five5", "fn3", "fn4", "mono4", "mono5",
            "mod3", "modn", "modx", "mod3g"]
    limited += [("mod3g", 2), ("mod3g", 3), ("modx", 2), ("modx", 3), ("modn", 1), ("two3", 1),
                ("two3", 2), ("four3", 1), ("four3", 2)]
for fam in fams:
    ftcheck.explore(ck, exe, fam, O, judge_limit(20))
for state in (False, True):
    ftcheck.explore(ck, exe, "house2x" if T == "quick" else "house2", O, judge_limit(20),
                    house=(state,))
for fam, k in limited:
    ftcheck.explore(ck, exe, fam, O + ["--limit-order", str(k)], judge_limit(k))
ck.sample({"tree": "g0=xor(e0,e1)", "prime implicants": ftcheck.cubes([(1, 2), (2, 1)])})
sys.exit(ck.finish(
    rule="each fault tree of each listed family is analysed with the listed options; evaluations "
         "counts (tree, options) pairs, distinct_nontrivial counts distinct Boolean functions "
         "summed over the passes"))
