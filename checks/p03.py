"""P03: the exact top-event probability."""
import os
import sys
from itertools import product
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import aralia
import build
import common
import ft
import ftcheck
import mc

T = common.tier()
ck = mc.Check("P03", "exploration", T)
exe = build.build_cli()


def judge_ps(ps):
    def judge(n, t, tt, section):
        e = section("sum-of-products")
        if e is None or e.get("probability") is None:
            return [("missing", "no probability in the report")]
        got = float(e.get("probability"))
        exp = ft.prob_of(n, tt, ps[:n])
        if not mc.close(got, exp, rel=1e-5):
            return [("probability", "reported %s, exact probability %.10g with p=%s" % (
                e.get("probability"), exp, list(ps[:n])))]
        return []
    return judge


PB = ["--bdd", "--probability"]
PI = ["--bdd", "--prime-implicants", "--probability"]
LO = ["--bdd", "--probability", "--limit-order", "1"]
P1 = ftcheck.PS
P2 = (0.9, 1e-3, 0.5, 0.02, 0.77, 0.3, 0.999)
fams = ["one3c", "one4", "two3k3", "three3", "three2all", "three4a", "five4", "fn3", "mono5",
        "four3", "mod3", "modn"]
pi = ["fn3", "three3", "mod3", "modn"]
if T == "thorough":
    fams = ["one3c", "one4", "two3", "two4", "three3", "three3k3", "three2all", "four3", "four3x",
            "three4a", "four4a", "four3a", "five4", "five5", "fn3", "fn4", "mono4", "mono5",
            "mod3", "modn", "modx", "mod3g"]
    pi = ["fn3", "three3", "two3", "four3", "mod3g", "modx", "three3k3"]
for fam in fams:
    ftcheck.explore(ck, exe, fam, PB, judge_ps(P1), probs=P1)
for fam in pi:
    ftcheck.explore(ck, exe, fam, PI, judge_ps(P2), probs=P2)
for fam in ("fn3", "mono4", "mod3") if T == "quick" else ("fn3", "mono5", "modn", "three3"):
    ftcheck.explore(ck, exe, fam, LO, judge_ps(P2), probs=P2)
for state in (False, True):
    ftcheck.explore(ck, exe, "house2x", PB, judge_ps(P2), probs=P2, house=(state,))
# every assignment of extreme probabilities
for ps in product((0.0, 0.5, 1.0), repeat=3):
    ftcheck.explore(ck, exe, "fn3", PB, judge_ps(ps), probs=ps, label="--bdd --probability p=%s" % (ps,))
    if T == "thorough":
        ftcheck.explore(ck, exe, "three3", PB, judge_ps(ps), probs=ps,
                        label="--bdd --probability p=%s" % (ps,))
if len(ck.violations) <= ftcheck.STOP:
    aralia.compare(ck, exe, aralia.SMALL, [["--bdd", "--probability"]], 2000, need_prob=True)
    if T == "thorough":
        aralia.compare(ck, exe, aralia.LARGE, [["--bdd", "--probability"]], 2000, need_prob=True)
ck.sample({"tree": "g0=xor(e0,e1)", "p": list(P1[:2]), "probability": ft.prob_of(2, 0b0110, P1[:2])})
sys.exit(ck.finish(
    rule="each fault tree of each listed family, with the listed event probabilities; oracle: sum "
         "over all 2^n event states; distinct_nontrivial counts distinct Boolean functions summed "
         "over the passes"))
