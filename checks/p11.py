#!/usr/bin/env python3
"""P11: sequences of event trees, by exhaustive enumeration of small event trees."""
import os
import sys
from itertools import product
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
import common
import etree
import mc
import scram

quick = common.tier() != "thorough"
ck = mc.Check("P11", "exploration", common.tier())
exe = build.build_cli()


def tree(init, seqs=None, brs=None, fe=("f1", "f2")):
    return dict(fe=list(fe), seqs={"S1": (), **(seqs or {})}, brs=brs or {}, init=init)


def seqs_of(*xs):
    return {"S%d" % (i + 1): x for i, x in enumerate(xs)}


CF = [("cf", f) for f in etree.FORMULAS]
SET = [("set", "h1", True), ("set", "h1", False), ("set", "h2", False), ("set", "h2", True)]
F1X, F1Y, F2X = ("fe", "f1", "x"), ("fe", "f1", "y"), ("fe", "f2", "x")
S1, S2 = ("seq", "S1"), ("seq", "S2")


def upto(alphabet, n):
    for k in range(n + 1):
        yield from product(alphabet, repeat=k)


def straight():
    """One path: every sequence of instructions split between the branch and the sequence."""
    small = [("cf", f) for f in ("a", "nb", "GH", "GN", "h1", "mix")] + SET
    full = CF + SET + [("block", ()), ("block", (SET[0], ("cf", "GH"))),
                       ("rule", (SET[2], ("cf", "GN"))), ("rule", (("cf", "c"),)),
                       ("block", (("rule", (SET[0],)), ("block", (("cf", "mix"),))))]
    for ins in upto(full, 2):
        for s in upto(full, 1 if quick else 1):
            yield {"T": tree((ins, S1), seqs_of(s))}, [("I", "T")]
    for ins in upto(small, 3 if quick else 4):
        yield {"T": tree((ins[:-1], S1), seqs_of(ins[-1:]))}, [("I", "T")]


def conditions():
    """if-then-else with every condition; two initiating events share the tree."""
    base = [("ie", "I"), ("ie", "J"), F1X, F1Y, ("fe", "f1", "z"), F2X, ("num", 1), ("num", 0),
            ("num", 0.5), ("num", -2)]
    conds = base + [("not", c) for c in base[:4]] + [
        (op, c, d) for op in ("and", "or") for c, d in product(base[:3], base[:4]) if c != d]
    arms = [(("cf", "a"), None), (("cf", "a"), ("cf", "c")), (SET[0], SET[2]),
            (("block", (SET[0], ("cf", "GH"))), ("rule", (("cf", "nb"),))),
            (("if", F1X, ("cf", "a"), None), ("if", ("ie", "J"), ("cf", "c"), ("cf", "nb")))]
    two = [("I", "T"), ("J", "T")]
    for c in conds:
        for t, e in arms:
            i = ("if", c, t, e)
            yield {"T": tree(((i, ("cf", "GH")), S1))}, two
            yield {"T": tree(((), ("fork", "f1", (("x", ((i,), S1)), ("y", ((("cf", "GH"),), S2))))),
                             seqs_of((), (i,)))}, two
            yield {"T": tree(((), ("fork", "f1", (("x", ((), S1)), ("y", ((), S1))))),
                             seqs_of((("cf", "b2") if 0 else ("cf", "GH"), i)))}, two
            yield {"T": tree(((), ("fork", "f1", (
                ("x", ((), ("fork", "f2", (("x", ((), S1)), ("y", ((), S2)))))),
                ("y", ((), ("fork", "f2", (("x", ((), S2)), ("y", ((i,), S1)))))),
            ))), seqs_of((i, ("cf", "GH")), (("cf", "c"),)))}, two


def forks():
    """Two paths with every instruction, initial instructions, targets and sequences."""
    if quick:
        A = [(), (("cf", "a"),), (("cf", "GH"),), (SET[0],), (SET[2],), (("cf", "nb"),),
             (SET[0], ("cf", "GH"))]
        I0 = [(), (SET[0],), (("cf", "c"),)]
        Q = [(), (("cf", "GH"),), (("if", F1X, ("cf", "mix"), None),)]
    else:
        A = [()] + [(x,) for x in CF if x[1] not in ("true", "xor")] + [(s,) for s in SET] + [
            (SET[0], ("cf", "GH")), (("cf", "GH"), SET[0])]
        I0 = [(), (SET[0],), (SET[2],), (("cf", "c"),), (SET[0], ("cf", "GN"))]
        Q = [(), (("cf", "GH"),), (("cf", "GN"),), (SET[2], ("cf", "GN")),
             (("if", F1X, ("cf", "mix"), None),), (("if", F1Y, SET[0], ("cf", "a")), ("cf", "GH"))]
    br = {"B": ((("cf", "GH"),), S1), "C": ((SET[0],), ("br", "B"))}
    targets = [(S1, S1), (S1, S2), (("br", "B"), S1), (("br", "C"), ("br", "B"))]
    for i0, a, b, (t1, t2), q in product(I0, A, A, targets, Q):
        use = {k: v for k, v in br.items()}
        yield {"T": tree((i0, ("fork", "f1", (("x", (a, t1)), ("y", (b, t2))))),
                         seqs_of(q, (("cf", "c"),)), use)}, [("I", "T")]


def nested():
    """Two functional events, forks inside named branches, states visible downstream only."""
    A = [(), (("cf", "a"),), (SET[0],), (("if", F2X, ("cf", "c"), ("cf", "GH")),),
         (("if", F1X, ("cf", "GH"), ("cf", "nb")),)]
    for a, b, c, d, q in product(A, A, A if not quick else A[:3], A[:3], A[2:]):
        f2 = ("fork", "f2", (("x", (b, S1)), ("y", (c, S2))))
        brs = {"B": (d, f2)}
        yield {"T": tree((a, ("fork", "f1", (("x", ((), ("br", "B"))), ("y", ((("cf", "GH"),), S1))))),
                         seqs_of(q, q), brs)}, [("I", "T")]
        yield {"T": tree((a, ("fork", "f1", (("x", ((), ("br", "B"))), ("y", (b, ("br", "B"))),
                                             ("z", ((), S1))))),
                         seqs_of(q, (("cf", "c"),)), brs)}, [("I", "T")]


def links():
    """Sequences linking to a second event tree, with instructions before and after the link."""
    A = [(), (("cf", "a"),), (SET[0],), (("if", F1X, ("cf", "GH"), ("cf", "nb")),)]
    L = ("link", "U")
    Q = [(L,), (("cf", "c"), L), (SET[0], L), (L, ("cf", "c")), (L, SET[0], ("cf", "GH")), (L, L),
         (("if", F1X, L, None),), (("if", F1X, L, None), ("cf", "c")), (("block", (SET[0], L)),),
         (("rule", (L,)),), (("if", ("ie", "I"), L, ("cf", "nb")),)]
    tests = [(), (("cf", "GH"),), (("if", F1X, ("cf", "GH"), ("cf", "c")),),
             (("if", F2X, SET[0], None), ("cf", "GH"))]
    for a, q, u in product(A, Q, tests):
        for shape in range(4):
            U = [((), ("seq", "V1")), (u, ("fork", "f1", (("x", ((), ("seq", "V1"))),
                                                          ("y", (u, ("seq", "V2")))))),
                 ((), ("fork", "f2", (("x", (u, ("seq", "V1"))), ("y", ((), S2))))),
                 (u, ("seq", "S2"))][shape]
            ut = dict(fe=["f1", "f2"], seqs={"V1": u, "V2": (("cf", "c"),)}, brs={}, init=U)
            for t in range(3):
                T = [(a, S1), (a, ("fork", "f1", (("x", ((), S1)), ("y", (a, S2))))),
                     ((), ("fork", "f1", (("x", (a, S1)), ("y", ((("cf", "a"),), S1)))))][t]
                inits = [("I", "T"), ("J", "U")] if t == 0 else [("I", "T")]
                yield {"T": tree(T, seqs_of(q, (("cf", "mix"),))), "U": ut}, inits
    # the states of an outer functional event behind a path that leaves through a link
    after = [(("if", F1X, ("cf", "GH"), ("cf", "c")),), (("if", F1Y, ("cf", "GH"), None),),
             (("if", F2X, ("cf", "a"), ("cf", "GH")),), (SET[0], ("if", F1X, ("cf", "GH"), None))]
    for q, b, u, outer, order in product(Q, after, tests, "xy", range(3)):
        ut = dict(fe=["f1", "f2"], seqs={"V1": u, "V2": ()}, brs={},
                  init=((), ("fork", "f2", (("x", (u, ("seq", "V1"))), ("y", ((), ("seq", "V2")))))))
        inner = [(("x", ((), S1)), ("y", (b, S2))), (("x", (b, S2)), ("y", ((), S1))),
                 (("x", ((), S1)), ("y", (b, S1)))][order]
        fork = ((), ("fork", "f2", inner))
        other = (b, S2)
        paths = (("x", fork), ("y", other)) if outer == "x" else (("x", other), ("y", fork))
        yield {"T": tree(((), ("fork", "f1", paths)), seqs_of(q, b)), "U": ut}, [("I", "T")]


def expressions():
    """Collected expressions multiply along a path and add over the paths of a sequence."""
    E = [("num", 0.5), ("num", 0.25), ("num", 1.0), ("mul", ("num", 0.5), ("num", 0.75)),
         ("sub1", ("num", 0.125)), ("ite", ("ie", "I"), ("num", 0.5), ("num", 0.125))]
    C = [()] + [(("ce", e),) for e in E] + [(("ce", E[0]), ("ce", E[4])),
                                            (("if", F1X, ("ce", E[1]), ("ce", E[3])),)]
    two = [("I", "T"), ("J", "T")]
    for i0, a, b, q in product(C[:3] + C[-2:], C, C, C if not quick else C[:2] + C[5:]):
        for t1, t2 in ((S1, S2), (S1, S1)):
            yield {"T": tree((i0, ("fork", "f1", (("x", (a, t1)), ("y", (b, t2))))),
                             seqs_of(q, (("ce", E[1]),)))}, two


def state_expressions():
    """Functional-event states inside of collected expressions."""
    for state in "xy":
        e = ("ce", ("ite", ("fe", "f1", state), ("num", 0.0625), ("num", 0.75)))
        yield {"T": tree(((), ("fork", "f1", (("x", ((e,), S1)), ("y", ((), S2))))),
                         seqs_of((), ()))}, [("I", "T")]


def show(case):
    trees, inits = case
    return "; ".join("%s: init=%s seqs=%s%s" % (
        n, t["init"], t["seqs"], " branches=%s" % t["brs"] if t["brs"] else "")
        for n, t in trees.items()) + " initiating events " + str(inits)


TOP = {"GN": False}


def compare(cases, root):
    out, n, nontrivial = [], 0, 0
    iev, sop = {}, {}
    for e in root.find("results"):
        if e.tag == "initiating-event":
            iev[e.get("name")] = [(s.get("name"), float(s.get("value"))) for s in e]
            if e.get("sequences") != str(len(e)):
                out.append((cases[0][1], "sequence count %s of %s" % (e.get("sequences"), e.get("name"))))
        elif e.tag == "sum-of-products":
            key = (e.get("initiating-event"), e.get("name"))
            sop.setdefault(key, []).append(float(e.get("probability")))
    if sop.get((None, "GN")) != [0.0]:
        out.append((cases[0][1], "the fault tree's own result changes to %s" %
                    sop.get((None, "GN"))))
    for k, case in cases:
        trees, inits = case
        x = "_%d" % k
        for ie, t in inits:
            want = {s: etree.value(p) for s, p in etree.walk(trees, t, ie).items()}
            got = iev.get(ie + x)
            n += 1
            if got is None or sorted(s for s, _ in got) != sorted(s + x for s in want):
                out.append((case, "initiating event %s: sequences %s, expected %s" % (
                    ie, got, sorted(want))))
                continue
            for s, v in got:
                w, only_expr = want[s[:-len(x)]]
                n += 1
                nontrivial += 0 < w < 1
                res = sop.get((ie + x, s), [])
                if not mc.close(v, w):
                    out.append((case, "initiating event %s, sequence %s: value %r, expected %r" % (
                        ie, s[:-len(x)], v, w)))
                elif not only_expr and (len(res) != 1 or not mc.close(res[0], w)):
                    out.append((case, "initiating event %s, sequence %s: products report %s, "
                                      "expected %r" % (ie, s[:-len(x)], res, w)))
    return n, nontrivial, out


def key(case):
    return "tree/" + show(case).replace(" ", "")


def explore(space, what):
    space = list(enumerate(space))

    def job(chunk):
        bad, n, nt, res = [], 0, 0, []

        def render(cases):
            r = etree.Renderer()
            for k, (trees, inits) in cases:
                r.add("_%d" % k, trees, inits)
            return r.model()

        for cases, root in scram.run_trees(exe, chunk, ["--bdd", "--probability"], render,
                                           lambda c, r: bad.append((c, r)), "et"):
            a, b, o = compare(cases, root)
            n, nt = n + a, nt + b
            res += o
        for c, r in bad:
            res.append((c[1], "exit status %s: %s" % (r.rc, r.err.strip()[-300:])))
        return len(chunk), n, nt, [(key(c), "%s: %s" % (show(c), t), render([(0, c)]))
                                   for c, t in res]

    tot = [0, 0, 0]
    for c, n, nt, out in mc.pmap(job, list(mc.chunks(space, 100))):
        for i, v in enumerate((c, n, nt)):
            tot[i] += v
        for k, t, m in out:
            ck.violation(k, t, {"model": m, "options": "--bdd --probability", "what": t})
    ck.count("evaluations", tot[1])
    ck.count("event_trees", tot[0])
    ck.count("distinct_nontrivial", tot[2])
    ck.cov.setdefault("spaces", []).append({"what": what, "event trees": tot[0],
                                            "sequence values": tot[1]})


def contexts():
    """Test events in basic events and expressions, in values and in samples; the fault trees are
    analysed outside of every event tree."""
    t = ("<ite><test-initiating-event name='I'/><float value='0.25'/><ite><test-initiating-event "
         "name='J'/><float value='0.375'/><float value='0.625'/></ite></ite>")
    P = {"I": 0.25, "J": 0.375, None: 0.625, "K": 0.625}
    unc = ["--uncertainty", "--num-trials", "20"]
    for ies in (("I",), ("J",), ("K",), ("I", "J"), ("J", "I"), ("I", "K"), ("J", "I", "K"), ()):
        for col in ("<collect-formula><event name='t'/></collect-formula>",
                    "<collect-expression>%s</collect-expression>" % t,
                    "<collect-expression><parameter name='pt'/></collect-expression>"):
            model = ("<opsa-mef><define-event-tree name='T'><define-sequence name='S'/><initial-state>"
                     "%s<sequence name='S'/></initial-state></define-event-tree>%s"
                     "<define-fault-tree name='ft'><define-gate name='top'><and><event name='t'/>"
                     "<event name='u'/></and></define-gate></define-fault-tree><model-data>"
                     "<define-basic-event name='t'>%s</define-basic-event>"
                     "<define-basic-event name='u'><float value='1'/></define-basic-event>"
                     "<define-parameter name='pt'>%s</define-parameter></model-data></opsa-mef>") % (
                         col, "".join("<define-initiating-event name='%s' event-tree='T'/>" % i
                                      for i in ies), t, t)
            for opts in ([], unc):
                for algo in ("--bdd", "--zbdd", "--mocus"):
                    r, root = scram.run_model(exe, model, [algo, "--probability"] + opts, "cx")
                    ck.count("evaluations", len(ies) + 1)
                    name = "context/%s%s/%s/%s" % (algo, "-unc" if opts else "", ",".join(ies), col[1:20])
                    what = None
                    if r.rc or root is None:
                        what = "exit status %s: %s" % (r.rc, r.err[-300:])
                    else:
                        got = {(e.get("name"), s.get("name")): float(s.get("value"))
                               for e in root.iter("initiating-event") for s in e}
                        want = {(i, "S"): P[i] for i in ies}
                        top = [float(e.get("probability")) for e in root.iter("sum-of-products")
                               if e.get("name") == "top"]
                        means = {e.get("initiating-event"): (
                            float(e.find("mean").get("value")), float(
                                e.find("standard-deviation").get("value")))
                            for e in root.iter("measure")}
                        wm = {i: (P[i], 0.0) for i in ies + (None,)} if opts else {}
                        if got != want or top != [P[None]]:
                            what = "sequences %s, expected %s; fault tree %s, expected %s" % (
                                got, want, top, P[None])
                        elif means != wm:
                            what = "sample means and deviations %s, expected %s" % (means, wm)
                    if what:
                        ck.violation(name, name + ": " + what, {"model": model, "what": what})


def deviate_contexts():
    """Samples under test events: the three arms draw from intervals that are far apart."""
    arm = "<uniform-deviate><float value='%g'/><float value='%g'/></uniform-deviate>"
    arms = [(0.25, 0.26), (0.375, 0.376), (0.625, 0.626)]
    a, b, c = (arm % x for x in arms)
    T = "<test-initiating-event name='%s'/>"
    t = "<ite>%s%s<ite>%s%s%s</ite></ite>" % (T % "I", a, T % "J", b, c)
    place = {"I": arms[0], "J": arms[1]}
    jobs = [(ies, col, algo) for ies in (("I",), ("J",), ("K",), ("I", "J"), ("J", "I"))
            for col in ("<collect-formula><event name='t'/></collect-formula>",
                        "<collect-expression>%s</collect-expression>" % t,
                        "<collect-expression><parameter name='pt'/></collect-expression>")
            for algo in ("--bdd", "--zbdd", "--mocus")]

    def job(item):
        ies, col, algo = item
        model = ("<opsa-mef><define-event-tree name='T'><define-sequence name='S'/><initial-state>"
                 "%s<sequence name='S'/></initial-state></define-event-tree>%s<model-data>"
                 "<define-basic-event name='t'>%s</define-basic-event><define-parameter name='pt'>%s"
                 "</define-parameter></model-data></opsa-mef>") % (
                     col, "".join("<define-initiating-event name='%s' event-tree='T'/>" % i
                                  for i in ies), t, t)
        r, root = scram.run_model(exe, model, [algo, "--probability", "--uncertainty",
                                               "--num-trials", "20"], "cy")
        if r.rc or root is None:
            return item, model, ["exit status %s: %s" % (r.rc, r.err[-300:])], 0
        means = {e.get("initiating-event"): float(e.find("mean").get("value"))
                 for e in root.iter("measure")}
        bad, site = [], 0
        for i in ies:
            lo, hi = place.get(i, arms[2])
            m = means.get(i)
            if m is not None and lo <= m <= hi:
                continue
            # Known: in a sample no initiating event has occurred.
            if m is not None and arms[2][0] <= m <= arms[2][1]:
                site += 1
            else:
                bad.append("the mean of the samples under %s is %s, expected within [%g, %g]" % (
                    i, m, lo, hi))
        return item, model, bad, site

    for (ies, col, algo), model, bad, site in mc.pmap(job, jobs):
        ck.count("evaluations", len(ies))
        name = "deviates/%s/%s/%s" % (algo, ",".join(ies), col[1:20])
        for what in bad:
            ck.violation(name, name + ": " + what, {"model": model, "what": what})
        if site:
            what = "test events are false in samples (TestEvent::DoSample)"
            ck.violation("site/TestEvent::DoSample", name + ": " + what, {
                "model": model, "what": what})


def restrictions():
    """Documented restrictions: (name, trees or model text, must be accepted)."""
    def fork(f, *targets):
        return ("fork", f, tuple((st, ((), t)) for st, t in zip("xyz", targets)))

    # functional events in their order of definition, directly and through named branches
    for f, g in product(("f1", "f2"), repeat=2):
        ok = (f, g) == ("f1", "f2")
        two = seqs_of((), ())
        yield "order/%s-%s" % (f, g), {"T": tree(((), fork(f, fork(g, S1, S2), S2)), two)}, ok
        yield "order/branch/%s-%s" % (f, g), {"T": tree(
            ((), fork(f, S1, ("br", "B"))), two, {"B": ((), fork(g, S1, S2))})}, ok
        yield "order/branch-branch/%s-%s" % (f, g), {"T": tree(
            ((), fork(f, S1, ("br", "C"))), two,
            {"B": ((), fork(g, S1, S2)), "C": ((), ("br", "B"))})}, ok
        yield "order/inside/%s-%s" % (f, g), {"T": tree(
            ((), ("br", "B")), two, {"B": ((), fork(f, S2, fork(g, S1, S2)))})}, ok
        yield "order/unreached/%s-%s" % (f, g), {"T": tree(
            ((), fork("f1", S1, S2)), two, {"B": ((), fork(f, S2, fork(g, S1, S2)))})}, ok
        for h in ("f1", "f2", "f3"):
            yield "order/three/%s-%s-%s" % (f, g, h), {"T": tree(
                ((), fork(f, S1, fork(g, S2, fork(h, S1, S2)))), two, fe=("f1", "f2", "f3"))}, \
                ok and h == "f3"
    # distinct states
    for a, b, c in product("xy", "xy", "xyz"):
        yield "states/%s%s%s" % (a, b, c), {"T": tree(((), ("fork", "f1", (
            (a, ((), S1)), (b, ((), S1)), (c, ((), S1))))))}, len({a, b, c}) == 3
    # links only in sequences
    U = dict(fe=[], seqs={"V1": ()}, brs={}, init=((), ("seq", "V1")))
    L = ("link", "U")
    for w, i in (("plain", L), ("block", ("block", (L,))), ("rule", ("rule", (L,))),
                 ("then", ("if", F1X, L, None)), ("else", ("if", F1X, ("cf", "a"), L))):
        for pos in range(6):
            at = lambda k: (i,) if pos == k else ()
            yield "link/%s/%d" % (w, pos), {"U": U, "T": tree(
                (at(0), ("fork", "f1", (("x", (at(1), S1)), ("y", (at(2), ("br", "B")))))),
                seqs_of(at(3)), {"B": (at(4), fork("f2", S1)), "C": (at(5), S1)})}, pos == 3
    # formulas and expressions do not mix in one event tree (with the trees it links to)
    ce, cf = ("ce", ("num", 0.5)), ("cf", "a")
    wraps = (lambda i: i, lambda i: ("block", (i,)), lambda i: ("rule", (i,)),
             lambda i: ("if", F1X, i, None), lambda i: ("if", F1X, ("block", ()), i))
    for p, q in product(range(7), repeat=2):
        for w, wrap in enumerate(wraps):
            def at(k):
                return ((ce,) if p == k else ()) + ((wrap(cf),) if q == k else ())
            ut = dict(fe=[], seqs={"V1": at(6)}, brs={}, init=((), ("seq", "V1")))
            yield "mix/%d-%d/%d" % (p, q, w), {"U": ut, "T": tree(
                (at(0), ("fork", "f1", (("x", (at(1), S1)), ("y", (at(2), ("br", "B")))))),
                seqs_of(at(3) + (L,), at(4)), {"B": (at(5), fork("f2", S1, S2))})}, False
    for p, q in product(range(3), repeat=2):      # separate trees
        def at(k, i, r):
            return (i,) if r == k else ()
        yield "separate/%d-%d" % (p, q), {
            "T": tree((at(0, ce, p), ("fork", "f1", (("x", (at(1, ce, p), S1)),))),
                      seqs_of(at(2, ce, p))),
            "U": dict(fe=["f1"], seqs={"V1": at(2, cf, q)}, brs={}, init=(at(0, cf, q), (
                "fork", "f1", (("x", (at(1, cf, q), ("seq", "V1"))),))))}, True
    # names
    good = {"T": tree(((SET[0], L), ("fork", "f1", (("x", ((), S1)),))))}
    for w, t, ok in (
            ("sequence", tree(((), ("seq", "S9"))), False), ("branch", tree(((), ("br", "B"))), False),
            ("functional", tree(((), ("fork", "f9", (("x", ((), S1)),)))), False),
            ("tree", tree(((), S1), seqs_of((("link", "Z"),))), False),
            ("house", tree(((("set", "a", True),), S1)), False),
            ("gate", tree(((("set", "GH", True),), S1)), False),
            ("house9", tree(((("set", "h9", True),), S1)), False),
            ("fine", tree(((SET[0],), S1)), True)):
        yield "name/" + w, {"T": t}, ok
    del good
    # collected expressions are probabilities
    for x in (-0.5, -1e-9, 0, 1, 1.0000001, 2, 7):
        yield "value/%r" % x, {"T": tree(((("ce", ("num", x)),), S1))}, 0 <= x <= 1
        yield "value/ite%r" % x, {"T": tree(((("ce", ("ite", F1X, ("num", x), ("num", 0.5))),), S1))}, \
            0 <= x <= 1


def explore_restrictions():
    def job(item):
        name, trees, ok = item
        r = etree.Renderer()
        r.add("", trees, [("I", "T")])
        text = r.model()
        run, root = scram.run_model(exe, text, ["--bdd", "--probability"], "rx")
        if ok and (run.rc or root is None):
            return name, "must be accepted: exit status %s: %s" % (run.rc, run.err[-300:]), text
        if not ok and (run.rc != 1 or "Error" not in run.err and "Undefined" not in run.err):
            return name, "must be rejected: exit status %s: %s" % (run.rc, run.err[-300:]), text
        return name, None, text

    n = 0
    for name, what, text in mc.pmap(job, list(restrictions())):
        n += 1
        if what:
            ck.violation("restriction/" + name, name + ": " + what, {"model": text, "what": what})
    ck.count("evaluations", n)
    ck.count("restriction_models", n)


explore_restrictions()
explore(straight(), "one path: all instruction sequences")
explore(conditions(), "if-then-else over initiating and functional events")
explore(forks(), "one fork: instructions, targets, shared and named branches")
explore(nested(), "two functional events, forks in named branches")
explore(links(), "linked event trees")
explore(expressions(), "collected expressions")
explore(state_expressions(), "functional-event states in collected expressions")
contexts()
deviate_contexts()
ck.sample({"case": show(next(iter(links())))})
sys.exit(ck.finish(rule="every event tree of each family, batched into models with one event tree per "
                        "case; the value and the set of sequences of every initiating event are "
                        "compared with a truth-table walk of the tree"))
