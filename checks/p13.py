#!/usr/bin/env python3
"""P13: substitutions, by exhaustive enumeration of hypotheses, sources and targets."""
import math
import os
import sys
from itertools import combinations, product
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
import common
import families
import ft
import mc
import scram

quick = common.tier() != "thorough"
ck = mc.Check("P13", "exploration", common.tier())
exe = build.build_cli()

PS = [0.125, 0.25, 0.0625, 0.5]
N = 4
FULL = ft.full(N)
# A substitution is (hypothesis, source, target): the hypothesis (connective, min, events), the
# source a tuple of events, the target an event, True or False.


def hypotheses(n, big=True):
    for i in range(n):
        yield ("null", 0, (i,))
    for k in range(2, n + 1):
        for c in combinations(range(n), k):
            yield ("and", 0, c)
            yield ("or", 0, c)
            for m in range(2, k):
                yield ("atleast", m, c)


def sources(n, most):
    for k in range(most + 1):
        yield from combinations(range(n), k)


def singles(n, most):
    for h in hypotheses(n):
        for s in sources(n, most):
            for t in list(range(n)) + [True, False]:
                yield (h, s, t)


def is_event(t):
    return not isinstance(t, bool)


def valid(sub):
    (conn, _, args), source, target = sub
    if source:
        return conn in ("null", "and", "or") and target is not False and not (
            is_event(target) and target in source)
    return target is not True


def compatible(a, b):
    """True, False or None where the documentation leaves it open."""
    if a[1] and b[1]:
        for x, y in ((a, b), (b, a)):
            if is_event(x[2]) and x[2] in y[1]:
                return False
            if is_event(x[2]) and x[2] in y[0][2]:
                return False
            if any(e in y[0][2] for e in x[1]):
                return False
        return True
    for x, y in ((a, b), (b, a)):
        if x[1] and not y[1] and ((is_event(x[2]) and x[2] in y[0][2]) or
                                  any(e in y[0][2] for e in x[1])):
            return None
        if x[1] and is_event(y[2]) and y[2] in x[1]:
            return None
    return True


def kind(sub):
    """The traditional type, '' for none, None where it is a matter of words."""
    (conn, low, args), source, target = sub
    if not source:
        if target is False:
            return "delete-terms" if (conn == "atleast" and low == 2) or (
                conn == "and" and len(args) == 2) else ""
        return "recovery-rule" if is_event(target) and conn == "and" else ""
    if not is_event(target) or conn not in ("and", "null"):
        return ""
    if set(source) == set(args):
        return "recovery-rule" if len(args) > 1 else None
    return "exchange-event" if len(source) == 1 and source[0] in args else ""


def sub_xml(name, sub, kind=""):
    (conn, low, args), source, target = sub
    body = "".join("<basic-event name='e%d'/>" % i for i in args)
    if conn == "atleast":
        body = "<atleast min='%d'>%s</atleast>" % (low, body)
    elif conn != "null":
        body = "<%s>%s</%s>" % (conn, body, conn)
    return "<define-substitution name='%s'%s><hypothesis>%s</hypothesis>%s<target>%s</target></define-substitution>" % (
        name, " type='%s'" % kind if kind else "", body,
        "<source>%s</source>" % "".join("<basic-event name='e%d'/>" % i for i in source)
        if source else "",
        "<basic-event name='e%d'/>" % target if is_event(target) else
        "<constant value='%s'/>" % str(target).lower())


def show(subs):
    return " & ".join("%s%s(%s)/%s->%s" % (
        s[0][0], s[0][1] or "", ",".join("e%d" % i for i in s[0][2]),
        ",".join("e%d" % i for i in s[1]) or "-",
        "e%d" % s[2] if is_event(s[2]) else s[2]) for s in subs)


def hyp_tt(h):
    conn, low, args = h
    return ft.gate_tt(conn, low, len(args), [ft.var_tt(N, i) for i in args], N)


def declared(tt, subs):
    for h, source, target in subs:
        if not source:
            t = ft.var_tt(N, target) if is_event(target) else 0
            tt &= (FULL & ~hyp_tt(h)) | t
    return tt


def replaced(products, subs):
    """The non-declarative substitutions on the products (masks), all on the original ones."""
    res = set()
    for p in products:
        add, remove = 0, 0
        for (conn, _, args), source, target in subs:
            if not source:
                continue
            m = sum(1 << i for i in args)
            if (p & m == m) if conn != "or" else (p & m):
                remove |= sum(1 << i for i in source)
                if is_event(target):
                    add |= 1 << target
        res.add(p & ~remove | add)
    return {p for p in res if not any(q != p and q & p == q for q in res)}


def trees3():
    """Every monotone function of e0..e2, some with e3, and a few with negations."""
    res = list(families.monotone(3, False)) + list(families.monotone(3, True))
    res += [(("and", 0, 0, ((0, False), (ft.G + 1, False))), ("or", 0, 0, ((1, False), (3, False)))),
            (("or", 0, 0, ((ft.G + 1, False), (ft.G + 2, False))),
             ("and", 0, 0, ((0, False), (3, False))), ("and", 0, 0, ((1, False), (2, False)))),
            (("atleast", 2, 4, tuple((i, False) for i in range(4))),)]
    return [t for t in dict.fromkeys(res) if len(t) > 1 or len(t[0][3]) > 1]


MONO = trees3()
MIXED = list(ft.trees(3, 1, 2, 3, ("xor", "nand", "iff", "and", "or"), "any")) + [
    (("or", 0, 0, ((ft.G + 1, False), (ft.G + 2, False))),
     ("and", 0, 0, ((0, False), (1, False))), ("and", 0, 0, ((0, True), (2, False))))]
ET = """<define-initiating-event name='I' event-tree='T'/><define-event-tree name='T'><define-functional-event name='F'/>
<define-sequence name='S1'/><define-sequence name='S2'/><initial-state><fork functional-event='F'><path state='x'>
<collect-formula><gate name='t%dg0'/></collect-formula><sequence name='S1'/></path><path state='y'><sequence name='S2'/></path>
</fork></initial-state></define-event-tree>"""


def model(trees, subs, kinds=(), extra="", et=True):
    return "<opsa-mef>" + (ET % (len(trees) - 1) if et else "") + \
        "".join(sub_xml("s%d" % i, s, kinds[i] if kinds else "") for i, s in enumerate(subs)) + \
        "".join(ft.ft_xml(t, "t%d" % i) for i, t in enumerate(trees)) + extra + "<model-data>" + \
        "".join(ft.be_xml(i, p) for i, p in enumerate(PS)) + "</model-data></opsa-mef>"


MODES = {
    "bdd": (["--bdd", "--importance"], "exact"),
    "primes": (["--bdd", "--prime-implicants", "--importance"], "primes"),
    "bdd-rare": (["--bdd", "--rare-event"], "rare"),
    "bdd-mcub": (["--bdd", "--mcub"], "mcub"),
    "zbdd": (["--zbdd"], "rare"),
    "zbdd-mcub": (["--zbdd", "--mcub"], "mcub"),
    "mocus": (["--mocus"], "rare"),
    "mocus-mcub": (["--mocus", "--mcub"], "mcub"),
}


def expected(t, subs, how):
    tt = declared(ft.tree_tt(t, N), subs)
    if how == "primes":
        prods = set(ft.primes_of(N, tt))
    else:
        prods = {(m, 0) for m in replaced(ft.mcs_of(N, tt), subs)}
    if how in ("exact", "primes"):
        return tt, prods, ft.prob_of(N, tt, PS)
    terms = [math.prod(PS[i] for i in range(N) if m >> i & 1) for m, _ in prods]
    return tt, prods, min(1.0, sum(terms)) if how == "rare" else \
        1 - math.prod(1 - x for x in terms)


def compare(trees, subs, root, how):
    res, imp = scram.results(root), scram.results(root, "importance")
    out = []
    names = ["t%dg0" % i for i in range(len(trees))] + ["S1"]
    for name, t in zip(names, list(trees) + [trees[-1]]):
        tt, prods, p = expected(t, subs, how)
        e = res.get(name)
        if e is None:
            out.append((t, "%s is not in the report" % name))
            continue
        got = set()
        n = 0
        for lits, _ in scram.products(e, scram.eidx):
            n += 1
            got.add((sum(1 << v for v, s in lits if not s), sum(1 << v for v, s in lits if s)))
        if got != prods or n != len(prods):
            out.append((t, "%s has the products %s, expected %s" % (
                name, sorted(got), sorted(prods))))
        if not mc.close(float(e.get("probability")), p):
            out.append((t, "the probability of %s is %s, expected %.7g" % (
                name, e.get("probability"), p)))
        if how in ("exact", "primes") and name in imp:
            for x in imp[name]:
                i = scram.eidx(x.get("name"))
                v = ft.var_tt(N, i)
                hi = [1.0 if k == i else q for k, q in enumerate(PS)]
                lo = [0.0 if k == i else q for k, q in enumerate(PS)]
                mif = ft.prob_of(N, tt, hi) - ft.prob_of(N, tt, lo)
                if not mc.close(float(x.get("MIF")), mif, abs_=1e-9):
                    out.append((t, "the MIF of e%d in %s is %s, expected %.7g" % (
                        i, name, x.get("MIF"), mif)))
    return out


def explore(space, modes, what, trees=MONO):
    space = [s if isinstance(s[0][0], tuple) else (s,) for s in space]

    def job(item):
        subs, mode = item
        args, how = MODES[mode]
        nondecl = any(s[1] for s in subs)
        verdict = all(valid(s) for s in subs)
        if verdict and nondecl and how in ("exact", "primes"):
            verdict = False
        if verdict:
            cs = [compatible(a, b) for a, b in combinations(subs, 2)]
            verdict = False if False in cs else None if None in cs else True
        m = model(trees, subs)
        r, root = scram.run_model(exe, m, ["--probability"] + args, "sb")
        if r.crashed or (r.rc == 0 and root is None) or (r.rc and not r.err.strip()):
            return [(subs, mode, "run", "exit status %s: %s" % (r.rc, r.err[-300:]))], verdict
        if verdict is not None and verdict != (r.rc == 0):
            return [(subs, mode, "verdict", "must be %s: %s" % (
                "accepted" if verdict else "rejected", r.err.strip()[-200:]))], verdict
        if r.rc:
            return [], verdict
        return [(subs, mode, ft.show(t), "%s: %s" % (ft.show(t), w))
                for t, w in compare(trees, subs, root, how)], verdict

    n = 0
    for bad, verdict in mc.pmap(job, [(s, m) for s in space for m in modes]):
        n += 1
        ck.count("accepted" if verdict else "open" if verdict is None else "rejected")
        for subs, mode, where, w in bad:
            ck.violation("%s/%s/%s" % (mode, show(subs), where),
                         "%s with %s: %s" % (show(subs), mode, w),
                         {"xml": model(trees, subs), "args": MODES[mode][0]})
    ck.count("evaluations", n * len(trees))
    ck.count("substitution_sets", len(space))
    ck.distinct.update(space)
    ck.sample("%s: %s" % (what, show(space[len(space) // 3])))


APPROX = ["bdd-rare", "zbdd", "mocus"]
ALLM = list(MODES)
s4 = list(singles(4, 2))
s3 = list(singles(3, 1 if quick else 2))
decl4 = [s for s in s4 if not s[1]]
decl3 = [s for s in s3 if not s[1] and valid(s)]
non3 = [s for s in s3 if s[1] and valid(s)]

explore(decl4, ALLM, "declarative", MONO[::2] + MONO[-3:] if quick else MONO)
explore(decl4, ["bdd", "primes", "zbdd-mcub", "mocus"] if quick else ALLM,
        "declarative, non-coherent trees", MIXED)
explore([s for s in s4 if s[1]], APPROX if not quick else ["zbdd"], "non-declarative")
explore([s for s in s3 if s[1]], ALLM, "non-declarative, every analysis")
FEWT = MONO[::4] + MONO[-3:]
pairs = list(combinations(decl3, 2))
explore(pairs, ["bdd"] if quick else ALLM, "two declarative", FEWT)
if quick:
    explore(pairs[::3], ["mocus"], "two declarative", FEWT)
pairs = [p for p in combinations(non3, 2)]
if quick:
    pairs = [p for p in pairs if compatible(*p)] + pairs[::9]
explore(pairs, ["mocus"] if quick else APPROX, "two non-declarative", FEWT)
explore([(a, b) for a in (decl3 if not quick else decl3[::2]) for b in
         (non3 if not quick else non3[::2])], ["zbdd"] if quick else APPROX, "both kinds", FEWT)
if not quick:
    t3 = [s for s in decl3 if is_event(s[2]) or s[0][0] == "and"]
    explore(list(combinations(t3, 3)), ["bdd", "mocus"], "three declarative", FEWT)


# ------------------------------------------------------------------ verdicts of the declared type

def verdict_of(xml, args=()):
    r, _ = scram.run_model(exe, xml, ["--validate", "--mocus"] + list(args), "vd")
    return r


def types():
    for s in singles(3, 2):
        if valid(s):
            for k in ("delete-terms", "recovery-rule", "exchange-event"):
                want = kind(s)
                if want is None:
                    if k == "delete-terms":
                        yield s, k, False
                else:
                    yield s, k, want == k


def type_job(item):
    s, k, ok = item
    m = model(MONO[:1], (s,), (k,), et=False)
    r, _ = scram.run_model(exe, m, ["--validate", "--mocus"], "ty")
    # --validate writes no report, so only the status counts.
    return None if not r.crashed and (r.rc == 0) == ok else (s, k, ok, r.err[-200:], m)


space = list(types())
for res in mc.pmap(type_job, space):
    if res:
        s, k, ok, err, m = res
        ck.violation("type/%s/%s" % (k, show((s,))), "%s declared as %s must be %s: %s" % (
            show((s,)), k, "accepted" if ok else "rejected", err), {"xml": m})
ck.count("evaluations", len(space))
ck.count("declared_types", len(space))


# ------------------------------------------------------------------ restrictions on the parts

def raw(hyp, source, target, extra="", data=""):
    return ("<opsa-mef><define-substitution name='s'><hypothesis>%s</hypothesis>%s<target>%s"
            "</target></define-substitution>%s%s<model-data>%s%s</model-data></opsa-mef>" % (
                hyp, "<source>%s</source>" % source if source else "", target, extra,
                ft.ft_xml((("and", 0, 0, ((0, False), (1, False))),), "t"), "".join(
                    ft.be_xml(i, p) for i, p in enumerate(PS)), data))


def be(*xs):
    return "".join("<basic-event name='e%d'/>" % x for x in xs)


CCF = ("<define-CCF-group name='C' model='beta-factor'><members>%s</members><distribution>"
       "<float value='0.1'/></distribution><factor level='2'><float value='0.2'/></factor>"
       "</define-CCF-group>")


def no_data(xml, *events):
    """Members of a group get their data from the group alone."""
    for e in events:
        xml = xml.replace(ft.be_xml(e, PS[e]), "")
    return xml


FALSE, TRUE = "<constant value='false'/>", "<constant value='true'/>"
house = "<define-house-event name='h'><constant value='true'/></define-house-event>"
RESTRICT = [
    (raw("<and>%s</and>" % be(0, 1), "", FALSE), True),
    (raw("<and>%s<gate name='tg0'/></and>" % be(2), "", FALSE), False),
    (raw("<gate name='tg0'/>", "", FALSE), False),
    (raw("<and>%s<house-event name='h'/></and>" % be(0), "", FALSE, data=house), False),
    (raw("<and>%s<not>%s</not></and>" % (be(0), be(1)), "", FALSE), False),
    (raw("<not>%s</not>" % be(1), "", FALSE), False),
    (raw("<and>%s</and>" % be(1, 1), "", FALSE), False),
    (raw("<and>%s</and>" % be(1, 2), be(1, 1), be(3)), False),
    (raw("<and>%s</and>" % be(1, 2), be(1, 2), be(3)), True),
    (raw("<and>%s</and>" % be(1, 2), be(1), "<basic-event name='nobody'/>"), False),
    (raw("<and>%s</and>" % be(1, 2), "<basic-event name='nobody'/>", be(3)), False),
    (raw("<and>%s<basic-event name='nobody'/></and>" % be(1), be(1), be(3)), False),
    (raw("<and>%s</and>" % be(1, 2), "", "<basic-event name='nobody'/>"), False),
] + [(raw("<%s>%s</%s>" % (c, be(0, 1), c), src, tgt), False)
     for c in ("xor", "iff", "imply", "nand", "nor") for src, tgt in (("", FALSE), (be(0), be(2)))] + [
    (raw("<cardinality min='1' max='1'>%s</cardinality>" % be(0, 1), "", FALSE), False),
    (raw("<and>%s</and>" % be(2, 3), be(2), TRUE), True),
]
for group, hyp, src, tgt in product(((0, 1), (2, 3)), ((0, 1), (2, 3), (0, 2)), ((0,), (2,), ()),
                                    (1, 3)):
    if tgt in src:
        continue
    bad = bool(src) and bool(set(group) & (set(hyp) | set(src) | {tgt}))
    RESTRICT.append((no_data(raw("<and>%s</and>" % be(*hyp), be(*src) if src else "", be(tgt),
                                 CCF % be(*group)), *group), not bad))


def restrict_job(item):
    m, ok = item
    out = []
    for extra in ([], ["--ccf"]):
        r, root = scram.run_model(exe, m, ["--mocus", "--probability"] + extra, "rs")
        if r.crashed or ok != (r.rc == 0 and root is not None) or (not ok and not r.err.strip()):
            out.append((extra, r.rc, r.err[-200:]))
    return m, ok, out


for m, ok, out in mc.pmap(restrict_job, RESTRICT):
    ck.count("evaluations", 2)
    for extra, rc, err in out:
        i = [x for x, _ in RESTRICT].index(m)
        ck.violation("restriction/%d%s" % (i, "".join(extra)), "must be %s: exit status %s %s" % (
            "accepted" if ok else "rejected", rc, err), {"xml": m, "args": extra})
ck.count("restriction_models", len(RESTRICT))


# ------------------------------------------------------------------ declarative, with common cause

def ccf_space():
    for s in singles(3, 0):
        if valid(s):
            for t in MONO[::5]:
                yield s, t


def ccf_job(item):
    s, t = item
    m = no_data(model([t], (s,), extra=CCF % be(0, 1), et=False), 0, 1)
    r, root = scram.run_model(exe, m, ["--bdd", "--probability", "--ccf"], "cc")
    if scram.bad_run(r, root):
        return s, t, "exit status %s: %s" % (r.rc, r.err[-200:]), m
    tt = declared(ft.tree_tt(t, N), (s,))
    q, b = 0.1, 0.2
    want = 0.0
    for i0, i1, c, e2, e3 in product((0, 1), repeat=5):
        w = 1.0
        for on, p in ((i0, (1 - b) * q), (i1, (1 - b) * q), (c, b * q), (e2, PS[2]), (e3, PS[3])):
            w *= p if on else 1 - p
        a = (i0 | c) | (i1 | c) << 1 | e2 << 2 | e3 << 3
        if tt >> a & 1:
            want += w
    got = float(scram.results(root)["t0g0"].get("probability"))
    return None if mc.close(got, want) else (s, t, "%g, expected %.7g" % (got, want), m)


space = list(ccf_space())
for res in mc.pmap(ccf_job, space):
    if res:
        s, t, w, m = res
        ck.violation("ccf/%s/%s" % (show((s,)), ft.show(t)), "%s on %s with CCF: %s" % (
            show((s,)), ft.show(t), w), {"xml": m})
ck.count("evaluations", len(space))
ck.count("ccf_models", len(space))

ck.assumptions += [
    "a non-declarative substitution next to a declarative one whose hypothesis or target shares its "
    "source or target may be accepted or refused (the documentation does not decide); an accepted "
    "one is judged like any other",
    "exact probabilities follow the Boolean function of the tree and all implications"]
sys.exit(ck.finish(
    rule="every substitution over the stated events, alone and in pairs, on every monotone function "
         "of three events (and non-coherent ones for declarative substitutions)"))
