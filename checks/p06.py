"""P06: common-cause groups."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from itertools import permutations, product
import build
import ccf
import common
import ft
import ftcheck
import mc
import scram

T = common.tier()
ck = mc.Check("P06", "exploration", T)
exe = build.build_cli()
G = ft.G

# trees over members 0..n-1 and one ordinary event (number n)


def trees(n):
    m = [(i, False) for i in range(n)]
    x = (n, False)
    res = [((("or", 0, 0, tuple(m))),), ((("and", 0, 0, tuple(m))),),
           (("or", 0, 0, (m[0], x)),), (("and", 0, 0, (m[0], x)),),
           (("or", 0, 0, ((G + 1, False), x)), ("and", 0, 0, tuple(m))),
           (("and", 0, 0, ((G + 1, False), x)), ("or", 0, 0, tuple(m[:2]))),
           (("null", 0, 0, (m[n - 1],)),),
           (("and", 0, 0, ((G + 1, False), (G + 2, False))), ("or", 0, 0, (m[0], x)),
            ("or", 0, 0, (m[1], x)))]
    if n > 2:
        res += [(("atleast", k, n, tuple(m)),) for k in range(2, n)]
        res.append((("or", 0, 0, ((G + 1, False), (G + 2, False))), ("and", 0, 0, (m[0], m[1])),
                    ("and", 0, 0, (m[1], m[2], x))))
    if n < 4:
        res += [(("xor", 0, 0, (m[0], m[1])),), (("and", 0, 0, ((0, True), m[1])),),
                (("or", 0, 0, ((0, True), x)),), (("imply", 0, 0, (m[0], m[1])),)]
    return res


PLACES = ("model", "tree", "component", "private")
XP = 0.3


class Case:
    """One group with one tree; `pos` numbers it inside a batch."""
    __slots__ = ("model", "n", "q", "factors", "single", "place", "tree")

    def __init__(self, *a):
        (self.model, self.n, self.q, self.factors, self.single, self.place, self.tree) = a

    def show(self):
        return "%s n=%d q=%g factors=%s %s in %s: %s" % (
            self.model, self.n, self.q,
            ",".join("%s%g" % ("" if l is None else "%d:" % l, v) for l, v in self.factors),
            "factor" if self.single else "factors", self.place, ft.show(self.tree))


def names(i, c):
    return lambda k: "m%d_%d" % (i, k) if k < c.n else "x%d" % i


def group_xml(i, c):
    mem = "".join('<basic-event name="m%d_%d"/>' % (i, k) for k in range(c.n))
    fac = "".join('<factor%s><float value="%r"/></factor>' % (
        "" if l is None else ' level="%d"' % l, v) for l, v in c.factors)
    if not c.single:
        fac = "<factors>%s</factors>" % fac
    return ('<define-CCF-group name="c%d" model="%s"><members>%s</members><distribution>'
            '<float value="%r"/></distribution>%s</define-CCF-group>' % (i, c.model, mem, c.q, fac))


def case_xml(i, c):
    nm = names(i, c)
    pfx = "t%d_g" % i
    gates = "".join(ft.gate_xml(g, "%s%d" % (pfx, j), pfx, nm) for j, g in enumerate(c.tree))
    extra = ('<define-basic-event name="x%d"><float value="%r"/></define-basic-event>' % (i, XP))
    g = group_xml(i, c)
    if c.place == "model":
        return '<define-fault-tree name="t%d_">%s</define-fault-tree>%s' % (i, gates + extra, g)
    if c.place == "tree":
        return '<define-fault-tree name="t%d_">%s</define-fault-tree>' % (i, g + gates + extra)
    if c.place == "component":
        return ('<define-fault-tree name="t%d_"><define-component name="k%d">%s'
                '</define-component>%s</define-fault-tree>' % (i, i, gates + g, extra))
    # private: the group, its members and the gates are local to the component; a decoy public
    # event with the name of the first member exists outside
    return ('<define-fault-tree name="t%d_"><define-component name="k%d" role="private">%s'
            '</define-component>%s</define-fault-tree>'
            '<model-data><define-basic-event name="m%d_0"><float value="0.9"/>'
            '</define-basic-event></model-data>' % (i, i, gates + g, extra, i))


def render(cs):
    return '<?xml version="1.0"?>\n<opsa-mef>\n%s\n</opsa-mef>\n' % "\n".join(
        case_xml(i, c) for i, c in cs)


_cache = {}


def reference(c):
    """(events [(level, mask)] + the ordinary one, minimal cut sets as masks over them)"""
    levels = tuple(sorted(ccf.level_probs(c.model, c.n, c.q, c.factors)))
    key = (c.n, levels, c.tree)
    if key in _cache:
        return _cache[key]
    evs = ccf.events(c.n, levels)
    tt = ft.tree_tt(c.tree, c.n + 1)
    ne = len(evs)
    if ne < 9:
        f = 0
        for a in range(1 << (ne + 1)):
            st = 0
            for b in range(ne):
                if a >> b & 1:
                    st |= evs[b][1]
            st |= (a >> ne & 1) << c.n
            if tt >> st & 1:
                f |= 1 << a
        mcs = sorted(ft.mcs_of(ne + 1, f))
    else:                        # coherent trees only: covers of the members' minimal cut sets
        cand = set()
        for m in ft.mcs_of(c.n + 1, tt):
            mem, x = m & ((1 << c.n) - 1), m >> c.n
            front = {(0, 0)}
            for _ in range(bin(mem).count("1")):
                nxt = set()
                for st, s in front:
                    if mem & ~st == 0:
                        nxt.add((st, s))
                        continue
                    low = (mem & ~st) & -(mem & ~st)
                    for b in range(ne):
                        if evs[b][1] & low:
                            nxt.add((st | evs[b][1], s | 1 << b))
                front = nxt
            cand |= {s | x << ne for st, s in front}
        mcs = sorted(s for s in cand if not any(o != s and o & s == o for o in cand))
    _cache[key] = (evs, mcs, tt)
    return _cache[key]


def total(c, tt, ps, evs, xp=XP):
    dist = [0.0] * (1 << c.n)
    dist[0] = 1.0
    for (k, mask), p in zip(evs, ps):
        new = [0.0] * len(dist)
        for st, w in enumerate(dist):
            new[st] += w * (1 - p)
            new[st | mask] += w * p
        dist = new
    return sum(w * (xp * (tt >> (st | 1 << c.n) & 1) + (1 - xp) * (tt >> st & 1))
               for st, w in enumerate(dist))


def event_key(e, i, c, evs, out):
    """Index of a reported event among the reference events."""
    if e.tag == "basic-event":
        nm = e.get("name").split(".")[-1]
        return len(evs) if nm == "x%d" % i else None
    if e.tag == "ccf-event":
        mem = [b.get("name").split(".")[-1] for b in e]
        mask = 0
        for m in mem:
            if not m.startswith("m%d_" % i):
                return None
            mask |= 1 << int(m.split("_")[1])
        if (e.get("ccf-group").split(".")[-1] != "c%d" % i or int(e.get("order")) != len(mem) or
                int(e.get("group-size")) != c.n):
            out.append(("ccf-event", "attributes %s members %s" % (dict(e.attrib), mem)))
        for b, (k, m) in enumerate(evs):
            if m == mask:
                return b
    return None


def judge(i, c, sop, imp, exact):
    out = []
    if sop is None:
        return [("missing", "no sum-of-products")]
    evs, mcs, tt = reference(c)
    lp = ccf.level_probs(c.model, c.n, c.q, c.factors)
    ps = [lp[k] for k, _ in evs] + [XP]
    got = []
    for p in sop:
        m = 0
        pr = 1.0
        for e in p:
            b = event_key(e, i, c, evs, out)
            if b is None:
                out.append(("event", "unexpected literal %s %s" % (e.tag, dict(e.attrib))))
                continue
            m |= 1 << b
            pr *= ps[b]
        got.append(m)
        if not mc.close(float(p.get("probability")), pr):
            out.append(("p-product", "product %s: probability %s, expected %.8g" % (
                bin(m), p.get("probability"), pr)))
    if sorted(got) != mcs:
        out.append(("mcs", "products %s, expected %s" % (sorted(got), mcs)))
    if exact:
        p = total(c, tt, ps, evs)
        if not mc.close(float(sop.get("probability")), p):
            out.append(("total", "probability %s, expected %.8g" % (sop.get("probability"), p)))
        if imp is not None:
            seen = set()
            for e in imp:
                b = event_key(e, i, c, evs, out)
                if b is None or b in seen:
                    out.append(("importance", "unexpected or repeated %s %s" % (
                        e.tag, dict(e.attrib))))
                    continue
                seen.add(b)
                if b < len(evs):
                    hi, lo = list(ps), list(ps)
                    hi[b], lo[b] = 1.0, 0.0
                    mif = total(c, tt, hi, evs) - total(c, tt, lo, evs)
                else:
                    mif = total(c, tt, ps, evs, 1.0) - total(c, tt, ps, evs, 0.0)
                occ = sum(1 for m in mcs if m >> b & 1)
                if not mc.close(float(e.get("MIF")), mif, abs_=2e-6):
                    out.append(("MIF", "MIF %s, expected %.8g" % (e.get("MIF"), mif)))
                if not mc.close(float(e.get("probability")), ps[b]):
                    out.append(("p-event", "event probability %s, expected %.8g" % (
                        e.get("probability"), ps[b])))
                if int(e.get("occurrence")) != occ:
                    out.append(("occurrence", "%s, expected %d" % (e.get("occurrence"), occ)))
            exp = {b for m in mcs for b in range(len(ps)) if m >> b & 1}
            if seen != exp:
                out.append(("importance", "events %s, expected %s" % (seen, exp)))
    elif False:
        pass
    return out


def judge_plain(i, c, sop, imp, exact):
    """Without common-cause analysis members are independent."""
    if sop is None:
        return [("missing", "no sum-of-products")]
    tt = ft.tree_tt(c.tree, c.n + 1)
    got, out = [], []
    for p in sop:
        m = 0
        for e in p:
            nm = e.get("name", "?").split(".")[-1]
            if e.tag != "basic-event":
                out.append(("event", "unexpected %s" % e.tag))
            elif nm == "x%d" % i:
                m |= 1 << c.n
            elif nm.startswith("m%d_" % i):
                m |= 1 << int(nm.split("_")[1])
            else:
                out.append(("event", "unexpected %s" % nm))
        got.append(m)
    if sorted(got) != sorted(ft.mcs_of(c.n + 1, tt)):
        out.append(("mcs", "products %s" % sorted(got)))
    p = ft.prob_of(c.n + 1, tt, [c.q] * c.n + [XP])
    if exact and not mc.close(float(sop.get("probability")), p):
        out.append(("total", "probability %s, expected %.8g" % (sop.get("probability"), p)))
    return out


def explore(cases, args, judge, what):
    cases = list(cases)
    label = " ".join(args)

    def job(ch):
        out, bad = [], []
        done = 0
        for cs, root in scram.run_trees(exe, ch, args, render,
                                        lambda c, r: bad.append((c, r)), stop=lambda: len(bad) > 4):
            sop = scram.results(root)
            imp = scram.results(root, "importance")
            for i, c in cs:
                done += 1
                top = "t%d_g0" % i
                if c.place == "private":
                    top = "t%d_.k%d.t%d_g0" % (i, i, i)
                for kind, txt in judge(i, c, sop.get(top), imp.get(top), "--bdd" in args):
                    out.append((kind, c, txt))
        for (i, c), r in bad:
            out.append(("abort", c, "exit %s: %s" % (r.rc, r.err.strip()[-300:])))
        return done, out[:40]

    tot = 0
    if len(ck.violations) > 40:
        return
    for done, out in mc.pmap(job, mc.chunks(enumerate(cases), 60 if cases and cases[0].n < 5 else 4)):
        tot += done
        for kind, c, txt in out:
            ck.violation("%s/%s/%s" % (kind, label.replace(" ", ""), c.show()),
                         "%s with %s: %s" % (c.show(), label, txt),
                         {"model": render([(0, c)]), "command": ["scram"] + args, "what": txt})
    ck.count("evaluations", tot)
    ck.count("distinct_nontrivial", len({(c.model, c.n, c.q, tuple(c.factors), c.place, c.tree)
                                         for c in cases}))
    ck.cov.setdefault("spaces", []).append({"what": what, "options": label, "cases": tot})


VAL = (0.0, 0.15, 0.5, 1.0)


def factor_sets(model, n, vals):
    """Every admissible positional factor list over vals."""
    lens = [1] if model == "beta-factor" else range(1, n if model == "MGL" else n + 1)
    for k in lens:
        for v in product(vals, repeat=k):
            f = [(None, x) for x in v]
            if model == "phi-factor":
                rest = 1 - sum(v[:-1])
                if v[-1] != vals[0] or not 0 <= rest <= 1:
                    continue
                f[-1] = (None, round(rest, 12))
            if ccf.valid(model, n, 0.1, f):
                yield f


def value_cases(ns, vals, qs, all_trees):
    for model in ccf.MODELS:
        for n in ns:
            ts = trees(n)
            for j, f in enumerate(factor_sets(model, n, vals)):
                for q in qs:
                    for t in (ts if all_trees else [ts[(j + k) % len(ts)] for k in range(2)]):
                        yield Case(model, n, q, f, False, "model", t)


def structure_cases(ns):
    """Places, explicit levels, orders of the levels, the single-factor form."""
    for model in ccf.MODELS:
        for n in ns:
            ts = trees(n)
            lo = {"beta-factor": n, "MGL": 2}.get(model, 1)
            tops = [n] if model == "beta-factor" else range(lo, n + 1)
            for top in tops:
                k = top - lo + 1
                vs = [0.5, 0.3, 0.2, 0.1][:k]
                if model == "phi-factor":
                    vs[-1] = round(1 - sum(vs[:-1]), 12)
                for perm in permutations(range(k)):
                    for expl in (False, True):
                        if expl:
                            f = [(lo + a, vs[a]) for a in perm]
                        elif list(perm) == sorted(perm):
                            f = [(None, v) for v in vs]
                        else:
                            continue
                        for single in ((False, True) if k == 1 else (False,)):
                            for place in PLACES:
                                for t in ts:
                                    yield Case(model, n, 0.2, f, single, place, t)


def large_cases(ns):
    """Groups beyond the size where all trees are explored: every model and highest level."""
    for model in ccf.MODELS:
        for n in ns:
            lo = {"beta-factor": n, "MGL": 2}.get(model, 1)
            for top in [n] if model == "beta-factor" else range(lo, n + 1):
                k = top - lo + 1
                vs = [0.45, 0.35, 0.3, 0.25, 0.2, 0.15, 0.1, 0.05][:k]
                if model == "phi-factor":
                    vs = [round(v / sum(vs), 6) for v in vs]
                    vs[-1] = round(1 - sum(vs[:-1]), 12)
                for t in ([(0, False), (n, False)], [(0, False), (n - 1, False)]):
                    c = "and" if t[1][0] == n - 1 else "or"
                    yield Case(model, n, 0.2, [(None, v) for v in vs], False, "model", ((c, 0, 0, tuple(t)),))


quick = T == "quick"
B = ["--bdd", "--ccf", "--probability", "--importance"]
if quick:
    vals = list(value_cases((2, 3), VAL, (0.2,), True)) + list(
        value_cases((4,), (0.0, 0.15, 1.0), (0.2,), False))
    st = list(structure_cases((2, 3)))
else:
    vals = list(value_cases((2, 3), (0.0, 1e-3, 0.15, 0.5, 0.9, 1.0), (0.0, 0.2, 1.0), True)) + list(
        value_cases((4,), VAL, (0.0, 0.2, 1.0), True)) + list(
        value_cases((5,), (0.0, 0.3, 1.0), (0.2,), False))
    st = list(structure_cases((2, 3, 4)))
explore(large_cases((5, 6, 7) if quick else (5, 6, 7, 8)), B, judge, "groups of five and more members")
explore(vals, B, judge, "factor values over the alphabet, positional levels")
explore(st, B, judge, "placement, explicit levels in every order, single factor")
small = [c for c in st if c.n < 4 or not quick]
for a in ("zbdd", "mocus"):
    explore(small, ["--" + a, "--ccf", "--probability"], judge, "other algorithms")
for a in ("bdd", "zbdd", "mocus"):
    explore([c for c in st if c.n == 3 and c.place in ("tree", "private")],
            ["--" + a, "--probability"], judge_plain, "without common-cause analysis")


# ---------------------------------------------------------------- setups to be accepted/rejected

def setup_cases():
    levels = (None, 1, 2, 3, 4)
    for model in ccf.MODELS:
        for n in (1, 2, 3):
            for k in ((1, 2) if quick else (1, 2, 3)):
                for ls in product(levels, repeat=k):
                    vs = [round(1.0 / k, 3)] * k
                    vs[-1] = round(1 - sum(vs[:-1]), 12)
                    yield model, n, 0.1, list(zip(ls, vs))
        for n in (2, 3):
            for q in (-0.1, 0.0, 1.0, 1.1):
                lo = {"beta-factor": n, "MGL": 2}.get(model, 1)
                for k in ([1] if model == "beta-factor" else range(1, n - lo + 2)):
                    for vs in product((-0.1, 0.0, 0.4, 0.6, 1.0, 1.1), repeat=k):
                        yield model, n, q, [(None, v) for v in vs]


def job(ch):
    out = []
    acc = 0
    for model, n, q, f in ch:
        c = Case(model, n, q, f, False, "model", (("or", 0, 0, ((0, False), (n, False))),))
        exp = ccf.valid(model, n, q, f)
        for args in (["--ccf", "--bdd", "--probability"],):
            r, root = scram.run_model(exe, render([(0, c)]), args)
            ok = r.rc == 0
            acc += ok
            if ok != exp or (not ok and (r.rc != 1 or not r.err.strip())):
                out.append((c, args, "expected %s, exit status %s: %s" % (
                    "acceptance" if exp else "rejection", r.rc, r.err.strip()[-200:])))
    return len(ch), acc, out


n_setup = n_acc = 0
for done, acc, out in mc.pmap(job, mc.chunks(setup_cases(), 40)):
    n_setup += done
    n_acc += acc
    for c, args, txt in out:
        ck.violation("setup/" + c.show(), "%s: %s" % (c.show(), txt),
                     {"model": render([(0, c)]), "command": ["scram"] + args, "what": txt})

# members shared between groups, defined twice, or repeated
EVIL = {
    "repeated member": ('<basic-event name="a"/><basic-event name="a"/>', ""),
    "member defined again": ('<basic-event name="a"/><basic-event name="b"/>',
                             '<define-basic-event name="a"><float value="0.1"/></define-basic-event>'),
    "member of two groups": ('<basic-event name="a"/><basic-event name="b"/>',
                             '<define-CCF-group name="d" model="beta-factor"><members><basic-event '
                             'name="b"/><basic-event name="c"/></members><distribution><float value='
                             '"0.1"/></distribution><factor><float value="0.1"/></factor>'
                             '</define-CCF-group>'),
    "group defined twice": ('<basic-event name="a"/><basic-event name="b"/>',
                            '<define-CCF-group name="c" model="beta-factor"><members><basic-event '
                            'name="e"/><basic-event name="f"/></members><distribution><float value='
                            '"0.1"/></distribution><factor><float value="0.1"/></factor>'
                            '</define-CCF-group>'),
    "member named like a gate": ('<basic-event name="a"/><basic-event name="g"/>', ""),
}
for name, (mem, more) in EVIL.items():
    for place in ("model", "tree"):
        for order in (0, 1):
            grp = ('<define-CCF-group name="c" model="beta-factor"><members>%s</members><distribution>'
                   '<float value="0.1"/></distribution><factor><float value="0.1"/></factor>'
                   '</define-CCF-group>' % mem)
            more_ = more
            if place == "model" and more.startswith("<define-basic-event"):
                more_ = "<model-data>%s</model-data>" % more
            parts = [grp, more_][::-1] if order else [grp, more_]
            gate = '<define-gate name="g"><or><basic-event name="a"/><basic-event name="y"/></or></define-gate>'
            y = '<define-basic-event name="y"><float value="0.1"/></define-basic-event>'
            if place == "model":
                xml = '<opsa-mef><define-fault-tree name="t">%s%s</define-fault-tree>%s</opsa-mef>' % (
                    gate, y, "".join(parts))
            else:
                xml = '<opsa-mef><define-fault-tree name="t">%s%s%s</define-fault-tree></opsa-mef>' % (
                    gate, y, "".join(parts))
            r, root = scram.run_model(exe, xml, ["--ccf", "--probability"])
            n_setup += 1
            if r.rc != 1 or not r.err.strip():
                ck.violation("evil/%s/%s/%d" % (name, place, order),
                             "%s is not rejected: exit status %s %s" % (name, r.rc, r.err[-200:]),
                             {"model": xml, "command": ["scram", "--ccf", "--probability"]})
ck.count("evaluations", n_setup)
ck.cov["setups"] = {"explored": n_setup, "accepted": n_acc}
ck.sample({"group": "MGL n=3 q=0.2 rho2=0.15 rho3=0.5",
           "probabilities": ccf.level_probs("MGL", 3, 0.2, [(None, .15), (None, .5)])})
sys.exit(ck.finish(
    rule="(group setup, tree over members, options) triples; distinct_nontrivial counts distinct "
         "(setup, placement, tree) per pass; oracle: products by covering, probabilities by "
         "summing over the independent common-cause events"))
