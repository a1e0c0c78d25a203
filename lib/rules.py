"""Tables of the documented rules for input: each row is (name, verdict, file texts); the verdict is
True (must be accepted), False (must be rejected) or None (only a clean verdict is required)."""
from itertools import combinations_with_replacement, permutations, product

quick = True

HEAD, TAIL = "<opsa-mef>", "</opsa-mef>"


def F(x):
    return "<float value='%s'/>" % x


def be(n, x="0.1"):
    return "<define-basic-event name='%s'>%s</define-basic-event>" % (n, x if x[:1] == "<" else F(x))


EVENTS = "".join(be(x) for x in "abcd") + "<define-house-event name='h'><constant value='true'/></define-house-event>"


def ft(gates, data=EVENTS):
    return HEAD + "<define-fault-tree name='ft'>%s</define-fault-tree><model-data>%s</model-data>" % (gates, data) + TAIL


def formulas():
    arg = {"a": "<event name='a'/>", "-a": "<not><event name='a'/></not>", "b": "<basic-event name='b'/>",
           "-b": "<not><basic-event name='b'/></not>", "c": "<event name='c'/>", "h": "<house-event name='h'/>",
           "k": "<gate name='k'/>", "-k": "<not><gate name='k'/></not>"}
    lists = [()]
    for n in range(1, 4 if quick else 5):
        lists += list(product(["a", "-a", "b", "h", "k"] if n < 4 else ["a", "b", "-b", "h"], repeat=n))
    lists += [("a", "b", "c", "h"), ("a", "b", "c", "h", "k")]
    base = lambda t: t.lstrip("-")
    for con in ("and", "or", "nand", "nor", "xor", "iff", "imply", "not", "atleast", "cardinality"):
        for l in lists:
            n, distinct = len(l), len({base(x) for x in l}) == len(l)
            if con == "atleast":
                variants = [({"min": str(k)}, n > k >= 2) for k in range(-1, 7)] + [({}, False), ({"min": "2", "max": "3"}, False)]
            elif con == "cardinality":
                variants = [({"min": str(lo), "max": str(hi)}, 0 <= lo <= hi <= n and n >= 1)
                            for lo in range(-1, 5) for hi in range(-1, 5)] + [({"min": "1"}, False), ({"max": "1"}, False)]
            else:
                ok = {"and": n >= 2, "or": n >= 2, "nand": n >= 2, "nor": n >= 2, "xor": n == 2, "iff": n == 2,
                      "imply": n == 2, "not": n == 1}[con]
                variants = [({}, ok)]
                if n == 2:
                    variants += [({"min": "2"}, False), ({"max": "1"}, False)]
            if n == 3 and con in ("atleast", "cardinality") and not distinct:
                variants = variants[3:4]
            for at, ok in variants:
                if con == "not" and any(x[0] == "-" for x in l):
                    ok = False
                body = "<%s%s>%s</%s>" % (con, "".join(" %s='%s'" % x for x in at.items()), "".join(arg[x] for x in l), con)
                yield "%s%s(%s)" % (con, at or "", ",".join(l)), ok and distinct, (
                    ft("<define-gate name='g'>%s</define-gate><define-gate name='k'><or><event name='c'/><event name='d'/></or></define-gate>" % body),)
    for body, ok in (("<event name='a'/>", True), ("<constant value='true'/>", True), ("<not><constant value='true'/></not>", False),
                     ("<and><event name='a'/><constant value='true'/></and>", True), ("<not><not><event name='a'/></not></not>", False),
                     ("<and><and><event name='a'/><event name='b'/></and><event name='c'/></and>", False), ("", False),
                     ("<event name='a'/><event name='b'/>", False), ("<event name='a' type='basic-event'/>", True),
                     ("<event name='a' type='house-event'/>", False), ("<event name='a' type='gate'/>", False),
                     ("<event name='h' type='house-event'/>", True), ("<event name='h' type='basic-event'/>", False),
                     ("<gate name='a'/>", False), ("<house-event name='a'/>", False), ("<basic-event name='h'/>", False)):
        yield "gate of " + body, ok, (ft("<define-gate name='g'>%s</define-gate>" % body),)


# Definitions by kind: text, the namespace they share, and where they may stand.
GATE = "<define-gate name='%s'><event name='e0'/></define-gate>"
KINDS = {
    "gate": ("ft", GATE, "event"), "basic-event": ("ft", "<define-basic-event name='%s'><float value='0.1'/></define-basic-event>", "event"),
    "house-event": ("ft", "<define-house-event name='%s'/>", "event"), "parameter": ("ft", "<define-parameter name='%s'><float value='1'/></define-parameter>", "parameter"),
    "component": ("ft", "<define-component name='%s'><define-house-event name='u%%d'/></define-component>", "component"),
    "CCF-group": ("ft", "<define-CCF-group name='%s' model='beta-factor'><members><basic-event name='m%%d'/><basic-event name='n%%d'/></members><distribution><float value='0.1'/></distribution><factor><float value='0.1'/></factor></define-CCF-group>", "ccf"),
    "fault-tree": ("top", "<define-fault-tree name='%s'/>", "fault-tree"),
    "event-tree": ("top", "<define-event-tree name='%s'><define-sequence name='q%%d'/><initial-state><sequence name='q%%d'/></initial-state></define-event-tree>", "event-tree"),
    "initiating-event": ("top", "<define-initiating-event name='%s'/>", "initiating"),
    "rule": ("top", "<define-rule name='%s'><set-house-event name='H'><constant value='true'/></set-house-event></define-rule>", "rule"),
    "alignment": ("top", "<define-alignment name='%s'><define-phase name='z' time-fraction='1'/></define-alignment>", "alignment"),
    "substitution": ("top", "<define-substitution name='%s'><hypothesis><and><basic-event name='e0'/><basic-event name='e1'/></and></hypothesis><target><constant value='false'/></target></define-substitution>", "substitution"),
    "sequence": ("et", "<define-sequence name='%s'/>", "sequence"),
    "functional-event": ("et", "<define-functional-event name='%s'/>", "functional"),
    "branch": ("et", "<define-branch name='%s'><sequence name='Q'/></define-branch>", "branch"),
    "phase": ("al", "<define-phase name='%s' time-fraction='0.5'/>", "phase"),
}
ORDER = {"functional-event": 0, "sequence": 1, "branch": 2}


def document(defs):
    """defs: (kind, name, index) -> one document with all of them in legal places."""
    part = {"ft": [], "top": [], "et": [], "al": []}
    for kind, name, i in defs:
        place, t, _ = KINDS[kind]
        t = t % name
        part[place].append((kind, t.replace("%d", str(i))))
    et = sorted(part["et"], key=lambda x: ORDER[x[0]])
    al = [t for _, t in part["al"]]
    if len(al) == 1:
        al.append("<define-phase name='other' time-fraction='0.5'/>")
    return (HEAD + "".join(t for _, t in part["top"]) +
            ("<define-event-tree name='ET'>%s<define-sequence name='Q'/>%s<initial-state><sequence name='Q'/></initial-state></define-event-tree>" % (
                "".join(t for k, t in et if k != "branch"), "".join(t for k, t in et if k == "branch")) if et else "") +
            ("<define-alignment name='AL'>%s</define-alignment>" % "".join(al) if al else "") +
            "<define-fault-tree name='FT'>%s</define-fault-tree>" % "".join(t for _, t in part["ft"]) +
            "<model-data>" + be("e0") + be("e1") + "<define-house-event name='H'/></model-data>" + TAIL)


def duplicates():
    for a, b in combinations_with_replacement(KINDS, 2):
        for n1, n2 in (("x", "x"), ("x", "X"), ("x", "y")):
            clash = n1 == n2 and KINDS[a][2] == KINDS[b][2]
            yield "%s %s with %s %s" % (a, n1, b, n2), not clash, (document([(a, n1, 1), (b, n2, 2)]),)
            if KINDS[a][0] != "al" and KINDS[b][0] != "al" and KINDS[a][0] == KINDS[b][0] == "top":
                yield "%s %s, %s %s in two files" % (a, n1, b, n2), not clash, (
                    HEAD + "<model-data>" + be("e0") + be("e1") + "<define-house-event name='H'/></model-data>" + TAIL,
                    HEAD + (KINDS[a][1] % n1).replace("%d", "1") + TAIL, HEAD + (KINDS[b][1] % n2).replace("%d", "2") + TAIL)
    # events and parameters of different containers: public names are global, private ones local
    ev = ["gate", "basic-event", "house-event"]
    for a, b in list(product(ev, repeat=2)) + [("parameter", "parameter"), ("parameter", "gate"), ("CCF-group", "CCF-group")]:
        for r1, r2 in product(("", " role='public'", " role='private'"), repeat=2):
            if "CCF-group" in (a, b) and (r1 or r2):
                continue
            for same in (False, True):
                da = (KINDS[a][1] % "x").replace("%d", "1").replace(" name='x'", " name='x'" + r1, 1)
                db = (KINDS[b][1] % "x").replace("%d", "2").replace(" name='x'", " name='x'" + r2, 1)
                if same:
                    t = "<define-fault-tree name='f1'>%s%s</define-fault-tree>" % (da, db)
                else:
                    t = "<define-fault-tree name='f1'>%s</define-fault-tree><define-fault-tree name='f2'>%s</define-fault-tree>" % (da, db)
                kin = KINDS[a][2] == KINDS[b][2]
                # a public and a private one with the same path share the local name
                clash = kin and (same or ("private" not in r1 and "private" not in r2))
                yield "%s%s and %s%s in %s" % (a, r1, b, r2, "one tree" if same else "two trees"), not clash, (
                    HEAD + t + "<model-data>" + be("e0") + "</model-data>" + TAIL,)


def ccf():
    models = ("beta-factor", "MGL", "alpha-factor", "phi-factor")
    for model in models:
        for m in range(1, 5):
            lo = {"beta-factor": m, "MGL": 2}.get(model, 1)
            choices = ["", "1", "2", "3", "4", "5"] if m < 4 or not quick else ["", "1", "2", "4"]
            for nf in range(1, 4):
                for levels in product(choices, repeat=nf):
                    if nf == 3 and quick and levels.count("") not in (0, 3):
                        continue
                    for fs in (["0.5"] * nf, ["1"] + ["0"] * (nf - 1)):
                        ok, seen, prev = m >= 2, {}, None
                        for l, f in zip(levels, fs):
                            lv = int(l) if l else (prev + 1 if prev else lo)
                            prev = lv
                            if lv < lo or lv > m or lv in seen:
                                ok = False
                            seen[lv] = float(f)
                        # the levels must be without gaps from the first
                        ok = ok and sorted(seen) == list(range(lo, lo + len(seen)))
                        s = sum(float(f) for f in fs)
                        if model == "alpha-factor" and s <= 0:
                            ok = False
                        if model == "phi-factor" and abs(s - 1) > 1e-4:
                            ok = False
                        for wrap in ((True, False) if nf == 1 else (True,)):
                            t = "".join("<factor%s>%s</factor>" % (" level='%s'" % l if l else "", F(f)) for l, f in zip(levels, fs))
                            yield "%s of %d members, levels %s factors %s" % (model, m, levels, fs), ok, (
                                HEAD + "<define-CCF-group name='c' model='%s'><members>%s</members><distribution>%s</distribution>%s</define-CCF-group>" % (
                                    model, "".join("<basic-event name='e%d'/>" % i for i in range(m)), F("0.1"), "<factors>%s</factors>" % t if wrap else t) + TAIL,)
        good = {"beta-factor": 1, "MGL": 2, "alpha-factor": 3, "phi-factor": 3}[model]
        vals = ["-0.1", "0", "0.3", "0.5", "1", "1.1"]
        for d in vals:
            fs = (["0.2", "0.3", "0.5"] if model[:3] == "phi" else ["0.5", "0.5", "0.5"])[:good]
            yield "%s with distribution %s" % (model, d), 0 <= float(d) <= 1, (group3(model, F(d), fs),)
        for fs in product(vals, repeat=good):
            x = [float(f) for f in fs]
            ok = all(0 <= v <= 1 for v in x)
            ok = ok and (model[:3] != "alp" or sum(x) > 0) and (model[:3] != "phi" or abs(sum(x) - 1) <= 1e-4)
            yield "%s with factors %s" % (model, fs), ok, (group3(model, F("0.1"), fs),)
        for d, ok in (("<uniform-deviate><float value='0.1'/><float value='0.2'/></uniform-deviate>", True),
                      ("<uniform-deviate><float value='0.9'/><float value='1.1'/></uniform-deviate>", False),
                      ("<uniform-deviate><float value='-0.1'/><float value='0.2'/></uniform-deviate>", False),
                      ("<parameter name='p'/>", False), ("<system-mission-time/>", False)):
            fs = (["0.2", "0.3", "0.5"] if model[:3] == "phi" else ["0.5", "0.5", "0.5"])[:good]
            yield "%s with distribution %s" % (model, d), ok, (group3(model, d, fs),)
    for n in range(2, 5):
        for k in range(n):
            names = ["e%d" % i for i in range(n)]
            names[k] = names[(k + 1) % n]
            yield "CCF members %s" % names, False, (HEAD + "<define-CCF-group name='c' model='beta-factor'><members>%s</members><distribution>%s</distribution><factor>%s</factor></define-CCF-group>" % (
                "".join("<basic-event name='%s'/>" % x for x in names), F("0.1"), F("0.1")) + TAIL,)
    for other, ok in (("<define-fault-tree name='f'>" + be("e0") + "</define-fault-tree>", False), ("<model-data>" + be("e1") + "</model-data>", False),
                      ("<model-data>" + be("e9") + "</model-data>", True), ("<define-fault-tree name='f'><define-gate name='e2'><event name='e0'/></define-gate></define-fault-tree>", False),
                      ("<define-CCF-group name='d' model='beta-factor'><members><basic-event name='e2'/><basic-event name='e3'/></members><distribution>%s</distribution><factor>%s</factor></define-CCF-group>" % (F("0.1"), F("0.1")), False),
                      ("<define-CCF-group name='d' model='beta-factor'><members><basic-event name='e4'/><basic-event name='e3'/></members><distribution>%s</distribution><factor>%s</factor></define-CCF-group>" % (F("0.1"), F("0.1")), True)):
        yield "a CCF member also in " + other, ok, (group3("beta-factor", F("0.1"), ["0.5"]).replace(TAIL, other + TAIL),)


def group3(model, d, fs):
    return HEAD + "<define-CCF-group name='c' model='%s'><members><basic-event name='e0'/><basic-event name='e1'/><basic-event name='e2'/></members><distribution>%s</distribution><factors>%s</factors></define-CCF-group>" % (
        model, d, "".join("<factor>%s</factor>" % F(f) for f in fs)) + TAIL


def numbers():
    """Lexical and semantic validity of probabilities, fractions and other numbers."""
    probs = {"0": 1, "1": 1, "0.5": 1, "-0": 1, "1e-300": 1, "1e-320": None, "+0.5": 1, ".5": 1, "5.": 0, "1E-2": 1, "1.0000000001": 0,
             "-1e-300": 0, "-0.5": 0, "2": 0, "NaN": 0, "INF": 0, "-INF": 0, "inf": 0, "1e999": 0, "": 0, " 0.5 ": None, "0,5": 0, "0x1": 0, "abc": 0,
             "0.5f": 0, "1e": 0, "--1": 0, "0.5 0.5": 0, "1e-999": None}
    for v, ok in probs.items():
        yield "probability %r" % v, None if ok is None else bool(ok), (HEAD + "<model-data>" + be("a", F(v)) + "</model-data>" + TAIL,)
        yield "collected expression %r" % v, None if ok is None else bool(ok), (HEAD + "<define-initiating-event name='I' event-tree='T'/><define-event-tree name='T'><define-sequence name='S'/><initial-state><collect-expression>%s</collect-expression><sequence name='S'/></initial-state></define-event-tree>" % F(v) + TAIL,)
    ints = {"0": 1, "1": 1, "-0": None, "+1": None, "2": 0, "-1": 0, "1.0": 0, "1e0": 0, "": 0, "abc": 0, "2147483648": 0, "-2147483649": 0, "99999999999999999999": 0, "0x1": 0}
    for v, ok in ints.items():
        yield "int probability %r" % v, None if ok is None else bool(ok), (HEAD + "<model-data>" + be("a", "<int value='%s'/>" % v) + "</model-data>" + TAIL,)
    for v, ok in {"true": 1, "false": 1, "1": 1, "0": 1, "True": 0, "TRUE": 0, "yes": 0, "": 0, "2": 0}.items():
        yield "bool %r" % v, bool(ok), (HEAD + "<model-data>" + be("a", "<bool value='%s'/>" % v) + "</model-data>" + TAIL,)
        yield "house event %r" % v, bool(ok), (HEAD + "<model-data><define-house-event name='h'><constant value='%s'/></define-house-event></model-data>" % v + TAIL,)
    fr = ["0", "0.25", "0.5", "0.75", "1", "1.5", "-0.5", "NaN", "INF", "0.3333333333333333"]
    for n in (1, 2, 3):
        for c in combinations_with_replacement(fr, n):
            x = [float(v) for v in c]
            ok = all(0 < v <= 1 for v in x) and abs(sum(x) - 1) < 1e-4
            yield "phases of %s" % (c,), ok, (HEAD + "<define-alignment name='A'>%s</define-alignment>" % "".join(
                "<define-phase name='p%d' time-fraction='%s'/>" % (i, v) for i, v in enumerate(c)) + TAIL,)
    units = ["bool", "int", "float", "hours", "hours-1", "years", "years-1", "fit", "demands"]
    for u in [""] + units:
        for r in [""] + units:
            same = not r or r == u
            yield "parameter in %r read in %r" % (u, r), same, (HEAD + "<model-data><define-parameter name='p'%s>%s</define-parameter>%s</model-data>" % (
                " unit='%s'" % u if u else "", F("0.5"), be("a", "<parameter name='p'%s/>" % (" unit='%s'" % r if r else ""))) + TAIL,)
        yield "mission time in %r" % u, u in ("", "hours"), (HEAD + "<model-data>%s</model-data>" % be(
            "a", "<exponential><float value='0.1'/><system-mission-time%s/></exponential>" % (" unit='%s'" % u if u else "")) + TAIL,)
    for u in ("h", "Hours", "", "unitless", "minutes"):
        yield "parameter in %r" % u, False, (HEAD + "<model-data><define-parameter name='p' unit='%s'>%s</define-parameter></model-data>" % (u, F("0.5")) + TAIL,)
    # uses of non-probability parameters, and the absence of expressions
    for e, ok in (("<system-mission-time/>", False), ("<pi/>", False), ("<parameter name='p'/>", False), ("<parameter name='q'/>", True),
                  ("<sub><parameter name='q'/><parameter name='p'/></sub>", False), ("<div><parameter name='q'/><parameter name='p'/></div>", True),
                  ("<div><parameter name='p'/><float value='0'/></div>", False), ("", False)):
        yield "probability " + (e or "missing"), ok, (HEAD + "<model-data><define-parameter name='p'><float value='5'/></define-parameter><define-parameter name='q'><float value='0.5'/></define-parameter><define-basic-event name='a'>%s</define-basic-event></model-data>" % e + TAIL,)
    names = {"a": 1, "_a": 1, "A-b": 1, "a1": 1, "a_b": 1, "é": None, "1a": 0, "-a": 0, "a b": 0, "": 0, "a.b": 0, "a:b": 0, "a-": 0, "a--b": 0, ".": 0, "[a]": 0, "a/b": 0}
    for v, ok in names.items():
        for k in ("define-basic-event", "define-parameter"):
            body = F("0.5")
            yield "%s named %r" % (k, v), None if ok is None else bool(ok), (HEAD + "<model-data><%s name='%s'>%s</%s></model-data>" % (k, v, body, k) + TAIL,)


def trees():
    """Forks and instructions of event trees."""
    fe = ("f1", "f2", "f3")

    def shapes(depth):
        yield None
        if depth:
            for f in fe:
                for a in shapes(depth - 1):
                    yield (f, a)

    def xml(s, via=""):
        if s is None:
            return "<sequence name='S'/>"
        return "<fork functional-event='%s'><path state='x'>%s</path><path state='y'><sequence name='S'/></path></fork>" % (s[0], xml(s[1]))

    def chain(s):
        return [] if s is None else [s[0]] + chain(s[1])

    def et(init, branches="", seq="", decl=fe, rest=""):
        return (HEAD + "<define-initiating-event name='I' event-tree='T'/><define-event-tree name='T'>" + "".join("<define-functional-event name='%s'/>" % f for f in decl) +
                "<define-sequence name='S'>%s</define-sequence><define-sequence name='R'/>" % seq + branches + "<initial-state>" + init +
                "</initial-state></define-event-tree>" + rest + "<model-data>" + EVENTS + "</model-data>" + TAIL,)

    for s in shapes(3):
        c = chain(s)
        ok = all(fe.index(a) < fe.index(b) for a, b in zip(c, c[1:]))
        yield "forks %s" % c, ok, et(xml(s))
        for k in range(1, len(c) + 1):   # the k-th fork stands in a named branch
            t, inner = s, s
            for _ in range(k - 1):
                inner = inner[1]
            body = xml(inner)
            outer = xml(t).replace(body, "<branch name='B'/>") if k > 1 else "<branch name='B'/>"
            yield "forks %s, from %d on in a branch" % (c, k), ok, et(outer, "<define-branch name='B'>%s</define-branch>" % body)
    for d in permutations(fe, 2):
        yield "forks f1,f2 declared %s" % (d,), d in (("f1", "f2"),), et(xml(("f1", ("f2", None))), decl=d)
    for n in (1, 2, 3):
        for st in product("xyz", repeat=n):
            yield "states %s" % (st,), len(set(st)) == n, et("<fork functional-event='f1'>%s</fork>" % "".join("<path state='%s'><sequence name='S'/></path>" % x for x in st))
    cf, ce = "<collect-formula><event name='a'/></collect-formula>", "<collect-expression><float value='0.5'/></collect-expression>"
    link, seth = "<event-tree name='U'/>", "<set-house-event name='h'><constant value='false'/></set-house-event>"
    U = {"plain": "", "cf": cf, "ce": ce}
    ins = {"": "", "cf": cf, "ce": ce, "set": seth, "link": link}
    wraps = {"": "%s", "block": "<block>%s</block>", "if": "<if><bool value='true'/>%s</if>", "else": "<if><bool value='true'/><set-house-event name='h'><constant value='true'/></set-house-event>%s</if>", "rule": "<rule name='r'/>"}
    for u, (pa, a), (pb, b) in product(U, product(("initial", "path", "branch", "sequence"), ins), product(("initial", "path", "branch", "sequence"), ins)):
        if not a and not b or (not quick and False):
            continue
        for w in wraps:
            if w and (a == "" or (quick and b and u != "plain")):
                continue
            put = {p: "" for p in ("initial", "path", "branch", "sequence")}
            rule = "<define-rule name='r'>%s</define-rule>" % ins[a] if w == "rule" else ""
            put[pa] += wraps[w] % ins[a] if w != "rule" else wraps[w]
            put[pb] += ins[b]
            where = [(pa, a), (pb, b)]
            ok = not any(x == "link" and p != "sequence" for p, x in where)
            kinds = {x for _, x in where if x in ("cf", "ce")}
            if any(x == "link" for _, x in where) and u != "plain":
                kinds.add(u)
            ok = ok and len(kinds) < 2
            t = et(put["initial"] + "<fork functional-event='f1'><path state='x'>" + put["path"] + "<sequence name='S'/></path><path state='y'><branch name='B'/></path></fork>",
                   "<define-branch name='B'>" + put["branch"] + "<sequence name='S'/></define-branch>", put["sequence"], rest=rule +
                   "<define-event-tree name='U'><define-sequence name='V'>%s</define-sequence><initial-state><sequence name='V'/></initial-state></define-event-tree>" % U[u])
            yield "%s in %s %s and %s in %s, linked tree %s" % (a or "-", pa, w, b or "-", pb, u), ok, t
    for t, ok in (("<set-house-event name='zz'><constant value='true'/></set-house-event>", False), ("<set-house-event name='a'><constant value='true'/></set-house-event>", False),
                  ("<collect-formula><event name='zz'/></collect-formula>", False), ("<collect-formula><and><event name='a'/><event name='a'/></and></collect-formula>", False),
                  ("<collect-expression><parameter name='zz'/></collect-expression>", False), ("<rule name='zz'/>", False), ("<block/>", True)):
        yield "instruction " + t, ok, et(t + "<sequence name='S'/>")
    for i, ok in (("<sequence name='zz'/>", False), ("<sequence name='T'/>", False), ("<branch name='zz'/>", False), ("<fork functional-event='zz'><path state='x'><sequence name='S'/></path></fork>", False), ("", False),
                  ("<fork functional-event='f1'/>", False), ("<sequence name='S'/><sequence name='R'/>", False), (cf, False), ("<sequence name='R'/>", True)):
        yield "initial state " + i, ok, et(i)
    for n, ok in (("zz", False), ("T", True), ("S", False), ("I", False)):
        yield "initiating event of " + n, ok, tuple(x.replace("event-tree='T'", "event-tree='%s'" % n) for x in et("<sequence name='S'/>"))
    # sequences are global, branches and functional events are local to their trees
    two = lambda a, b: (HEAD + "<define-event-tree name='T'><define-functional-event name='f1'/><define-sequence name='S'/><define-branch name='B'><sequence name='S'/></define-branch><initial-state>%s</initial-state></define-event-tree>"
                        "<define-event-tree name='U'><define-functional-event name='f2'/><define-sequence name='R'/><define-branch name='C'><sequence name='R'/></define-branch><initial-state>%s</initial-state></define-event-tree>" % (a, b) + TAIL,)
    yield "sequence of another tree", True, two("<sequence name='R'/>", "<sequence name='S'/>")
    yield "branch of another tree", False, two("<branch name='C'/>", "<sequence name='S'/>")
    yield "functional event of another tree", False, two("<fork functional-event='f2'><path state='x'><sequence name='S'/></path></fork>", "<sequence name='S'/>")


def documents():
    """Whole documents: encodings, entities, includes, namespaces, emptiness."""
    body = HEAD + "<model-data>" + be("a") + "</model-data>" + TAIL
    yield "empty file", False, (b"",)
    yield "blank file", False, (b" \n",)
    yield "plain text", False, (b"opsa-mef",)
    yield "empty model", True, ("<opsa-mef/>",)
    yield "two roots", False, (body + body,)
    yield "other root", False, ("<scram/>",)
    yield "unclosed", False, (body[:-1],)
    yield "byte order mark", True, (b"\xef\xbb\xbf" + body.encode(),)
    for enc in ("utf-8", "utf-16", "iso-8859-1", "us-ascii"):
        yield "encoded in " + enc, True, (("<?xml version='1.0' encoding='%s'?>" % enc + body).encode(enc),)
    yield "declared utf-16 but ascii", None, (("<?xml version='1.0' encoding='utf-16'?>" + body).encode(),)
    yield "unknown encoding", False, (("<?xml version='1.0' encoding='nope'?>" + body).encode(),)
    yield "invalid utf-8", False, (body.replace("<model-data>", "<label>@</label><model-data>").encode().replace(b"@", b"\xff"),)
    yield "version 1.1", None, ("<?xml version='1.1'?>" + body,)
    yield "comments", True, ("<!-- c --><opsa-mef><!-- c --><model-data><!-- c -->" + be("a", "<!-- c -->" + F("0.1") if False else "<float value='0.1'><!-- c --></float>") + "</model-data></opsa-mef><!-- c -->",)
    yield "processing instruction", None, ("<opsa-mef><?pi x?><model-data>" + be("a") + "</model-data></opsa-mef>",)
    yield "cdata label", True, ("<opsa-mef><label><![CDATA[a <b>]]></label></opsa-mef>",)
    yield "default namespace", False, (body.replace("<opsa-mef>", "<opsa-mef xmlns='urn:x'>"),)
    yield "foreign element", None, (body.replace("<model-data>", "<x:y xmlns:x='urn:x'/><model-data>"),)
    ent = "<!DOCTYPE opsa-mef [<!ENTITY e '0.5'>]>"
    yield "entity in an attribute", None, (ent + body.replace("0.1", "&e;"),)
    yield "entity in a text", None, (ent + body.replace("<model-data>", "<label>&e;</label><model-data>"),)
    yield "undefined entity", False, (body.replace("<model-data>", "<label>&zz;</label><model-data>"),)
    yield "character reference", True, (body.replace("<model-data>", "<label>&#65;&amp;</label><model-data>"),)
    yield "invalid character reference", False, (body.replace("<model-data>", "<label>&#0;</label><model-data>"),)
    yield "entity to a missing file", False, ("<!DOCTYPE opsa-mef [<!ENTITY e SYSTEM 'nowhere.xml'>]>" + body.replace("<model-data>", "&e;<model-data>"),)
    lol = "<!DOCTYPE opsa-mef [<!ENTITY a0 'lollollollollol'>" + "".join("<!ENTITY a%d '%s'>" % (i, ("&a%d;" % (i - 1)) * 10) for i in range(1, 10)) + "]>"
    yield "exponential entities", False, (lol + body.replace("<model-data>", "<label>&a9;</label><model-data>"),)
    xi = "<xi:include xmlns:xi='http://www.w3.org/2001/XInclude' href='%s'%s/>"
    yield "include of a missing file", False, (body.replace("<model-data>", xi % ("nowhere.xml", "") + "<model-data>"),)
    yield "include of itself", False, (body.replace("<model-data>", xi % ("f0.xml", "") + "<model-data>"),)
    yield "include of the other file", None, (body.replace("<model-data>", xi % ("f1.xml", "") + "<model-data>"), "<define-fault-tree name='f'/>")
    for n in (10, 200):
        deep = F("1")
        for _ in range(n):
            deep = "<neg>%s</neg>" % deep
        yield "%d nested expressions" % n, (None if n > 200 else True), (HEAD + "<model-data><define-parameter name='p'>%s</define-parameter></model-data>" % deep + TAIL,)
    deep = ""
    for i in range(300):
        deep = "<define-component name='c%d'>%s<define-house-event name='h%d'/></define-component>" % (i, deep, i)
    yield "300 nested components", None, (HEAD + "<define-fault-tree name='f'>%s</define-fault-tree>" % deep + TAIL,)
    yield "a very long name", True, (HEAD + "<model-data>" + be("a" * 20000) + "</model-data>" + TAIL,)


# Extern libraries and functions (the system's C and mathematics libraries stand for user ones).
LIBRARY = "<define-extern-library name='L' path='libm.so.6' system='true'/>"


def externs():
    def doc(lib, fn="", use=""):
        return (HEAD + lib + fn + ("<model-data><define-parameter name='p'>%s</define-parameter></model-data>" % use if use else "") + TAIL,)
    yield "a system library", True, doc(LIBRARY)
    fn = "<define-extern-function name='%s' symbol='%s' library='%s'>%s</define-extern-function>"
    for n, (sym, lib, types) in enumerate(product(("cos", "no_such_symbol"), ("L", "M"), [("double",) * k for k in range(0, 9)])):
        ok = sym == "cos" and lib == "L" and 1 <= len(types) <= 6
        yield "extern function %s of %s with %d types" % (sym, lib, len(types)), ok, doc(LIBRARY, fn % ("f", sym, lib, "".join("<%s/>" % t for t in types)))
    for n in range(0, 4):
        for k in range(0, 4):
            yield "extern function of %d called with %d" % (n, k), n == k, doc(
                LIBRARY, fn % ("f", "cos", "L", "<double/>" * (n + 1)), "<extern-function name='f'>%s</extern-function>" % (F("0.5") * k))
    yield "undefined extern function", False, doc(LIBRARY, "", "<extern-function name='f'/>")
    for path, ok in (("libm.so.6", True), ("no-such-library", False), ("", False), (".", False), ("..", False), ("x/", False), ("/", False), ("x:", False), ("x\\", False)):
        yield "library path %r" % path, ok, doc("<define-extern-library name='L' path='%s' system='true'/>" % path)
    yield "two libraries of a name", False, doc(LIBRARY * 2)
    yield "two functions of a name", False, doc(LIBRARY, (fn % ("f", "cos", "L", "<double/><double/>")) * 2)
    yield "not a library", False, doc("<define-extern-library name='L' path='f0.xml'/>")


TABLES = [("formulas", formulas), ("definitions", duplicates), ("common causes", ccf),
          ("numbers and names", numbers), ("event trees", trees), ("documents", documents)]
