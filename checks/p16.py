#!/usr/bin/env python3
"""P16: references by scope and role, by exhaustive enumeration of small container trees."""
import os
import sys
from itertools import combinations, product
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
import common
import loader
import mc
import scram

quick = common.tier() != "thorough"
ck = mc.Check("P16", "exploration", common.tier())
exe = build.build_cli()
ldr = build.build_harness("loader")

# Containers: the model, fault tree f with component c with component d, fault tree g.
PLACES = ["", "f", "f.c", "f.c.d", "g"]
TYPES = {"gate": "G", "basic-event": "B", "house-event": "H"}
REFS = ["x", "c.x", "d.x", "f.x", "g.x", "c.d.x", "f.c.x", "f.c.d.x", "X", "f.d.x", "f.c.d.c.x", "c"]


class Def:
    """One definition: place, type (an event type or parameter), role attribute and name."""
    __slots__ = ("place", "type", "role", "name")

    def __init__(self, place, type_, role, name="x"):
        self.place, self.type, self.role, self.name = place, type_, role, name

    def path(self):
        return self.place + "." + self.name

    def show(self):
        return "%s:%s%s" % (self.path(), self.type[0], "/" + self.role if self.role else "")

    def xml(self, k):
        role = " role='%s'" % self.role if self.role else ""
        body = {"gate": "<and><basic-event name='z'/><house-event name='y'/></and>",
                "basic-event": "<float value='0.5'/>", "house-event": "<constant value='true'/>",
                "parameter": "<float value='%g'/>" % (0.125 * (k + 1))}[self.type]
        return "<define-%s name='%s'%s>%s</define-%s>" % (self.type, self.name, role, body, self.type)


def effective(attr, parent):
    return attr or parent


def roles_of(comp):
    c = effective(comp[0], "public")
    d = effective(comp[1], c)
    return {"": "public", "f": "public", "g": "public", "f.c": c, "f.c.d": d}


def placed(defs):
    """Gates cannot stand in the model data."""
    return all(d.place or d.type != "gate" for d in defs)


def verdict(defs, comp):
    """Is the set of definitions acceptable by itself?"""
    base = roles_of(comp)
    seen_id, seen_local = set(), set()
    for d in defs:
        space = "p" if d.type == "parameter" else "e"
        role = effective(d.role, base[d.place])
        if role == "private" and not d.place:
            return False
        ident = d.name if role == "public" else d.path()
        if (space, ident) in seen_id or (space, d.path()) in seen_local:
            return False
        seen_id.add((space, ident))
        seen_local.add((space, d.path()))
    return True


def resolve(defs, comp, place, ref, kinds):
    base = roles_of(comp)
    if place:
        for d in defs:
            if d.type in kinds and d.path() == place + "." + ref:
                return d
    for d in defs:
        if d.type in kinds:
            if "." in ref:
                if d.path() == ref:
                    return d
            elif d.name == ref and effective(d.role, base[d.place]) == "public":
                return d
    return None


def model(defs, comp, refs, order=0):
    """refs: [(place, XML of a definition)]"""
    inside = {p: [] for p in PLACES}
    for k, d in enumerate(defs):
        inside[d.place].append(d.xml(k))
    for p, text in refs:
        inside.setdefault(p, []).append(text)
    for p in ("f", "f.c", "f.c.d", "g"):
        inside[p].append("<define-gate name='q%s' role='public'><and><basic-event name='z'/><house-event name='y'/>"
                         "</and></define-gate>" % p.replace(".", ""))
    if order & 1:
        for v in inside.values():
            v.reverse()
    attr = [" role='%s'" % r if r else "" for r in comp]
    d = "<define-component name='d'%s>%s</define-component>" % (attr[1], "".join(inside["f.c.d"]))
    c = "<define-component name='c'%s>%s</define-component>" % (
        attr[0], (d + "".join(inside["f.c"])) if order & 1 else "".join(inside["f.c"]) + d)
    parts = ["<define-fault-tree name='f'>%s</define-fault-tree>" % (
        (c + "".join(inside["f"])) if order & 1 else "".join(inside["f"]) + c),
        "<define-fault-tree name='g'>%s</define-fault-tree>" % "".join(inside["g"]),
        "<model-data>%s<define-basic-event name='z'><float value='0.25'/></define-basic-event>"
        "<define-house-event name='y'/></model-data>" % "".join(inside[""])]
    if order & 1:
        parts.reverse()
    return "<opsa-mef>%s</opsa-mef>" % "".join(parts + inside.get("top", []))


FORMS = [("<event name='%s'/>", tuple(TYPES)), ("<gate name='%s'/>", ("gate",)),
         ("<basic-event name='%s'/>", ("basic-event",)),
         ("<house-event name='%s'/>", ("house-event",)),
         ("<event name='%s' type='gate'/>", ("gate",)),
         ("<event name='%s' type='basic-event'/>", ("basic-event",)),
         ("<event name='%s' type='house-event'/>", ("house-event",))]


def ref_def(place, ref, form, k):
    if form == "parameter":
        return "<define-basic-event name='r%d' role='public'><parameter name='%s'/></define-basic-event>" % (
            k, ref)
    return "<define-gate name='r%d' role='public'><xor>%s<basic-event name='z'/></xor></define-gate>" % (
        k, form % ref)


def all_refs(defs):
    if any(d.type == "parameter" for d in defs):
        for place, ref in product(PLACES, REFS):
            yield place, ref, "parameter", ("parameter",)
    if any(d.type != "parameter" for d in defs):
        for place, ref, (form, kinds) in product(PLACES[1:], REFS, FORMS):
            if form.count("type") == 1 and quick and place == "f.c.d":
                continue
            yield place, ref, form, kinds


def label(defs, comp):
    return "%s c=%s d=%s" % (",".join(d.show() for d in defs), comp[0], comp[1])


def models_of(defs, comp, order, rejects):
    """Yields (label, expected, text); expected None: rejected, otherwise {name: target}."""
    name = label(defs, comp) + ("/reversed" if order else "")
    if not verdict(defs, comp):
        yield name + " alone", None, model(defs, comp, (), order)
        return
    good, want = [], {}
    for k, (place, ref, form, kinds) in enumerate(all_refs(defs)):
        d = resolve(defs, comp, place, ref, kinds)
        text = ref_def(place, ref, form, k)
        if d is not None:
            good.append((place, text))
            want["r%d" % k] = ("%s in %s" % (ref, place), "%.17g" % (
                0.125 * (defs.index(d) + 1)) if form == "parameter" else TYPES[d.type] + d.path())
        elif rejects:
            yield "%s: %s as %s in %s" % (name, ref, kinds, place), None, model(
                defs, comp, [(place, text)], order)
    yield name, want, model(defs, comp, good, order)


def check(expected, verdict, lines):
    if isinstance(verdict, str):
        return verdict
    if expected is None:
        if verdict is None:
            return "must be rejected"
        ok = any(k in verdict[0] for k in ("Undefined", "Duplicate", "ValidityError"))
        return None if ok else "is rejected as %s" % verdict[0]
    if verdict is not None:
        return "must be accepted: %s" % " ".join(verdict)
    got = {}
    for line in lines:
        f = line.split()
        if f[2].startswith("r") and f[2][1:].isdigit():
            if f[0] == "G":
                t = [a[1:] for a in f[4:] if a != "+B.z"]
                got[f[2]] = t[0].split("=")[0] if len(t) == 1 else str(f)
            elif f[0] == "B":
                got[f[2]] = f[3]
    for r, (what, target) in expected.items():
        if got.get(r) != target:
            return "%s resolves to %s, expected %s" % (what, got.get(r), target)
    return None


def explore(what, cases, rejects, orders=(0, 1)):
    cases = (c for c in cases if placed(c[0]))

    def job(chunk):
        todo = [m for defs, comp in chunk for o in orders for m in models_of(defs, comp, o, rejects)]
        bad, refs = [], 0
        for i, v, lines in loader.load(ldr, [[m[2]] for m in todo], "dump"):
            w = check(todo[i][1], v, lines)
            refs += len(todo[i][1] or ()) or 1
            if w:
                bad.append((todo[i][0], w, todo[i][2]))
        return len(todo), refs, bad

    n = r = 0
    for k, refs, bad in mc.pmap(job, mc.chunks(cases, 8)):
        n, r = n + k, r + refs
        for name, w, text in bad:
            ck.violation(name, "%s: %s" % (name, w), {"model": text})
    ck.count("evaluations", r)
    ck.count("models", n)
    ck.cov.setdefault("spaces", []).append({"what": what, "models": n, "references": r})


ROLES = (None, "public", "private")
COMPS = list(product(ROLES, ROLES))
if quick:
    COMPS4 = [(None, None), ("private", None), (None, "private"), ("private", "public")]
else:
    COMPS4 = COMPS
events = [Def(p, t, r) for p in PLACES for t in TYPES for r in ROLES]
params = [Def(p, "parameter", r) for p in PLACES for r in ROLES]

explore("one event", (((d,), c) for d in events for c in COMPS), True)
explore("one parameter", (((d,), c) for d in params for c in COMPS), True)
pairs = list(combinations(events, 2))
if quick:   # one type for the second definition of each combination of types up to renaming
    pairs = [(a, b) for a, b in pairs if (a.type, b.type) in (
        ("gate", "gate"), ("gate", "basic-event"), ("basic-event", "house-event"),
        ("basic-event", "gate"), ("house-event", "basic-event"))]
ck.count("pairs", len(pairs))
explore("two events", ((d, c) for d in pairs for c in COMPS4), False)
explore("two events, undefined references", ((d, COMPS4[k % len(COMPS4)]) for k, d in enumerate(
    pairs[::3] if quick else pairs)), True, (0,))
explore("two parameters", ((d, c) for d in combinations(params, 2) for c in COMPS), True)
small = [Def(p, t, r) for p in PLACES for t in ("gate", "basic-event") for r in (None, "private")]
explore("three events", ((d, c) for d in combinations(small, 3) for c in COMPS4[:4]), False,
        (0,) if quick else (0, 1))
explore("three parameters", ((d, c) for d in combinations(params, 3) for c in COMPS4[:4]), False)
explore("an event and a parameter of the same name", (
    ((a, b), c) for a in events for b in params for c in COMPS4[:2]), False, (0,))
explore("names differ in case", (((Def(p, "basic-event", r), Def(q, t, s, "X")), c)
                                 for p in PLACES for q in PLACES for r in ROLES for s in ROLES
                                 for t in ("basic-event", "gate") for c in COMPS4[:2]), False, (0,))
ck.distinct.update(label(d, c) for d in pairs for c in COMPS4)


# ------------------------------------------------------------------ members of common-cause groups

CCF = ("<define-CCF-group name='%s' model='beta-factor'><members><basic-event name='x'/><basic-event "
       "name='%s'/></members><distribution><float value='0.5'/></distribution><factor level='2'>"
       "<float value='0.25'/></factor></define-CCF-group>")


def ccf_cases():
    role = None     # the schema has no roles for groups
    for place, other, orole, comp in product(PLACES, [None] + PLACES, ROLES, COMPS4[:4]):
        if other is None and orole:
            continue
        group = Def(place, "basic-event", role)
        twin = Def(place, "basic-event", role, "m")
        defs = [group, twin] + ([Def(other, "gate", orole)] if other is not None else [])
        if placed(defs):
            yield place, defs, comp


def ccf_job(chunk):
    todo = []
    for place, defs, comp in chunk:
        base = "%s ccf in %s" % (label(defs[2:], comp), place)
        text = CCF % ("C", "m")
        at = place or "top"
        rest = defs[2:]
        if not verdict(defs, comp):
            todo.append((base, None, model(rest, comp, [(at, text)])))
            continue
        good, want = [(at, text)], {}
        for k, (p, ref, form, kinds) in enumerate(all_refs(defs)):
            d = resolve(defs, comp, p, ref, kinds)
            if d is not None:
                good.append((p, ref_def(p, ref, form, k)))
                want["r%d" % k] = ("%s in %s" % (ref, p), TYPES[d.type] + d.path())
            elif form == FORMS[0][0] and ref in ("x", "f.x", "c.x"):
                todo.append(("%s: %s in %s" % (base, ref, p), None, model(
                    rest, comp, [(at, text), (p, ref_def(p, ref, form, k))])))
        todo.append((base, want, model(rest, comp, good)))
    bad = []
    for i, v, lines in loader.load(ldr, [[m[2]] for m in todo], "dump"):
        w = check(todo[i][1], v, lines)
        if w:
            bad.append((todo[i][0], w, todo[i][2]))
    return len(todo), bad


for k, bad in mc.pmap(ccf_job, mc.chunks(ccf_cases(), 8)):
    ck.count("evaluations", k)
    ck.count("ccf_models", k)
    for name, w, text in bad:
        ck.violation(name, "%s: %s" % (name, w), {"model": text})


# ------------------------------------------------------------------ references outside of containers

def outside():
    """References in event trees, alignments and substitutions stand in no container."""
    for d, comp, ref in product([Def(p, t, r) for p in PLACES for t in TYPES for r in (None, "private")],
                                COMPS4[:2], REFS[:8]):
        if not placed([d]) or not verdict([d], comp):
            continue
        path = "<initial-state>%s<sequence name='S'/></initial-state>"
        et = "<define-initiating-event name='I' event-tree='T'/><define-event-tree name='T'>" \
             "<define-sequence name='S'/>%s</define-event-tree>"
        for what, kinds, text in (
                ("collect", tuple(TYPES), et % (path % (
                    "<collect-formula><and><event name='%s'/><basic-event name='z'/></and>"
                    "</collect-formula>" % ref))),
                ("set", ("house-event",), et % (path % (
                    "<set-house-event name='%s'><constant value='true'/></set-house-event>" % ref))),
                ("phase", ("house-event",), "<define-alignment name='A'><define-phase name='P' "
                 "time-fraction='1'><set-house-event name='%s'><constant value='true'/>"
                 "</set-house-event></define-phase></define-alignment>" % ref),
                ("hypothesis", ("basic-event",), "<define-substitution name='U'><hypothesis><and>"
                 "<basic-event name='%s'/><basic-event name='z'/></and></hypothesis><target><constant "
                 "value='false'/></target></define-substitution>" % ref),
                ("target", ("basic-event",), "<define-substitution name='U'><hypothesis><and>"
                 "<basic-event name='z'/><basic-event name='z2'/></and></hypothesis><target><basic-event "
                 "name='%s'/></target></define-substitution>" % ref)):
            xml = model([d], comp, [("", "<define-basic-event name='z2'><float value='0.5'/>"
                                         "</define-basic-event>")])
            xml = xml.replace("<opsa-mef>", "<opsa-mef>" + text)
            # the schema allows only plain names in set-house-event
            yield "%s %s %s" % (what, ref, label([d], comp)), what, \
                (resolve([d], comp, "", ref, kinds) is not None and
                 not ("." in ref and what in ("set", "phase"))), xml


def outside_job(item):
    name, what, ok, xml = item
    r, root = scram.run_model(exe, xml, ["--bdd", "--probability"], "ou")
    if r.crashed or ok != (r.rc == 0) or (r.rc and not r.err.strip()):
        return name, "must be %s: exit status %s %s" % (
            "accepted" if ok else "rejected", r.rc, r.err[-200:]), xml
    return None


n = 0
space = list(outside())
if quick:
    space = [x for x in space if x[2] or "private" in x[0]]
for bad in mc.pmap(outside_job, space):
    n += 1
    if bad:
        ck.violation("outside/" + bad[0], "%s %s" % bad[:2], {"model": bad[2]})
ck.count("evaluations", n)
ck.count("outside_models", n)
ck.sample(label(pairs[7], COMPS4[1]))
ck.assumptions.append("a private element can be named from anywhere by its full path; the enclosing "
                      "containers of a container are not searched")
sys.exit(ck.finish(rule="every placement of one, two and three definitions of the same name in the container "
                        "tree with every role, referred to from every container in every form"))
