#!/usr/bin/env python3
"""P17: orders of definition and splits into files, all of them for a set of base models."""
import os
import sys
import tempfile
import xml.etree.ElementTree as ET
from itertools import combinations, permutations, product
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
import common
import mc
import report
import scram

quick = common.tier() != "thorough"
ck = mc.Check("P17", "exploration", common.tier())
exe = build.build_cli()


def F(x):
    return "<float value='%g'/>" % x


def be(n, p):
    return "<define-basic-event name='%s'>%s</define-basic-event>" % (n, p if p[:1] == "<" else F(float(p)))


def gate(n, body, role=""):
    return "<define-gate name='%s'%s>%s</define-gate>" % (n, " role='%s'" % role if role else "", body)


def refs(*names):
    return "".join("<event name='%s'/>" % n for n in names)


def AND(*n):
    return "<and>%s</and>" % refs(*n)


def OR(*n):
    return "<or>%s</or>" % refs(*n)


def ft(name, *parts):
    return "<define-fault-tree name='%s'>%s</define-fault-tree>" % (name, "".join(parts))


def data(*parts):
    return "<model-data>%s</model-data>" % "".join(parts)


def param(n, body):
    return "<define-parameter name='%s'>%s</define-parameter>" % (n, body)


def P(n):
    return "<parameter name='%s'/>" % n


def house(n, v):
    return "<define-house-event name='%s'><constant value='%s'/></define-house-event>" % (n, v)


def ccf(name, members, q, b):
    return ("<define-CCF-group name='%s' model='beta-factor'><members>%s</members><distribution>%s"
            "</distribution><factor level='%d'>%s</factor></define-CCF-group>" % (
                name, "".join("<basic-event name='%s'/>" % m for m in members), q, len(members), b))


ALL = ["--probability", "--importance", "--ccf"]

# name -> (options, the top-level constructs in any order)
TOP = {
    "trees": (["--bdd"] + ALL, [
        ft("f", gate("top", OR("g1", "h")), gate("g1", AND("b1", "c1"))),
        ft("g", gate("h", "<atleast min='2'>%s</atleast>" % refs("b2", "c2", "g.k.p")),
           "<define-component name='k' role='private'>%s%s</define-component>" % (
               gate("p", OR("q", "b1")), be("q", P("lam")))),
        data(be("b1", P("lam2")), be("b2", "0.25"), house("hh", "true")),
        data(param("lam", "<mul>%s%s</mul>" % (P("lam2"), F(0.5))), param("lam2", F(0.125))),
        ccf("C", ("c1", "c2"), P("lam2"), P("lam"))]),
    "mocus": (["--mocus", "--mcub"] + ALL, [
        ft("f", gate("top", AND("a", "h", "z"))), ft("g", gate("a", OR("b1", "b2"))),
        ft("h", gate("h", OR("b2", "b3", "v"))), data(be("b1", "0.1"), be("b2", "0.2"), be("b3", "0.3")),
        data(house("z", "true"), house("v", "false"))]),
    "events": (["--bdd", "--probability"], [
        "<define-initiating-event name='I' event-tree='T'/>",
        "<define-event-tree name='T'><define-functional-event name='F'/><define-sequence name='S1'/>"
        "<define-sequence name='S2'><rule name='R2'/><event-tree name='U'/></define-sequence><initial-state><rule name='R1'/>"
        "<fork functional-event='F'><path state='x'><collect-formula><gate name='top'/></collect-formula>"
        "<sequence name='S1'/></path><path state='y'><sequence name='S2'/></path></fork></initial-state>"
        "</define-event-tree>",
        "<define-event-tree name='U'><define-sequence name='V'/><initial-state><rule name='R1'/>"
        "<collect-formula><basic-event name='b2'/></collect-formula><sequence name='V'/></initial-state>"
        "</define-event-tree>",
        "<define-rule name='R1'><rule name='R2'/><collect-formula><basic-event name='b1'/>"
        "</collect-formula></define-rule>",
        "<define-rule name='R2'><set-house-event name='z'><constant value='true'/></set-house-event>"
        "</define-rule>",
        ft("f", gate("top", AND("b3", "z"))) + data(
            be("b1", "0.1"), be("b2", "0.2"), be("b3", "0.3"), house("z", "false"))]),
    "phases": (["--bdd", "--probability", "--mission-time", "100"], [
        "<define-alignment name='A'><define-phase name='p' time-fraction='0.25'><set-house-event "
        "name='z'><constant value='true'/></set-house-event></define-phase><define-phase name='q' "
        "time-fraction='0.75'/></define-alignment>",
        ft("f", gate("top", OR("a", "g"))), ft("g", gate("g", AND("b", "z"))),
        data(be("a", "<exponential>%s<system-mission-time/></exponential>" % P("lam")), be("b", "0.5")),
        data(param("lam", F(0.001)), house("z", "false"))]),
    "substitutions": (["--mocus", "--probability"], [
        "<define-substitution name='s1'><hypothesis><and><basic-event name='a'/><basic-event name='b'/>"
        "</and></hypothesis><target><constant value='false'/></target></define-substitution>",
        "<define-substitution name='s2'><hypothesis><basic-event name='c'/></hypothesis><source>"
        "<basic-event name='c'/></source><target><basic-event name='d'/></target></define-substitution>",
        ft("f", gate("top", OR("g", "h"))), ft("g", gate("g", AND("a", "b")), gate("h", AND("a", "c"))),
        data(be("a", "0.1"), be("b", "0.2"), be("c", "0.3"), be("d", "0.4"))]),
    "units": (["--bdd"] + ALL, None),
    "curve": (["--bdd", "--probability", "--sil", "--time-step", "40", "--mission-time", "100"], [
        ft("f", gate("top", AND("a", "b"))), data(be("a", P("p1"))), data(be("b", P("p2"))),
        data(param("p1", "<exponential>%s%s</exponential>" % (P("l"), P("t"))), param("p2", P("p1"))),
        data(param("l", F(0.01)), param("t", "<system-mission-time/>"))]),
}

UNIT = [
    "<define-parameter name='rate' unit='hours-1'>%s</define-parameter>" % P("half"),
    "<define-parameter name='half' unit='demands'>%s</define-parameter>" % F(0.5),
    "<define-parameter name='time' unit='hours'><system-mission-time unit='hours'/></define-parameter>",
    be("a", "<exponential><parameter name='rate' unit='hours-1'/><parameter name='time' unit='hours'/></exponential>"),
    be("b", "<mul><parameter name='half' unit='demands'/><parameter name='f.k.in' unit='years'/></mul>")]
UNIT_TREE = ft("f", gate("top", AND("a", "b")), "<define-component name='k'><define-parameter name='in' "
               "unit='years'><parameter name='rate' unit='hours-1'/></define-parameter></define-component>")

TOP["units"] = (TOP["units"][0], [UNIT_TREE, data(*UNIT[:2]), data(*UNIT[2:4]), data(UNIT[4])])

# name -> (options, text with %s for the children, the children in any order)
INNER = {
    "units": (["--bdd"] + ALL, "<opsa-mef><model-data>%%s</model-data>%s</opsa-mef>" % UNIT_TREE, UNIT),
    "parameters": (["--bdd"] + ALL, "<opsa-mef>%s<model-data>%%s</model-data></opsa-mef>" % ft(
        "f", gate("top", AND("a", "b"))), [
            param("p1", "<add>%s%s</add>" % (P("p2"), P("p3"))), param("p2", "<mul>%s%s</mul>" % (
                P("p3"), F(2))), param("p3", F(0.125)), be("a", P("p1")), be("b", P("p3"))]),
    "gates": (["--bdd"] + ALL, "<opsa-mef><define-fault-tree name='f'>%%s</define-fault-tree>%s</opsa-mef>" %
              data(be("x", "0.1"), be("y", "0.2"), be("z", "0.3")), [
                  gate("top", OR("g1", "g2")), gate("g1", AND("g3", "x")),
                  gate("g2", "<and>%s<not>%s</not></and>" % (refs("g3"), refs("c.g4"))),
                  gate("g3", OR("y", "z", "c.g4")), "<define-component name='c' role='private'>%s%s"
                  "</define-component>" % (gate("g4", OR("x", "w")), be("w", "0.4"))]),
    "container": (["--zbdd"] + ALL, "<opsa-mef><define-fault-tree name='f'>%s<define-component name='k'>"
                  "%%s</define-component></define-fault-tree></opsa-mef>" % gate("top", OR("g", "m1")), [
                      gate("g", AND("m1", "m2", "u")), be("u", P("q")), param("q", F(0.25)),
                      ccf("C", ("m1", "m2"), P("q"), P("r")), param("r", F(0.5))]),
    "tree": (["--bdd", "--probability"], "<opsa-mef><define-initiating-event name='I' event-tree='T'/>"
             "<define-event-tree name='T'><define-functional-event name='F'/><define-functional-event "
             "name='G'/>%%s<initial-state><branch name='B1'/></initial-state></define-event-tree>%s"
             "</opsa-mef>" % data(be("a", "0.1"), be("b", "0.2"), be("c", "0.3")), [
                 "<define-sequence name='S1'/>", "<define-sequence name='S2'><collect-formula>"
                 "<basic-event name='c'/></collect-formula></define-sequence>",
                 "<define-branch name='B1'><fork functional-event='F'><path state='x'><collect-formula>"
                 "<basic-event name='a'/></collect-formula><branch name='B2'/></path><path state='y'>"
                 "<branch name='B3'/></path></fork></define-branch>",
                 "<define-branch name='B2'><fork functional-event='G'><path state='x'><sequence name='S1'/>"
                 "</path><path state='y'><branch name='B3'/></path></fork></define-branch>",
                 "<define-branch name='B3'><collect-formula><basic-event name='b'/></collect-formula>"
                 "<sequence name='S2'/></define-branch>"], 2),  # the schema puts sequences before branches
}

# Models that must be rejected in every order and split.
BAD = {
    "double-event": [ft("f", gate("top", AND("a", "b"))), data(be("a", "0.1"), be("b", "0.1")),
                     data(be("a", "0.1"))],
    "event-gate": [ft("f", gate("top", AND("a", "b"))), data(be("a", "0.1"), be("b", "0.1")),
                   ft("g", gate("a", AND("b", "top")))],
    "member": [ft("f", gate("top", AND("a", "b"))), data(be("a", "0.1")), data(be("b", "0.1")),
               ccf("C", ("a", "d"), F(0.1), F(0.2))],
    "groups": [ft("f", gate("top", AND("a", "b"))), ccf("D", ("a", "b"), F(0.1), F(0.2)),
               ccf("C", ("b", "d"), F(0.1), F(0.2))],
    "cycle": [ft("f", gate("top", AND("a", "g"))), ft("g", gate("g", OR("a", "h"))),
              ft("h", gate("h", OR("a", "top"))), data(be("a", "0.1"))],
    "parameters": [ft("f", gate("top", AND("a", "b"))), data(be("a", P("p")), be("b", "0.5")),
                   data(param("p", P("q"))), data(param("q", P("p")))],
    "undefined": [ft("f", gate("top", AND("a", "g"))), ft("g", gate("g", OR("a", "h"))),
                  data(be("a", "0.1"))],
    "range": [ft("f", gate("top", AND("a", "b"))), data(be("a", P("p"))), data(be("b", "0.5")),
              data(param("p", F(1.5)))],
    "trees": [ft("f", gate("top", AND("a", "b"))), data(be("a", "0.1"), be("b", "0.1")),
              ft("f", gate("top2", AND("a", "b")))],
    "rule": ["<define-rule name='R1'><rule name='R2'/></define-rule>",
             "<define-rule name='R2'><rule name='R3'/></define-rule>",
             "<define-rule name='R3'><rule name='R1'/></define-rule>"],
}


def wrap(parts):
    return "<opsa-mef>%s</opsa-mef>" % "".join(parts)


def ordered_partitions(n):
    """Ordered partitions of range(n) into non-empty files (definition order kept in a file)."""
    def rec(rest):
        if not rest:
            yield ()
            return
        for k in range(1, len(rest) + 1):
            for block in combinations(rest, k):
                left = tuple(x for x in rest if x not in block)
                for tail in rec(left):
                    yield (block,) + tail
    yield from rec(tuple(range(n)))


def run(files, opts, how="cli"):
    """how: cli | project | mixed (first file in the project) | sub (project elsewhere) | absolute"""
    d = tempfile.mkdtemp(dir=mc.scratch(), prefix="sp")
    names = []
    for i, text in enumerate(files):
        names.append("in%d.xml" % i)
        scram.write(os.path.join(d, names[-1]), text)
    out = os.path.join(d, "out.xml")
    args = list(opts)
    if how == "cli":
        args += names
    else:
        base, proj = "", "project.xml"
        if how == "sub":
            os.mkdir(os.path.join(d, "sub"))
            base, proj = "../", "sub/project.xml"
        elif how == "absolute":
            base = d + "/"
        inside = names[:1] if how == "mixed" else names
        scram.write(os.path.join(d, proj), "<scram><model>%s</model><options/></scram>" % "".join(
            "<file>%s%s</file>" % (base, n) for n in inside))
        args += ["--project", proj] + [n for n in names if n not in inside]
    r = mc.run([exe] + args + ["-o", out], cwd=d)
    root = None
    if r.rc == 0:
        try:
            root = ET.parse(out).getroot().find("results")
        except (ET.ParseError, OSError) as e:
            r.err += "unreadable report: %s" % e
    for p, _, fs in os.walk(d, topdown=False):
        for f in fs:
            os.unlink(os.path.join(p, f))
        os.rmdir(p)
    return r, None if root is None else report.canon(root)


def cases():
    """(label, files, options, how, reference files)"""
    for name, (opts, parts) in TOP.items():
        n = len(parts)
        ref = [wrap(parts)]
        for p in permutations(range(n)):
            yield "%s/order%s" % (name, "".join(map(str, p))), [wrap([parts[i] for i in p])], opts, \
                "cli", ref
        for split in ordered_partitions(n):
            if len(split) == 1 or (quick and len(split) not in ((2, 3, 4, 5), (2, 3, 5), (2, 6))[max(n, 4) - 4]):
                continue
            files = [wrap([parts[i] for i in b]) for b in split]
            lab = "%s/files%s" % (name, "+".join("".join(map(str, b)) for b in split))
            yield lab, files, opts, "cli", ref
            if len(split) == n or len(split) == 2:
                ways = ("project", "mixed", "sub", "absolute")
                for k, how in enumerate(ways):
                    if not quick or len(split) == 2 or sum(split[0]) % 4 == k:
                        yield lab + "/" + how, files, opts, how, ref
    for name, (opts, text, parts, *first) in INNER.items():
        ref = [text % "".join(parts)]
        for p in permutations(range(len(parts))):
            if first and set(p[:first[0]]) != set(range(first[0])):
                continue
            yield "%s/order%s" % (name, "".join(map(str, p))), \
                [text % "".join(parts[i] for i in p)], opts, "cli", ref
    for name, parts in BAD.items():
        for p in permutations(range(len(parts))):
            yield "bad-%s/order%s" % (name, "".join(map(str, p))), [wrap([parts[i] for i in p])], \
                ["--bdd", "--probability"], "cli", None
        for split in ordered_partitions(len(parts)):
            for how in ("cli", "project", "mixed"):
                yield "bad-%s/files%s/%s" % (name, "+".join("".join(map(str, b)) for b in split), how), \
                    [wrap([parts[i] for i in b]) for b in split], ["--bdd", "--probability"], how, None


REFERENCE = {}
for name, (opts, parts) in TOP.items():
    REFERENCE[name] = run([wrap(parts)], opts)
for name, (opts, text, parts, *_) in INNER.items():
    REFERENCE[name] = run([text % "".join(parts)], opts)
for name, (r, c) in REFERENCE.items():
    if c is None:
        ck.violation("base/" + name, "the base model %s: exit status %s: %s" % (name, r.rc, r.err[-300:]),
                     {"model": name})


def job(case):
    label, files, opts, how, ref = case
    r, got = run(files, opts, how)
    if ref is None:
        if r.rc == 1 and not r.crashed and r.err.strip():
            return None
        return label, "must be rejected: exit status %s %s" % (r.rc, r.err[-300:]), files, opts, how
    want = REFERENCE[label.split("/")[0]][1]
    if want is None:
        return None
    if got is None:
        return label, "exit status %s: %s" % (r.rc, r.err[-300:]), files, opts, how
    d = report.differ(want, got, "results")
    return (label, "the results depend on the order: " + d, files, opts, how) if d else None


todo = list(cases())
for bad in mc.pmap(job, todo):
    if bad:
        ck.violation(bad[0], bad[0] + ": " + bad[1], {"files": bad[2], "options": bad[3], "how": bad[4]})
ck.count("evaluations", len(todo))
ck.distinct.update(t[0] for t in todo)
ck.count("orders", sum("/order" in t[0] for t in todo))
ck.count("splits", sum("/files" in t[0] for t in todo))


# ------------------------------------------------------------------ the same file twice

def twice():
    opts, parts = TOP["trees"]
    a, b = wrap(parts[:2]), wrap(parts[2:])
    d = tempfile.mkdtemp(dir=mc.scratch(), prefix="tw")
    os.mkdir(os.path.join(d, "s"))
    for n, t in (("a.xml", a), ("b.xml", b), ("empty.xml", "<opsa-mef/>")):
        scram.write(os.path.join(d, n), t)
    os.symlink("../a.xml", os.path.join(d, "s", "link.xml"))
    forms = ["a.xml", "./a.xml", "s/../a.xml", "s/link.xml", os.path.join(d, "a.xml")]
    for x, y in product(forms, repeat=2):
        for where in ("cli", "project", "mixed"):
            for extra in ([], ["b.xml"]):
                scram.write(os.path.join(d, "p.xml"), "<scram><model>%s</model><options/></scram>" % "".join(
                    "<file>%s</file>" % n for n in ([x, y] if where == "project" else [x])))
                args = {"cli": [x] + extra + [y], "project": ["--project", "p.xml"] + extra,
                        "mixed": ["--project", "p.xml"] + extra + [y]}[where]
                r = mc.run([exe, "--validate"] + args, cwd=d)
                ck.count("evaluations")
                ck.count("repeated_files")
                if r.rc != 1 or "uplicate" not in r.err:
                    ck.violation("twice/%s" % " ".join(args), "the same file twice (%s) must be rejected: "
                                 "exit status %s %s" % (" ".join(args), r.rc, r.err[-200:]), {"args": args})
    for args in (["nothing.xml"], ["a.xml", "nothing.xml"], ["s"], ["--project", "nothing.xml"]):
        r = mc.run([exe, "--validate"] + args, cwd=d)
        ck.count("evaluations")
        if r.rc != 1 or not r.err.strip():
            ck.violation("missing/%s" % args, "%s must be rejected: exit status %s" % (args, r.rc),
                         {"args": args})


twice()
ck.sample(todo[len(todo) // 2][0])
ck.assumptions += ["the order of functional events, instructions and fork paths is part of an event "
                   "tree's meaning and is kept",
                   "random samples are assigned in definition order: uncertainty results are not compared",
                   "the name and label of the model come from the first file (documented)"]
sys.exit(ck.finish(rule="every order of the top-level constructs, every ordered partition of them into "
                        "files and every order of the definitions inside the containers of the base models"))
