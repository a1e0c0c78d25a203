#!/usr/bin/env python3
"""P15: every input is analysed or rejected with a clear error: all single (and, in the thorough
tier, paired) mutations of seed models, all byte-level damage, exact tables of the documented rules
and the command-line behaviour on rejected input."""
import os
import re
import stat
import sys
import tempfile
from itertools import combinations
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from lxml import etree as LX
import build
import common
import loader
import mc
import mutate
import rules
import seeds
from rules import HEAD, TAIL, be

quick = common.tier() != "thorough"
ck = mc.Check("P15", "exploration", common.tier())
exe = build.build_cli()
ldr = build.build_harness("loader")
SCHEMA = LX.RelaxNG(LX.parse(os.path.join(mc.REPO, "share", "input.rng")))
PARSER = LX.XMLParser(no_network=True, resolve_entities=True, huge_tree=True)
ERROR = re.compile(r"^(scram|std)::")


def schema(text):
    """True or False for a well-formed document, None for anything else."""
    try:
        return SCHEMA.validate(LX.fromstring(text if isinstance(text, bytes) else text.encode(), PARSER))
    except LX.XMLSyntaxError:
        return None


def judge(verdict, must, text):
    """verdict of the loader; must: True (accept), False (reject), None (either)."""
    if isinstance(verdict, str):
        return verdict
    if verdict is not None:
        kind, cycle, message = verdict
        if not kind.startswith("scram::"):
            return "rejected with a foreign exception %s: %s" % (kind, message)
        if kind.endswith("LogicError"):
            return "an input ends in an internal logic error: " + message
        if not message.strip():
            return "rejected with %s without a message" % kind
        if must is True:
            return "a valid model is rejected with %s: %s" % (kind, message)
    elif must is False:
        return "an invalid model is accepted"
    elif len(text) == 1 and must is None:
        v = schema(text[0])
        if v is not True:
            return "a document that %s is accepted" % (
                "violates the schema" if v is False else "is not well-formed")
    return None


def job(args):
    group, items, opts = args
    out, n, acc, kinds = [], 0, 0, {}
    for i, v, _ in loader.load(ldr, [list(x[2]) for x in items], *opts, timeout=300):
        n += 1
        acc += v is None
        if isinstance(v, tuple):
            key = (v[0], "") if v[0].startswith("scram::xml") else (v[0], re.sub(r"[0-9]+|'[^']*'|\"[^\"]*\"|: .*", "", v[2])[:100])
            size = sum(map(len, items[i][2]))
            if key not in kinds or (size, items[i][0]) < kinds[key][:2]:
                kinds[key] = (size,) + tuple(items[i])
        r = judge(v, items[i][1], items[i][2])
        if r:
            out.append((items[i][0], r, [t if isinstance(t, str) else repr(t) for t in items[i][2]]))
    return group, n, acc, out, kinds


JOBS = []


def add(group, items, opts=("prob",), size=400):
    """items: (name, expected verdict, file texts)"""
    for c in mc.chunks(items, size):
        JOBS.append((group, c, list(opts)))


# ------------------------------------------------------------------ (A) mutations of the seeds

# Doubling one of these elements is always an error.
UNIQUE = re.compile(r"^twice (define-[A-Za-z-]+|attribute|path|phase)\[")
ARGUMENT = re.compile(r"^twice (gate|event|basic-event|house-event|not)\[(\d+)\]")
REFERENCES = {"gate": "name", "event": "name", "basic-event": "name", "house-event": "name",
              "parameter": "name", "rule": "name", "event-tree": "name", "sequence": "name",
              "branch": "name", "fork": "functional-event", "define-initiating-event": "event-tree",
              "set-house-event": "name"}


def opts_of(name):
    return ("prob", "analyse") + (("approx",) if name == "substitutions" else ())


def expectations(text):
    """Descriptions of mutations that are errors by the rules of references and uniqueness."""
    root = mutate.ET.fromstring(text)
    par = mutate.parents(root)
    where = ["%s[%d]%s" % (e.tag, i, "" if not e.get("name") else " " + e.get("name"))
             for i, e in enumerate(root.iter())]
    bad = set()
    for i, e in enumerate(root.iter()):
        a = REFERENCES.get(e.tag)
        if a and e.get(a) and par[e].tag != "members":
            for v in ("-", "x" * 300):
                bad.add("%s with %s=%r" % (where[i], a, v[:20]))
            bad.add("%s with a wrong reference" % where[i])
        if par.get(e) is not None and par[e].tag in ("and", "or", "nand", "nor", "atleast", "cardinality", "members", "source"):
            bad.add("twice " + where[i])
        if e.tag in ("attribute", "path") or e.tag.startswith("define-"):
            bad.add("twice " + where[i])
    return bad


def seed_items(name, text, moves):
    bad = expectations(text)
    for d, t in mutate.mutations(text, moves=moves):
        yield name + ": " + d, (False if d in bad else None), (t,)
    root = mutate.ET.fromstring(text)
    for i, e in enumerate(list(root.iter())):
        a = REFERENCES.get(e.tag)
        if a and e.get(a):
            p = mutate.parents(root).get(e)
            if p is not None and p.tag == "members":
                continue
            old = e.get(a)
            for new in ("zz", "zz." + old, old + ".zz"):
                e.set(a, new)
                yield "%s: %s[%d] refers to %s" % (name, e.tag, i, new), False, (
                    mutate.ET.tostring(root, encoding="unicode"),)
            e.set(a, old)


for name, text in seeds.ALL.items():
    add("seeds", [(name, name != "extern" or None, (text,))], opts_of(name))
    add("mutations of one place", seed_items(name, text, not quick), opts_of(name))
    if not quick:
        add("mutations of one place, no probabilities", seed_items(name, text, False),
            [o for o in opts_of(name) if o != "prob"])


def light(text):
    """A small set of edits for pairing: each is (description, function on a fresh element list)."""
    root = mutate.ET.fromstring(text)
    els = list(root.iter())
    names = sorted({e.get("name") for e in els if e.get("name")})
    for i in range(1, len(els)):
        yield "without %s[%d]" % (els[i].tag, i), i, "del", None
        yield "twice %s[%d]" % (els[i].tag, i), i, "dup", None
        for a, v in els[i].attrib.items():
            pool = ["0", "-1", "2"] if re.match(r"^-?[\d.]", v) else (
                [names[(names.index(v) + 1) % len(names)], names[0]] if v in names else ["false", "private"])
            for w in dict.fromkeys(pool):
                if w != v:
                    yield "%s[%d] with %s=%s" % (els[i].tag, i, a, w), i, a, w


def apply(e, par, i, op, val):
    x = e[i]
    if op == "del":
        par[x].remove(x)
    elif op == "dup":
        p = par[x]
        p.insert(list(p).index(x), mutate.copy.deepcopy(x))
    else:
        x.set(op, val)


def pairs(name, text):
    edits = list(light(text))
    for a, b in combinations(edits, 2):
        if a[1] == b[1] and "del" in (a[2], b[2]) or a[1:3] == b[1:3]:
            continue
        root = mutate.ET.fromstring(text)
        e, par = list(root.iter()), mutate.parents(root)
        try:
            apply(e, par, *a[1:])
            apply(e, par, *b[1:])
        except ValueError:
            continue
        yield "%s: %s; %s" % (name, a[0], b[0]), None, (mutate.ET.tostring(root, encoding="unicode"),)


if not quick:
    for name, text in seeds.ALL.items():
        add("mutations of two places", pairs(name, text), opts_of(name), 1000)

for k, (name, text) in enumerate(seeds.ALL.items()):
    vals = b"\x00 <>&\"/=-.0Z\x80\xff" if not quick else (b"\x00<\"0" if k % 4 == 0 else b"")
    add("damaged bytes", ((name + ": " + d, None, (t,)) for d, t in mutate.bytes_of(text, vals)), opts_of(name), 1000)

# ------------------------------------------------------------------ (B) tables of rules

rules.quick = quick
for name, table in rules.TABLES:
    add(name, table(), size=8 if name == "documents" else 400)
add("extern functions", rules.externs(), ("prob", "extern"), 50)
add("extern functions, not allowed", [(n, False, t) for n, ok, t in rules.externs() if ok], ("prob",))

REJECTIONS = {}
for group, n, acc, out, kinds in mc.pmap(job, JOBS):
    if group != "extern functions":
        for key, x in kinds.items():
            if key not in REJECTIONS or x[:2] < REJECTIONS[key][:2]:
                REJECTIONS[key] = x
    ck.count("evaluations", n)
    ck.count("accepted", acc)
    ck.count("documents: " + group, n)
    for name, text, files in out:
        ck.violation("%s/%s" % (group, name), text, {"files": files, "case": name})

# ------------------------------------------------------------------ (C) the command line


def cli_jobs():
    # the smallest document for every distinct kind of rejection seen above
    bad = [("rule", x[1], x[3]) for _, x in sorted(REJECTIONS.items())]
    bad += [("rule", x[0], x[2]) for x in rules.documents() if x[1] is False]
    for name, text in seeds.ALL.items():
        bad += [("cut", "%s cut at %d" % (name, k), (text.encode()[:k],)) for k in range(0, len(text) - 1, 211)]
    good = [("good", n, (t,)) for n, t in seeds.ALL.items() if n != "extern"]
    return bad + good


def cli(chunk):
    out = []
    for kind, name, files in chunk:
        d = tempfile.mkdtemp(dir=mc.scratch(), prefix="cli")
        paths = []
        for i, t in enumerate(files):
            paths.append(os.path.join(d, "f%d.xml" % i))
            with open(paths[-1], "wb") as f:
                f.write(t if isinstance(t, bytes) else t.encode())
        report = os.path.join(d, "report.xml")
        opts = ["--rare-event"] if name == "substitutions" else []
        r = mc.run([exe, "--probability"] + opts + paths + ["-o", report])
        r2 = mc.run([exe, "--probability"] + opts + paths)
        why = []
        for q in (r, r2):
            if q.crashed or q.rc not in (0, 1):
                why.append("ends with status %d: %s" % (q.rc, q.err[-200:]))
        if kind == "good":
            if r.rc or r2.rc or not os.path.exists(report) or not r2.out.strip().endswith("</report>") or r.out or r.err or r2.err:
                why.append("a valid model: status %d and %d, %r" % (r.rc, r2.rc, r.err[-200:]))
        elif not why:
            if r.rc != 1 or r2.rc != 1:
                why.append("an invalid model ends with status %d and %d" % (r.rc, r2.rc))
            if not r.err.strip() or not r2.err.strip() or "scram::" not in r.err:
                why.append("no error message on standard error: %r" % r.err[:200])
            if r2.out.strip():
                why.append("output in spite of the error: %r" % r2.out[:200])
            if os.path.exists(report):
                why.append("a report file of %d bytes in spite of the error" % os.path.getsize(report))
            if kind == "rule" and len(files) == 1 and "rror" not in r.err.split("\n")[0] and "Illegal" not in r.err and "Undefined" not in r.err:
                why.append("the message does not name the error: %r" % r.err[:200])
        if why:
            out.append((kind, name, "; ".join(why), [t if isinstance(t, str) else repr(t) for t in files]))
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)
    return len(chunk), out


for n, out in mc.pmap(cli, list(mc.chunks(cli_jobs(), 12))):
    ck.count("evaluations", n)
    ck.count("command-line runs", 2 * n)
    for kind, name, text, files in out:
        ck.violation("cli/%s/%s" % (kind, name), text, {"files": files, "case": name})

ck.count("kinds of rejection", len(REJECTIONS))
ck.distinct |= set(REJECTIONS)


def files():
    """Input paths of all kinds."""
    d = tempfile.mkdtemp(dir=mc.scratch(), prefix="fs")
    j = lambda n: os.path.join(d, n)
    good = HEAD + "<model-data>" + be("a") + "</model-data>" + TAIL
    open(j("good.xml"), "w").write(good)
    open(j("other.xml"), "w").write(good.replace("'a'", "'b'"))
    open(j("bad.xml"), "w").write("<opsa-mef>")
    os.symlink(j("good.xml"), j("link.xml"))
    os.link(j("good.xml"), j("hard.xml"))
    os.symlink(j("loop"), j("loop"))
    os.symlink(j("nowhere"), j("dangling"))
    os.mkdir(j("dir"))
    os.mkdir(j("sub"))
    open(j("sub/good.xml"), "w").write(good.replace("'a'", "'c'"))
    project = "<scram><model>%s</model><options/></scram>"
    rel = lambda *x: project % "".join("<file>%s</file>" % p for p in x)
    cases = [(["good.xml"], 0), (["missing.xml"], 1), (["dir"], 1), (["dangling"], 1), (["loop"], 1), (["good.xml", "missing.xml"], 1),
             (["good.xml", "good.xml"], 1), (["good.xml", "./good.xml"], 1), (["good.xml", "link.xml"], 1), (["good.xml", "dir/../good.xml"], 1),
             (["good.xml", "other.xml"], 0), (["other.xml", "good.xml"], 0), (["good.xml", "bad.xml"], 1), (["bad.xml", "good.xml"], 1),
             (["good.xml", "sub/good.xml"], 0), ([], 1), (["good.xml", "hard.xml"], 1)]
    jobs = [(a, rc) for a, rc in cases]
    projects = [(rel("good.xml"), 0), (rel("missing.xml"), 1), (rel("good.xml", "good.xml"), 1), (rel("good.xml", "other.xml"), 0), (rel("sub/good.xml"), 0),
                (rel("../%s/good.xml" % os.path.basename(d)), 0), (rel("good.xml", "sub/../good.xml"), 1), (rel("link.xml", "good.xml"), 1), (rel("dir"), 1),
                (project % "", 1), ("<scram><options/></scram>", 1), ("", 1), ("<scram>", 1), (rel("good.xml").replace("<scram>", "<scram version='0.0.1'>"), None),
                (rel("good.xml").replace("<scram>", "<scram version='99.0'>"), 1), (rel("good.xml").replace("<scram>", "<scram version='x'>"), 1),
                (rel("good.xml").replace("<scram>", "<scram version='1'>"), 1)]
    for i, (t, rc) in enumerate(projects):
        open(j("project%d.xml" % i), "w").write(t)
        jobs.append((["--project", "project%d.xml" % i], rc))
    jobs.append((["--project", "missing"], 1))
    jobs.append((["--project", "dir"], 1))
    for a, rc in jobs:
        r = mc.run([exe] + a + ["-o", "report.xml"], cwd=d)
        ck.count("evaluations")
        ck.count("input paths")
        made = os.path.exists(j("report.xml"))
        why = None
        if r.crashed:
            why = "ends with status %d: %s" % (r.rc, r.err[-200:])
        elif rc is not None and r.rc != rc:
            why = "ends with status %d instead of %d: %s" % (r.rc, rc, r.err[-300:])
        elif r.rc == 0 and not made or r.rc != 0 and made:
            why = "status %d %s a report" % (r.rc, "with" if made else "without")
        elif r.rc and not r.err.strip():
            why = "fails without a message"
        if why:
            ck.violation("paths/%s" % "_".join(a), why, {"arguments": a})
        if made:
            os.unlink(j("report.xml"))
    # mutations of a project file
    seed = ("<scram version='0.16.2'><model><file>good.xml</file></model><options><algorithm name='bdd'/><prime-implicants/>"
            "<analysis probability='true' importance='true' uncertainty='true' ccf='true' sil='true'/>"
            "<limits><product-order>8</product-order><mission-time>48</mission-time><time-step>24</time-step><cut-off>1e-9</cut-off><number-of-trials>20</number-of-trials>"
            "<number-of-quantiles>5</number-of-quantiles><number-of-bins>5</number-of-bins><seed>9</seed></limits></options></scram>")
    schema_ = LX.RelaxNG(LX.parse(os.path.join(mc.REPO, "share", "project.rng")))
    text = open(os.path.join(mc.REPO, "share", "project.rng")).read()
    saved = mutate.vocabulary
    mutate.vocabulary = lambda: (list(dict.fromkeys(re.findall(r'<element name="([^"]+)"', text))), list(dict.fromkeys(re.findall(r'<attribute name="([^"]+)"', text))))
    muts = list(mutate.mutations(seed, moves=True))
    mutate.vocabulary = saved
    root = mutate.ET.fromstring(seed)
    texts = ["0", "1", "-1", "0.5", "1e308", "NaN", "INF", "2147483647", "2147483648", "99999999999999999999", "", " ", "x", " 7 ", "missing.xml", "good.xml", "-0"]
    small = {"product-order": "32", "number-of-trials": "1000", "number-of-quantiles": "1000", "number-of-bins": "1000"}
    for i, e in enumerate(root.iter()):
        if e.text and e.text.strip():
            old = e.text
            for v in texts:
                # huge counts are legal and merely exhaust time and memory
                if e.tag in small and v in ("2147483647", "1e308") or e.tag == "time-step" and v in ("0.5",):
                    continue
                e.text = v
                muts.append(("%s[%d] is %r" % (e.tag, i, v), mutate.ET.tostring(root, encoding="unicode")))
            e.text = old
    if quick:
        muts = [m for m in muts if " replaced by " not in m[0]]
    return d, muts, schema_


fsdir, muts, project_schema = files()


def project(chunk):
    out, accepted = [], 0
    for i, (name, text) in chunk:
        path = os.path.join(fsdir, "m%d.xml" % i)
        rep = os.path.join(fsdir, "m%d.out" % i)
        open(path, "w").write(text)
        r = mc.run([exe, "--project", path, "-o", rep], cwd=fsdir)
        try:
            valid = project_schema.validate(LX.fromstring(text))
        except LX.XMLSyntaxError:
            valid = False
        made = os.path.exists(rep)
        why = None
        if r.crashed or r.rc not in (0, 1):
            why = "ends with status %d: %s" % (r.rc, r.err[-200:])
        elif r.rc == 0 and not valid:
            why = "a project file that violates its schema is accepted"
        elif (r.rc == 0) != made:
            why = "status %d %s a report" % (r.rc, "with" if made else "without")
        elif r.rc and not r.err.strip():
            why = "fails without a message"
        accepted += r.rc == 0
        if why:
            out.append((name, why, text))
        os.unlink(path)
        if made:
            os.unlink(rep)
    return len(chunk), accepted, out


for n, acc, out in mc.pmap(project, list(mc.chunks(enumerate(muts), 25))):
    ck.count("evaluations", n)
    ck.count("project mutations", n)
    ck.count("accepted projects", acc)
    for name, why, text in out:
        ck.violation("project/%s" % name, why, {"project": text})

ck.sample("cardinality min=1 max=4 over a, b, house event: rejected")
ck.sample("seed 'events': fork[14] refers to zz: rejected as undefined")
ck.sample("MGL group of 3 members with levels 3, 2: accepted; 2, 4: rejected")
ck.sample("project with number-of-trials 0: rejected with a message, no report")
ck.assumptions += ["lxml's RELAX NG validator (same libxml2) decides schema validity with the schema of the current tree",
                   "counts that only exhaust time or memory are not tried"]
sys.exit(ck.finish("every mutation, damaged byte, rule table row and input path is loaded by the real initializer or CLI; verdicts are compared with the schema and the documented rules"))
