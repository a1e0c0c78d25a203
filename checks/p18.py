#!/usr/bin/env python3
"""P18: reports are well-formed, valid, faithful to names, and describe the run."""
import os
import re
import subprocess
import sys
import time
import xml.etree.ElementTree as ET
from itertools import combinations, product
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
import common
import mc
import scram
import settings
from lxml import etree

quick = common.tier() != "thorough"
ck = mc.Check("P18", "exploration", common.tier())
exe = build.build_cli()
writer = build.build_harness("xmlwriter")
RNG = etree.RelaxNG(etree.parse(os.path.join(mc.REPO, "share", "report.rng")))

# ------------------------------------------------------------------ the writer


def reference(program):
    """(outcome, expected document): the documented states of an element."""
    class E:
        def __init__(self, name):
            self.name, self.attrs, self.text, self.kids = name, [], None, []
            self.a = self.t = self.c = True         # accepts attributes, text, children
    root = E("root")
    stack, out = [root], ""
    n = 0
    for op in program:
        e, name = stack[-1], "n%d" % n
        n += 1
        k = op[0]
        ok = True
        if k == "a":
            ok = e.a
            if ok:
                e.attrs.append((name, op[1], op[3:]))
        elif k == "t":
            ok = e.t
            if ok:
                e.text = (e.text or []) + [(op[1], op[3:])]
                e.a = e.c = False
        elif k == "c":
            ok = e.c
            if ok:
                kid = E(name)
                e.kids.append(kid)
                e.a = e.t = False
                stack.append(kid)
        elif k == "x":
            stack.pop()
            if not stack:
                return out + ".", root
        else:
            ok = False              # no names, an inactive parent, a second root
        out += "." if ok else "!"
    return out, root


def same_value(kind, want, got):
    want = bytes.fromhex(want).decode()
    if kind in "sp":
        return got == want
    if kind == "d":
        x, y = float(want), float(got)
        return x == y or (x != x and y != y) or abs(x - y) <= 5.1e-6 * abs(x) + 5e-324
    return got == want


def same(e, x):
    if x.tag != e.name:
        return "element %s instead of %s" % (x.tag, e.name)
    if len(x.attrib) != len(e.attrs):
        return "%s has attributes %s" % (e.name, dict(x.attrib))
    for name, kind, v in e.attrs:
        if name not in x.attrib or not same_value(kind, v, x.attrib[name]):
            return "attribute %s of %s is %r instead of %r" % (name, e.name, x.get(name), bytes.fromhex(v).decode())
    if e.text is not None:
        if len(x):
            return "%s has elements besides text" % e.name
        if len(e.text) == 1:
            if not same_value(e.text[0][0], e.text[0][1], x.text or ""):
                return "text of %s is %r instead of %r" % (e.name, x.text, bytes.fromhex(e.text[0][1]).decode())
        elif (x.text or "") != "".join(bytes.fromhex(v).decode() for _, v in e.text):
            return "text of %s is %r" % (e.name, x.text)
    else:
        if (x.text or "").strip() or any((k.tail or "").strip() for k in x):
            return "%s has stray text" % e.name
        if len(x) != len(e.kids):
            return "%s has %d children instead of %d" % (e.name, len(x), len(e.kids))
        for k, y in zip(e.kids, x):
            d = same(k, y)
            if d:
                return d
    return None


def h(s):
    return s.encode().hex()


def programs():
    ops = ["as:" + h("v<"), "ts:" + h("w&"), "c", "x", "e", "n", "A", "T", "C", "r"]
    for n in range(0, 6 if quick else 7):
        for p in product(ops, repeat=n):
            depth, ok = 0, True
            for i, o in enumerate(p):
                if o in "ATC" and depth == 0:
                    ok = False          # the root has no parent
                    break
                if o == "c":
                    # whether the child opens is decided by the writer; only count a sure one
                    depth += 1
                elif o == "x":
                    depth -= 1
                    if depth < 0 and i < n - 1:
                        ok = False
                        break
            # misuse of a parent needs an open child: programs are kept when the reference agrees
            if ok:
                yield p
    chars = ["a", " ", "\t", "\n", "\r", "&", "<", ">", '"', "'", "]", "α", "\U0001F600", ";", "#"]
    for n in (0, 1, 2, 3):
        for t in product(chars if n < 3 or not quick else chars[:11], repeat=n):
            s = "".join(t)
            for kind in "sp":
                yield ("a%s:%s" % (kind, h(s)), "t%s:%s" % (kind, h(s)))
    tokens = ("&", "amp;", "lt;", "#38;", "quot;", "<", "a")    # what looks like markup already
    for n in (2, 3) if quick else (2, 3, 4):
        for t in product(tokens, repeat=n):
            yield ("as:" + h("".join(t)), "ts:" + h("".join(t)))
    for s in ("]]>", "]]]>", "]]&>", "]]>]]>", "<![CDATA[x]]>", "<!--x-->", "&amp;", "&#10;"):
        yield ("as:" + h(s), "ts:" + h(s))
    ints = {0, 1, -1, 9, 10, 99, 100, 2 ** 31 - 1, -2 ** 31, -2 ** 31 + 1}
    ints |= {s * (10 ** k + d) for k in range(10) for d in (-1, 0, 1) for s in (1, -1)}
    for v in sorted(ints):
        if -2 ** 31 <= v < 2 ** 31:
            yield ("ai:" + h(str(v)), "ti:" + h(str(v)))
    big = {0, 2 ** 64 - 1, 2 ** 63, 2 ** 63 - 1} | {10 ** k + d for k in range(20) for d in (-1, 0, 1)}
    for v in sorted(big):
        if 0 <= v < 2 ** 64:
            yield ("az:" + h(str(v)), "tz:" + h(str(v)))
    for v in [m * 10.0 ** k for k in range(-330, 309, 1 if not quick else 7)
              for m in (1, -1, 1.5, 9.999995, 1.2345678)] + [0.0, float("inf"), float("-inf"), float("nan")]:
        yield ("ad:" + h(repr(v)), "td:" + h(repr(v)))
    for v in ("true", "false"):
        yield ("ab:" + h(v), "tb:" + h(v))
    for n in range(1, 40):
        yield ("c",) * n
        yield ("c",) * n + ("x",) * n + ("c",)
        yield ("c", "x") * n


XSD_DOUBLE = re.compile(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?|-?INF|NaN")


def write_job(job):
    mode, batch = job
    p = mc.execute([writer, mode], input="\n".join(" ".join(b) for b in batch) + "\n",
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
    lines = p.stdout.splitlines()
    res = []
    for prog, line in zip(batch, lines):
        out, doc = line.split("|")
        text = bytes.fromhex(doc)
        want, tree = reference(prog)
        bad = None
        if out != want:
            bad = "outcome of the operations is %s instead of %s" % (out, want)
        else:
            try:
                x = ET.fromstring(text)
                bad = same(tree, x)
                if not bad and any(o[:2] in ("ad", "td") for o in prog):
                    for v in list(x.attrib.values()) + [x.text]:
                        if v and not XSD_DOUBLE.fullmatch(v):
                            bad = "%r is not a number of the schema" % v
            except ET.ParseError as e:
                bad = "malformed: %s" % e
        if bad:
            res.append((prog, bad, text.decode("utf-8", "replace")))
    if len(lines) < len(batch):
        res.append((batch[len(lines)], "the writer ends with status %s: %s" % (p.returncode, p.stderr[-300:]), ""))
    return len(batch), res


def valid_program(p):
    """Misuse of the parent is meaningful only while a child is open."""
    want, _ = reference(p)
    depth = 0
    for o, w in zip(p, want):
        if o in ("A", "T", "C") and depth == 0:
            return False
        if o == "c" and w == ".":
            depth += 1
        if o == "x":
            depth -= 1
    return depth >= -1 and len(want) == len(p)


t0 = time.time()
jobs = ((m, b) for b in mc.chunks((p for p in programs() if valid_program(p)), 4000)
        for m in (("indent",) if len(b[0]) > 6 else ("indent", "plain")))
for n, res in mc.pmap(write_job, jobs):
    ck.count("evaluations", n)
    ck.count("writer_programs", n)
    for prog, bad, text in res:
        ck.violation("writer/" + " ".join(prog)[:100], "%s: %s" % (" ".join(prog), bad), {"ops": prog, "text": text})
ck.sample("writer: %s -> %s" % ("c as:.. x ts:..", reference(("c", "as:" + h("v"), "x", "ts:" + h("v")))[0]))

# ------------------------------------------------------------------ whole reports


class Case:
    """A model with everything the report must say about it."""

    def __init__(self, xml, features, unused=(), ids=(), warn_et=()):
        self.xml, self.features, self.unused, self.ids = xml, features, list(unused), ids


def expected_quantities(r, given_step):
    out = []
    m = {0: "Binary Decision Diagram", 1: "Zero-Suppressed Binary Decision Diagram", 2: "MOCUS"}[r.alg]
    out.append(("Prime Implicants" if r.pi else "Minimal Cut Sets", None, m, {"product-order": r.lim}))
    if r.ccf:
        out.append(("Common Cause Failure Analysis", None, None, None))
    if r.prob:
        lim = {"mission-time": r.mis}
        if r.step:
            lim["time-step"] = r.step
        out.append(("Probability Analysis", {0: "none", 1: "rare-event", 2: "mcub"}[r.app],
                    {0: "Binary Decision Diagram", 1: "Rare-Event Approximation", 2: "MCUB Approximation"}[r.app], lim))
    if r.sil:
        out.append(("Safety Integrity Levels", None, None, None))
    if r.imp:
        out.append(("Importance Analysis", None, None, None))
    if r.unc:
        out.append(("Uncertainty Analysis", None, "Monte Carlo", {"number-of-trials": r.tri, "seed": r.seed}))
    return out


def got_quantities(info):
    out = []
    for q in info.findall("calculated-quantity"):
        m = q.find("calculation-method")
        lim = None
        if m is not None:
            lim = {e.tag: float(e.text) for e in m.iter() if e.tag not in ("calculation-method", "limits")}
        out.append((q.get("name"), q.get("approximation"), m.get("name") if m is not None else None, lim))
    return out


def quantities_differ(want, got):
    if [w[:3] for w in want] != [g[:3] for g in got]:
        return "quantities %s instead of %s" % (got, want)
    for w, g in zip(want, got):
        if (w[3] is None) != (g[3] is None):
            return "limits of %s" % (w,)
        if w[3] is not None:
            if set(w[3]) != set(g[3]):
                return "limits %s instead of %s" % (g, w)
            for k in w[3]:
                if abs(w[3][k] - g[3][k]) > 5e-6 * abs(w[3][k]):
                    return "limit %s is %r instead of %r" % (k, g[3][k], w[3][k])
    return None


def rid(e):
    return tuple(sorted((k, e.get(k)) for k in ("name", "initiating-event", "alignment", "phase") if e.get(k)))


UNUSED = re.compile(r"(?:Unused ([a-z ]+)|In event tree (\S+), unused ([a-z ]+)): (.*)")


def judge(case, ref, text):
    """The first thing wrong with a report, or None."""
    try:
        doc = etree.fromstring(text)
    except etree.XMLSyntaxError as e:
        return "malformed: %s" % e
    if not RNG.validate(doc):
        return "invalid: %s" % RNG.error_log.last_error
    info = doc.find("information")
    sw = info.find("software")
    if sw.get("name") != "SCRAM" or not re.fullmatch(r"\d+\.\d+\.\d+.*", sw.get("version")):
        return "software %s" % dict(sw.attrib)
    now = time.time()
    try:
        t = time.mktime(time.strptime(info.find("time").text, "%Y-%m-%dT%H:%M:%S")) - time.timezone
    except ValueError as e:
        return "time: %s" % e
    if not -3600 <= now - t <= 7200:
        return "time %s is not that of the run" % info.find("time").text
    if ref is not None:
        d = quantities_differ(expected_quantities(ref, None), got_quantities(info))
        if d:
            return d
    mf = info.find("model-features")
    if case.features is not None:
        got = {e.tag: int(e.text) for e in mf}
        if mf.get("name"):
            got["name"] = mf.get("name")
        want = {k: v for k, v in case.features.items() if v}
        if got != want:
            return "model features %s instead of %s" % (got, want)
        warn = []
        for w in info.findall("warning"):
            m = UNUSED.fullmatch(w.text)
            if not m:
                return "unknown warning %r" % w.text
            warn += [(m.group(2) or "", (m.group(1) or m.group(3)), n) for n in m.group(4).split(" ")]
        if sorted(warn) != sorted(case.unused):
            return "unused elements %s instead of %s" % (sorted(warn), sorted(case.unused))
    results = doc.find("results")
    if case.ids is not None:
        want = set(case.ids)
        sops = [rid(e) for e in (results if results is not None else ()) if e.tag == "sum-of-products"]
        if len(sops) != len(set(sops)) or set(sops) != want:
            return "results for %s instead of %s" % (sorted(sops), sorted(want))
        if ref is not None and want:
            tags = {"sum-of-products"}
            tags |= {"importance"} if ref.imp else set()
            tags |= {"measure"} if ref.unc else set()
            tags |= {"safety-integrity-levels"} if ref.sil else set()
            tags |= {"curve"} if ref.prob and ref.step else set()
            for tag in ("sum-of-products", "importance", "measure", "safety-integrity-levels", "curve"):
                have = [rid(e) for e in results if e.tag == tag]
                if sorted(have) != sorted(want if tag in tags else ()):
                    return "%s for %s instead of %s" % (tag, have, sorted(want) if tag in tags else [])
        perf = info.find("performance")
        have = [rid(e) for e in perf] if perf is not None else []
        if sorted(have) != sorted(want):
            return "performance of %s instead of %s" % (have, sorted(want))
    return None


def run_case(case, opts, ref, tag):
    r, _ = scram.run_model(exe, case.xml, opts, tag, 120, keep=False)
    return r


def report_text(case, opts, stdout):
    import tempfile
    d = tempfile.mkdtemp(dir=mc.scratch(), prefix="rp")
    src, out = os.path.join(d, "in.xml"), os.path.join(d, "out.xml")
    scram.write(src, case.xml)
    try:
        p = mc.execute([exe, src] + list(opts) + ([] if stdout else ["-o", out]),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        if stdout:
            text = p.stdout
        else:
            text = open(out, "rb").read() if os.path.exists(out) else b""
        return p.returncode, text, p.stderr.decode("utf-8", "replace")
    finally:
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)


def case_job(job):
    key, case, opts, ref, stdout = job
    try:
        rc, text, err = report_text(case, opts, stdout)
    except subprocess.TimeoutExpired:
        return key, "no answer in 120 s", case.xml, opts
    if rc != 0:
        return key, "ends with status %s: %s" % (rc, err[-300:]), case.xml, opts
    return key, judge(case, ref, text), case.xml, opts


def explore(fam, it):
    for key, bad, xml, opts in mc.pmap(case_job, it):
        ck.count("evaluations")
        ck.count("reports_" + fam)
        ck.distinct.add((fam, key))
        if bad:
            ck.violation("%s/%s" % (fam, key), "%s %s (%s): %s" % (fam, key, " ".join(opts), bad),
                         {"model": xml, "options": opts})


# ---- parts of models: every subset

def fl(v):
    return "<float value='%r'/>" % v


PARTS = {
    # name: (top-level xml, fault-tree xml, model-data xml, features, unused, result ids)
    "tree2": ("<define-fault-tree name='F2'><define-gate name='p' role='private'><and><event name='a'/><event name='b'/>"
              "</and></define-gate><define-gate name='g2'><or><event name='p'/><event name='b'/></or></define-gate>"
              "</define-fault-tree>", "", "", {"fault-trees": 1, "gates": 2}, [], [(("name", "g2"),)]),
    "private-top": ("<define-fault-tree name='F4'><define-gate name='q' role='private'><and><event name='a'/>"
                    "<event name='b'/></and></define-gate></define-fault-tree>", "", "",
                    {"fault-trees": 1, "gates": 1}, [], [(("name", "F4.q"),)]),
    "unused-basic": ("", "", "<define-basic-event name='ub'>" + fl(1.0) + "</define-basic-event><define-basic-event name='ub2'>" + fl(0.5) +
                     "</define-basic-event>", {"basic-events": 2},
                     [("", "basic events", "ub"), ("", "basic events", "ub2")], []),
    "unused-private": ("", "<define-basic-event name='up' role='private'>" + fl(0.5) + "</define-basic-event>", "", {"basic-events": 1},
                       [("", "basic events", "F.up")], []),
    "house": ("", "<define-gate name='gh'><or><event name='h'/><event name='a'/></or></define-gate>",
              "<define-house-event name='h'><constant value='false'/></define-house-event>"
              "<define-house-event name='uh'/>", {"gates": 1, "house-events": 2}, [("", "house events", "uh")],
              [(("name", "gh"),)]),
    "parameters": ("", "<define-gate name='gp'><or><event name='c'/><event name='a'/></or></define-gate>",
                   "<define-basic-event name='c'><parameter name='p1'/></define-basic-event><define-parameter name='p1'>"
                   + fl(0.25) + "</define-parameter><define-parameter name='p2'>" + fl(0.5) + "</define-parameter>",
                   {"gates": 1, "basic-events": 1}, [("", "parameters", "p2")], [(("name", "gp"),)]),
    "ccf": ("<define-CCF-group name='C' model='beta-factor'><members><basic-event name='x'/><basic-event name='y'/>"
            "</members><distribution>" + fl(0.125) + "</distribution><factor level='2'>" + fl(0.25) +
            "</factor></define-CCF-group>",
            "<define-gate name='gc'><and><event name='x'/><event name='y'/></and></define-gate>", "",
            {"gates": 1, "basic-events": 2, "ccf-groups": 1}, [], [(("name", "gc"),)]),
    "event-tree": ("<define-initiating-event name='I' event-tree='T'/><define-event-tree name='T'>"
                   "<define-functional-event name='fe'/><define-functional-event name='ufe'/>"
                   "<define-sequence name='S1'><collect-formula><event name='b'/></collect-formula></define-sequence>"
                   "<define-sequence name='S2'/><define-sequence name='US'/><define-branch name='ubr'><sequence name='S1'/></define-branch>"
                   "<initial-state><fork functional-event='fe'><path state='w'><sequence name='S2'/></path>"
                   "<path state='f'><collect-formula><event name='a'/></collect-formula><sequence name='S1'/></path>"
                   "</fork></initial-state></define-event-tree>", "", "",
                   {"event-trees": 1, "functional-events": 2, "sequences": 3, "initiating-events": 1},
                   [("", "sequences", "US"), ("T", "branches", "ubr"), ("T", "functional events", "ufe")],
                   [(("initiating-event", "I"), ("name", "S1")), (("initiating-event", "I"), ("name", "S2"))]),
    "unused-tree": ("<define-event-tree name='UT'><define-sequence name='S3'/><initial-state><sequence name='S3'/>"
                    "</initial-state></define-event-tree>", "", "", {"event-trees": 1, "sequences": 1},
                    [("", "event trees", "UT")], []),
    "unused-logic": ("<define-initiating-event name='UI'/><define-rule name='UR'>"
                     "<collect-formula><event name='a'/></collect-formula></define-rule>", "", "",
                     {"initiating-events": 1, "rules": 1},
                     [("", "initiating events", "UI"), ("", "rules", "UR")], []),
    "substitution": ("<define-substitution name='Sub'><hypothesis><and><basic-event name='a'/><basic-event name='b'/></and>"
                     "</hypothesis><target><constant value='false'/></target></define-substitution>", "", "",
                     {"substitutions": 1}, [], []),
    "alignment": ("<define-alignment name='A'><define-phase name='P1' time-fraction='0.25'/><define-phase name='P2' "
                  "time-fraction='0.75'/></define-alignment>", "", "", {}, [], []),
    "name": ("", "", "", {"name": "Model-1"}, [], []),
}


def assemble(parts):
    top = "".join(PARTS[p][0] for p in parts)
    tree = "".join(PARTS[p][1] for p in parts)
    data = "".join(PARTS[p][2] for p in parts)
    feats = {"gates": 1, "basic-events": 2, "fault-trees": 1}
    unused, ids = [], [(("name", "top"),)]
    for p in parts:
        for k, v in PARTS[p][3].items():
            feats[k] = v if k == "name" else feats.get(k, 0) + v
        unused += PARTS[p][4]
        ids += PARTS[p][5]
    if "alignment" in parts:
        ids = [tuple(sorted(i + (("alignment", "A"), ("phase", ph)))) for i in ids for ph in ("P1", "P2")]
    xml = ("<opsa-mef%s>" % (" name='Model-1'" if "name" in parts else "") + top +
           "<define-fault-tree name='F'><define-gate name='top'><and><event name='a'/><event name='b'/></and></define-gate>"
           + tree + "</define-fault-tree><model-data><define-basic-event name='a'><normal-deviate>" + fl(0.125) + fl(0.01) +
           "</normal-deviate></define-basic-event><define-basic-event name='b'>" + fl(0.5) + "</define-basic-event>" +
           data + "</model-data></opsa-mef>")
    return Case(xml, feats, unused, ids)


def make_ref(opts):
    """The settings the options lead to, None if they are rejected (order of application of the CLI)."""
    r = settings.Ref()
    try:
        if "--zbdd" in opts:
            r.algorithm(1)
        elif "--mocus" in opts:
            r.algorithm(2)
        elif "--bdd" in opts:
            r.algorithm(0)
        if "--prime-implicants" in opts:
            r.prime_implicants()
        if "--rare-event" in opts:
            r.approximation(1)
        elif "--mcub" in opts:
            r.approximation(2)
        val = lambda o, conv: conv(opts[opts.index(o) + 1])  # noqa: E731
        if "--time-step" in opts:
            r.number("step", val("--time-step", float))
        for o, n in (("--sil", "sil"), ("--probability", "probability"), ("--importance", "importance"),
                     ("--uncertainty", "uncertainty"), ("--ccf", "ccf")):
            if o in opts:
                r.analysis(n, True)
        for o, n, c in (("--seed", "seed", int), ("--limit-order", "lim", int), ("--mission-time", "mis", float),
                        ("--num-trials", "tri", int), ("--num-quantiles", "qua", int), ("--num-bins", "bin", int)):
            if o in opts:
                r.number(n, val(o, c))
    except settings.Rejected:
        return None
    return r


def part_jobs():
    names = sorted(PARTS)
    full = ["--probability", "--importance", "--uncertainty", "--num-trials", "20"]
    for n in range(len(names) + 1):
        if quick and 3 < n < len(names) - 2:
            continue
        for c in combinations(names, n):
            case = assemble(c)
            for opts in ((["--bdd"], full) if n <= 2 or n >= len(names) - 1 or not quick else (full,)):
                yield "+".join(c) + ("" if opts is full else " bdd"), case, opts, make_ref(opts), False


explore("parts", part_jobs())

# ---- options: every combination on one model with everything and one with nothing


def option_jobs():
    big = assemble([p for p in sorted(PARTS) if p not in ("private-top",)])
    small = assemble(["name"])
    flags = ["--probability", "--importance", "--uncertainty", "--ccf", "--sil"]
    algs = [[], ["--bdd"], ["--zbdd"], ["--mocus"], ["--prime-implicants"], ["--bdd", "--prime-implicants"]]
    apps = [[], ["--rare-event"], ["--mcub"]]
    extra = [[], ["--no-indent"], ["--time-step", "1000"],
             ["--time-step", "3000", "--mission-time", "6000.5", "--seed", "7", "--limit-order", "3"],
             ["--limit-order", "0"], ["--mission-time", "0", "--seed", "2147483647"]]
    for a, app, n in product(algs, apps, range(len(flags) + 1)):
        for fs in combinations(flags, n):
            for x in extra:
                opts = a + app + list(fs) + x
                if "--uncertainty" in opts:
                    opts = opts + ["--num-trials", "15"]
                if quick and x and n not in (0, 2, 5):
                    continue
                ref = make_ref(opts)
                if ref is None:
                    continue
                yield " ".join(opts), (big if n != 1 or not quick else small), opts, ref, n % 2 == 0
    for opts in (["--num-quantiles", "1"], ["--num-bins", "1"], ["--num-trials", "1"],
                 ["--num-quantiles", "50", "--num-bins", "3", "--num-trials", "7"]):
        opts = ["--uncertainty"] + opts
        yield " ".join(opts), big, opts, make_ref(opts), False


explore("options", option_jobs())

# ---- names


def name_jobs():
    first = ["a", "B", "_", "α", "Ω", "日"]
    other = ["a", "B", "_", "1", "é", "·", "本"]
    names = first + [a + b for a in first for b in other] + ["a-b", "a-b-c", "true", "x" * 200]
    opts = ["--probability", "--importance", "--uncertainty", "--num-trials", "10", "--ccf"]
    # every name on every kind: one run gives twelve different names to the twelve kinds
    for j in range(len(names)):
        for k in ([names[(j + 5 * i) % len(names)] for i in range(12)],):
            assert len(set(k)) == 12
            M, F, top, a, x, C, I, S, A, P, comp, q = k
            xml = ("<opsa-mef name='%s'><define-initiating-event name='%s' event-tree='T'/><define-event-tree name='T'>"
                   "<define-sequence name='%s'><collect-formula><gate name='%s'/></collect-formula></define-sequence>"
                   "<initial-state><sequence name='%s'/></initial-state></define-event-tree>"
                   "<define-alignment name='%s'><define-phase name='%s' time-fraction='1'/></define-alignment>"
                   "<define-fault-tree name='%s'><define-gate name='%s'><or><event name='%s'/><and><event name='%s'/>"
                   "<event name='y'/></and></or></define-gate>" % (M, I, S, top, S, A, P, F, top, a, x)).replace(
                       "<and><event name='%s'/><event name='y'/></and>" % x, "<event name='g'/>")
            xml += ("<define-gate name='g'><and><event name='%s'/><event name='y'/></and></define-gate>"
                    "<define-component name='%s'><define-basic-event name='%s' role='private'>%s</define-basic-event>"
                    "<define-gate name='own'><or><event name='%s'/><event name='%s'/></or></define-gate></define-component>"
                    "</define-fault-tree><define-CCF-group name='%s' model='beta-factor'><members><basic-event name='%s'/>"
                    "<basic-event name='y'/></members><distribution>%s</distribution><factor level='2'>%s</factor>"
                    "</define-CCF-group><model-data><define-basic-event name='%s'>%s</define-basic-event></model-data>"
                    "</opsa-mef>" % (x, comp, q, fl(0.25), q, a, C, x, fl(0.5), fl(0.5), a, fl(0.25)))
            al = (("alignment", A), ("phase", P))
            ids = [tuple(sorted((("initiating-event", I), ("name", S)) + al)), tuple(sorted((("name", "own"),) + al))]
            ids.append(tuple(sorted((("name", top),) + al)))
            case = Case(xml, None, ids=None)
            case.names = (M, C, I, S, A, P, top, {a, "%s.%s.%s" % (F, comp, q)}, {x, "y"})
            yield ",".join(n if len(n) < 9 else "long" for n in k), case, opts


def name_job(job):
    key, case, opts = job
    rc, text, err = report_text(case, opts, False)
    if rc != 0:
        return key, "ends with status %s: %s" % (rc, err[-300:]), case.xml, opts
    bad = judge(case, make_ref(opts), text)
    if not bad:
        M, C, I, S, A, P, top, plain, members = case.names
        doc = etree.fromstring(text)
        res = doc.find("results")
        singles = {e.get("name") for e in res.iter("basic-event") if e.getparent().tag != "ccf-event"}
        mem = {e.get("name") for e in res.iter("basic-event") if e.getparent().tag == "ccf-event"}
        ids = {rid(e) for e in res if e.tag == "sum-of-products"}
        al = (("alignment", A), ("phase", P))
        want = {tuple(sorted((("initiating-event", I), ("name", S)) + al)),
                tuple(sorted((("name", "own"),) + al))}
        for what, got, exp in (
                ("model", doc.find("information/model-features").get("name"), M),
                ("events", singles, plain), ("members", mem, members),
                ("groups", {e.get("ccf-group") for e in res.iter("ccf-event")}, {C}),
                ("results", ids - {tuple(sorted((("name", top),) + al))}, want),
                ("sequences", {(e.getparent().get("name"), e.get("name")) for e in res.iter("sequence")}, {(I, S)})):
            if got != exp:
                bad = "%s are %s instead of %s" % (what, got, exp)
                break
    return key, bad, case.xml, opts


for key, bad, xml, opts in mc.pmap(name_job, name_jobs()):
    ck.count("evaluations")
    ck.count("reports_names")
    ck.distinct.add(("names", key))
    if bad:
        ck.violation("names/" + key, "name %s: %s" % (key, bad), {"model": xml, "options": opts})

# ---- extreme numbers


def extreme_jobs():
    exprs = {"0": fl(0.0), "1": fl(1.0), "tiny": fl(5e-324), "small": fl(1e-200), "near1": fl(1 - 2.0 ** -53),
             "half": fl(0.5), "exp": "<exponential>" + fl(1e-5) + "<system-mission-time/></exponential>",
             "dev": "<uniform-deviate>" + fl(0.0) + fl(1.0) + "</uniform-deviate>",
             "normal": "<normal-deviate>" + fl(0.5) + fl(0.05) + "</normal-deviate>"}
    gates = {"or": "<or>%s</or>", "and": "<and>%s</and>", "xor": "<xor>%s</xor>", "nor": "<nor>%s</nor>",
             "nand": "<nand>%s</nand>", "iff": "<iff>%s</iff>"}
    optss = [["--probability", "--importance", "--uncertainty", "--num-trials", "10"] + a
             for a in (["--bdd"], ["--zbdd", "--rare-event"], ["--mocus", "--mcub"], ["--prime-implicants"])]
    optss += [["--sil", "--time-step", "1e4", "--mission-time", "3e4"],
              ["--sil", "--time-step", "1e300", "--mission-time", "1e300", "--importance"],


              ["--sil", "--mission-time", "0", "--time-step", "1"]]
    for (i, x), (j, y) in product(sorted(exprs.items()), repeat=2):
        for g, f in sorted(gates.items()):
            xml = ("<opsa-mef><define-fault-tree name='F'><define-gate name='top'>%s</define-gate></define-fault-tree>"
                   "<model-data><define-basic-event name='a'>%s</define-basic-event><define-basic-event name='b'>%s"
                   "</define-basic-event></model-data></opsa-mef>"
                   % (f % "<event name='a'/><event name='b'/>", x, y))
            for k, opts in enumerate(optss):
                if quick and (i > j or g in ("nor", "nand", "iff")):
                    continue
                yield "%s %s %s" % (g, i, j), Case(xml, None, ids=None), opts, make_ref(opts), False
    # constant tops and empty models
    for body in ("<constant value='true'/>", "<constant value='false'/>"):
        xml = "<opsa-mef><define-fault-tree name='F'><define-gate name='top'>%s</define-gate></define-fault-tree>" \
              "</opsa-mef>" % body
        for opts in optss:
            yield body, Case(xml, None, ids=None), opts, make_ref(opts), False
    for xml in ("<opsa-mef/>", "<opsa-mef><define-fault-tree name='F'/></opsa-mef>",
                "<opsa-mef><define-initiating-event name='I' event-tree='T'/><define-event-tree name='T'><define-sequence "
                "name='S'/><initial-state><sequence name='S'/></initial-state></define-event-tree></opsa-mef>",
                "<opsa-mef><define-initiating-event name='I' event-tree='T'/><define-event-tree name='T'>"
                "<define-functional-event name='f'/><define-sequence name='S'/><initial-state><fork functional-event='f'>"
                "<path state='x'><collect-expression><float value='0.0'/></collect-expression><sequence name='S'/></path>"
                "</fork></initial-state></define-event-tree></opsa-mef>"):
        for opts in optss + [["--bdd"], ["--zbdd"]]:
            yield "empty " + xml[:60], Case(xml, None, ids=None), opts, make_ref(opts), False


explore("extremes", extreme_jobs())
ck.assumptions.append("names are those the input schema admits; the infinities that options admit are reported as "
                      "XML Schema doubles; what the results mean is judged by the other properties")
sys.exit(ck.finish(
    rule="all operation sequences of the writer up to depth %d against a reference of its documented states; all "
         "strings up to 3 characters over an alphabet with every special character; all numbers by digit and exponent; "
         "subsets of model parts, option combinations, names on every kind of element and extreme numbers through the "
         "executable: schema validity, identity of every result, features, warnings and settings" % (5 if quick else 6)))
