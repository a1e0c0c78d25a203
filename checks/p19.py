#!/usr/bin/env python3
"""P19: settings, by closure over operations on the real object and by option combinations."""
import math
import os
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET
from itertools import combinations, permutations, product
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
import common
import mc
import scram
from settings import ALG, APP, Ref, Rejected

quick = common.tier() != "thorough"
ck = mc.Check("P19", "model_checking", common.tier())
exe = build.build_cli()
harness = build.build_harness("settings", **dict(build.HARNESSES)["settings"])

# ------------------------------------------------------------------ the object itself

def object_run(args):
    p = mc.execute([harness] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    bad, n = [], {}
    for line in p.stdout.splitlines():
        if line.startswith("BAD "):
            bad.append(line[4:])
        elif line.startswith("N "):
            n[line.split()[1]] = int(line.split()[2])
    if p.returncode and not bad:
        bad.append("%s: ends with status %s %s" % (args, p.returncode, p.stderr[-300:]))
    return args, bad, n


OBJECT = [["closure", "limit_order,cut_off,seed"],
          ["closure", "num_trials,num_bins,num_quantiles,mission_time"],
          ["sequences", "5" if quick else "6"]] + ([] if quick else [["closure"]])
for args, bad, n in mc.pmap(object_run, OBJECT):
    for b in bad[:20]:
        ck.violation("object/" + b.split(":")[0], "%s: %s" % (" ".join(args), b), {"args": args, "what": bad})
    ck.count("states", n.get("states", 0))
    ck.count("transitions", n.get("transitions", 0) + n.get("sequences", 0))
    ck.count("traces_validated_against_impl", n.get("transitions", 0) + n.get("sequences", 0))


# ------------------------------------------------------------------ project files

BOOL = {None: None, "true": True, "false": False, "1": True, "0": False}
FLAGS = ["probability", "importance", "uncertainty", "ccf", "sil"]
LIMITS = {"product-order": "lim", "mission-time": "mis", "time-step": "step", "cut-off": "cut",
          "number-of-trials": "tri", "number-of-quantiles": "qua", "number-of-bins": "bin", "seed": "seed"}


def project(alg=None, pi=False, flags=None, app=None, limits=(), version=None, files=("m.xml",)):
    s = "<scram%s><model>%s</model><options>" % (
        "" if version is None else " version='%s'" % version, "".join("<file>%s</file>" % f for f in files))
    if alg is not None:
        s += "<algorithm name='%s'/>" % ALG[alg]
    if pi:
        s += "<prime-implicants/>"
    if flags is not None:
        s += "<analysis %s/>" % " ".join("%s='%s'" % kv for kv in flags.items() if kv[1] is not None)
    if app is not None:
        s += "<approximation name='%s'/>" % APP[app]
    if limits:
        s += "<limits>%s</limits>" % "".join("<%s>%s</%s>" % (k, v, k) for k, v in limits)
    return s + "</options></scram>"


def apply_project(r, alg=None, pi=False, flags=None, app=None, limits=(), **_):
    if alg is not None:
        r.algorithm(alg)
    if pi:
        r.prime_implicants()
    if app is not None:
        r.approximation(app)
    for k, v in limits:
        r.number(LIMITS[k], (float if LIMITS[k] in ("cut", "mis", "step") else int)(v))
    for k in FLAGS:
        if flags and flags.get(k) is not None:
            r.analysis(k, BOOL[flags[k]])
    return r


def project_cases():
    """(label, project text, expected dict | None for rejection)"""
    def case(label, **kw):
        try:
            want = apply_project(Ref(), **kw).text()
        except Rejected:
            want = None
        return label, project(**kw), want

    steps = [(), (("time-step", "0"),), (("time-step", "10"),)]
    for alg, pi, app, step in product((None, 0, 1, 2), (False, True), (None, 1, 2), steps):
        for vals in product((None, "true", "false"), repeat=5):
            flags = dict(zip(FLAGS, vals))
            yield case("alg=%s/pi=%d/app=%s/step=%s/%s" % (
                alg, pi, app, step and step[0][1], "".join((v or "-")[0] for v in vals)),
                alg=alg, pi=pi, app=app, limits=step, flags=flags)
    for k in FLAGS:
        for v in ("0", "1"):
            yield case("flag/%s=%s" % (k, v), flags={k: v}, limits=(("time-step", "10"),))
    for v in permutations([("product-order", "3"), ("time-step", "5"), ("mission-time", "70"), ("seed", "4"),
                           ("number-of-bins", "6")]):
        yield case("limits/" + ",".join(x for x, _ in v), limits=v, flags={"sil": "true"})
    for k in LIMITS:
        for v in (("0", "1", "0.5", "1.0000001", "-1", "-0.0", "1e-300", "123456.789") if LIMITS[k] in (
                "cut", "mis", "step") else ("0", "1", "7", "2147483647")):
            yield case("limit/%s=%s" % (k, v), limits=((k, v),))
        bad = ["", "abc", "1 2", "1,5", "--1"]
        bad += ["NaN", "-INF", "1e"] if LIMITS[k] in ("cut", "mis", "step") else [
            "-1", "1.5", "2147483648", "4294967297", "9223372036854775808", "99999999999999999999", "NaN"]
        for v in bad:
            yield "limit/%s=%r" % (k, v), project(limits=((k, v),)), None
        for w in ("1", "2"):
            yield "twice/%s" % k, project(limits=((k, "1"), (k, w))), None
    now = (0, 16, 2)
    for v in product((0, 1, 2), (0, 15, 16, 17, 99), (0, 1, 2, 3, 99)):
        label = "version/%d.%d.%d" % v
        yield label, project(version="%d.%d.%d" % v), None if v > now else Ref().text()
    for v in ("4294967296.0.0", "0.4294967296.0", "9999999999.1.1", "0.16.99999999999999999999", "a", "0.x.2", "..", "0.16.2-rc", "v0.16.2"):
        yield "version/" + v, project(version=v), None
    for bad in ("<algorithm name='cnf'/>", "<approximation name='none'/>", "<analysis sil='yes'/>",
                "<analysis fta='true'/>", "<unknown/>", "<limits><depth>1</depth></limits>",
                "<prime-implicants>true</prime-implicants>", "text",
                "<approximation name='mcub'/><algorithm name='mocus'/>", "<algorithm/>"):
        yield "schema/" + bad, project().replace("<options>", "<options>" + bad), None
    for text in ("", "<scram/>", "<scram><model/><options/></scram>", "<scram><options/></scram>", "<opsa-mef/>",
                 "<scram><model><file>a</file></model></scram>", "<scram version=''>", "not xml",
                 project() + "<scram/>", project().replace("</scram>", "")):
        yield "text/" + text[:60], text, None


def parse(line):
    return {k: float(v) for k, v in (x.split("=") for x in line.split(" [")[0].split())}


def project_chunk(cases):
    d = tempfile.mkdtemp(dir=mc.scratch(), prefix="pj")
    data = b"".join(b"P %d\n" % len(t.encode()) + t.encode() for _, t, _ in cases)
    p = mc.execute([harness, "projects", d], input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    lines = [x for x in p.stdout.decode().splitlines() if x[:3] in ("OK ", "ERR", "BAD")]
    os.unlink(os.path.join(d, "project.xml"))
    os.rmdir(d)
    bad = []
    for i, (label, text, want) in enumerate(cases):
        if i >= len(lines) or lines[i].startswith("BAD"):
            bad.append((label, "the program ends: %s" % (lines[i:] + [p.returncode]), text))
            break
        got = lines[i]
        if want is None:
            if got.startswith("OK"):
                bad.append((label, "is accepted: " + got, text))
        elif not got.startswith("OK"):
            bad.append((label, "is rejected: " + got, text))
        else:
            g = parse(got[3:])
            diff = {k: (g.get(k), want[k]) for k in want if g.get(k) != want[k]}
            if diff:
                bad.append((label, "(read, expected): %s" % diff, text))
    return bad


todo = list(project_cases())
for res in mc.pmap(project_chunk, list(mc.chunks(todo, 400))):
    for label, what, text in res:
        ck.violation("project/" + label, "project file %s %s" % (label, what), {"project": text})
ck.count("project_files", len(todo))
ck.count("transitions", len(todo))


# ------------------------------------------------------------------ the command line

MODEL = ("<opsa-mef><define-fault-tree name='f'><define-gate name='top'><or><event name='a'/>"
         "<event name='g'/></or></define-gate><define-gate name='g'><and><event name='b'/><event name='c'/></and>"
         "</define-gate></define-fault-tree><model-data>"
         "<define-basic-event name='a'><float value='0.3'/></define-basic-event>"
         "<define-basic-event name='b'><lognormal-deviate><float value='0.03'/><float value='2'/><float "
         "value='0.95'/></lognormal-deviate></define-basic-event><define-basic-event name='c'><exponential>"
         "<float value='1e-4'/><system-mission-time/></exponential></define-basic-event></model-data></opsa-mef>")

VALUE = {"--seed": "seed", "--limit-order": "lim", "--cut-off": "cut", "--mission-time": "mis",
         "--time-step": "step", "--num-trials": "tri", "--num-quantiles": "qua", "--num-bins": "bin"}


def apply_cli(r, opts):
    """opts: list of options, e.g. ["--bdd", "--seed=1"]"""
    names = [o.split("=")[0] for o in opts]
    algs = [i for i, a in enumerate(ALG) if "--" + a in names]
    if len(algs) > 1 or ("--rare-event" in names and "--mcub" in names):
        raise Rejected("mutually exclusive options")
    if algs:
        r.algorithm(algs[0])
    if "--prime-implicants" in names:
        r.prime_implicants()
    for i in (1, 2):
        if "--" + APP[i] in names:
            r.approximation(i)
    values = {}
    for o in opts:
        k, _, v = o.partition("=")
        if k in VALUE:
            f = VALUE[k]
            values[f] = float(v) if f in ("cut", "mis", "step") else int(v)
    if "step" in values:
        r.number("step", values.pop("step"))
    for k in ("sil", "probability", "importance", "uncertainty", "ccf"):
        if "--" + k in names:
            r.analysis(k, True)
    for f, v in values.items():
        r.number(f, v)
    return r


def expected_report(r):
    """What the information section and the results must show."""
    d = {"quantity": "Prime Implicants" if r.pi else "Minimal Cut Sets",
         "method": ["Binary Decision Diagram", "Zero-Suppressed Binary Decision Diagram", "MOCUS"][r.alg],
         "order": str(r.lim), "ccf": r.ccf, "prob": APP[r.app] if r.prob else None,
         "mission": "%g" % r.mis if r.prob else None,
         "step": "%g" % r.step if r.prob and r.step else None, "sil": r.sil, "imp": r.imp,
         "trials": str(r.tri) if r.unc else None, "seed": str(r.seed) if r.unc else None,
         "has-probability": r.prob, "has-importance": r.imp, "has-uncertainty": r.unc,
         "has-curve": bool(r.prob and r.step), "has-sil": r.sil,
         "quantiles": str(r.qua) if r.unc else None, "bins": str(r.bin) if r.unc else None}
    return d


def seen_report(root):
    q = {e.get("name"): e for e in root.findall("information/calculated-quantity")}
    main = [n for n in q if n in ("Prime Implicants", "Minimal Cut Sets")]
    m = q[main[0]] if len(main) == 1 else None
    prob, unc = q.get("Probability Analysis"), q.get("Uncertainty Analysis")
    res = root.find("results")
    sop = res.find("sum-of-products")

    def t(e, path):
        x = None if e is None else e.find(path)
        return None if x is None else (x.text or "").strip()
    return {"quantity": main[0] if m is not None else str(main),
            "method": m.find("calculation-method").get("name"),
            "order": t(m, "calculation-method/limits/product-order"),
            "ccf": "Common Cause Failure Analysis" in q,
            "prob": None if prob is None else prob.get("approximation"),
            "mission": t(prob, "calculation-method/limits/mission-time"),
            "step": t(prob, "calculation-method/limits/time-step"),
            "sil": "Safety Integrity Levels" in q, "imp": "Importance Analysis" in q,
            "trials": t(unc, "calculation-method/limits/number-of-trials"),
            "seed": t(unc, "calculation-method/limits/seed"),
            "has-probability": sop.get("probability") is not None,
            "has-importance": res.find("importance") is not None,
            "has-uncertainty": res.find("measure") is not None,
            "has-curve": res.find("curve") is not None,
            "has-sil": res.find("safety-integrity-levels") is not None,
            "quantiles": None if res.find("measure/quantiles") is None else
            res.find("measure/quantiles").get("number"),
            "bins": None if res.find("measure/histogram") is None else
            res.find("measure/histogram").get("number")}


WORK = tempfile.mkdtemp(dir=mc.scratch(), prefix="cli")
scram.write(os.path.join(WORK, "m.xml"), MODEL)


def cli_job(case):
    label, proj, opts, want = case
    out = os.path.join(WORK, "o%d.xml" % os.getpid())
    args = list(opts)
    if proj is not None:
        pf = os.path.join(WORK, "p%d.xml" % os.getpid())
        scram.write(pf, proj)
        args = ["--project", pf] + args
    else:
        args.append(os.path.join(WORK, "m.xml"))
    r = mc.run([exe] + args + ["-o", out], timeout=120)
    try:
        if want is None:
            if r.rc != 1 or not r.err.strip():
                return label, "must be rejected with an error: exit status %s, %r" % (r.rc, r.err[-300:]), case
            if os.path.exists(out):
                return label, "is rejected but leaves a report", case
            return None
        if r.rc != 0:
            return label, "must run: exit status %s: %s" % (r.rc, r.err[-300:]), case
        try:
            got = seen_report(ET.parse(out).getroot())
        except (OSError, ET.ParseError, AttributeError) as e:
            return label, "no usable report: %r" % e, case
    finally:
        if os.path.exists(out):
            os.unlink(out)
    if any(isinstance(v, dict) for v in want.values()):
        return None
    diff = {k: (got[k], want[k]) for k in want if got[k] != want[k]}
    return (label, "(reported, expected): %s" % diff, case) if diff else None


PROJECTS = {
    "none": None, "empty": {}, "mocus": dict(alg=2), "zbdd-mcub": dict(alg=1, app=2), "bdd-rare": dict(alg=0, app=1),
    "pi": dict(alg=0, pi=True), "all": dict(flags={k: "true" for k in FLAGS}, limits=(("time-step", "2000"),)),
    "mocus-all": dict(alg=2, flags={k: "true" for k in FLAGS}, limits=(("time-step", "2000"),)),
    "off": dict(flags={k: "false" for k in FLAGS}, limits=(("time-step", "2000"),)),
    "importance": dict(flags={"importance": "true", "probability": "false"}),
    "uncertainty": dict(flags={"uncertainty": "true", "importance": "false"}, limits=(
        ("number-of-trials", "50"), ("number-of-quantiles", "3"), ("number-of-bins", "4"), ("seed", "9"))),
    "limits": dict(flags={"probability": "true"}, limits=(
        ("product-order", "1"), ("mission-time", "100"), ("time-step", "30"), ("cut-off", "0.01"))),
    "step": dict(limits=(("time-step", "2000"),)),
}

ATOMS = ["--bdd", "--zbdd", "--mocus", "--prime-implicants", "--probability", "--importance", "--uncertainty",
         "--ccf", "--sil", "--rare-event", "--mcub", "--limit-order=2", "--limit-order=0", "--cut-off=0",
         "--mission-time=50", "--mission-time=0", "--time-step=0", "--time-step=3000", "--num-trials=20",
         "--num-quantiles=2", "--num-bins=5", "--seed=3"]


def cli_cases():
    def case(pname, opts):
        label = "%s %s" % (pname, " ".join(opts))
        p = PROJECTS[pname]
        try:
            r = Ref()
            if p is not None:
                apply_project(r, **p)
            want = expected_report(apply_cli(r, opts))
        except Rejected:
            want = None
        return label, None if p is None else project(**p), list(opts), want
    algs = [[], ["--bdd"], ["--zbdd"], ["--mocus"]]
    apps = [[], ["--rare-event"], ["--mcub"], ["--rare-event", "--mcub"]]
    steps = [[], ["--time-step=0"], ["--time-step=3000"]]
    for a, p, b, s in product(algs, ([], ["--prime-implicants"]), apps, steps):
        for fl in product((False, True), repeat=4):
            yield case("none", a + p + b + s + ["--" + k for k, f in zip(
                ("probability", "importance", "uncertainty", "sil"), fl) if f])
    for pn in PROJECTS:
        for n in (0, 1, 2) if quick else (0, 1, 2, 3):
            for opts in combinations(ATOMS, n):
                if len({o.split("=")[0] for o in opts}) < n or (quick and n == 2 and pn == "none"):
                    continue
                if pn == "none" and n == 3:
                    continue
                yield case(pn, list(opts))
    for k, f in VALUE.items():
        bad = ["", "x", "1x", "--", "1 2"]
        bad += ["-1", "-1e-300", "nan", "-inf", "NaN"] if f in ("cut", "mis", "step") else [
            "-1", "1.5", "2147483648", "99999999999999999999", "nan", "1e2"]
        bad += ["1.0000001", "2", "inf"] if f == "cut" else ["0"] if f in ("tri", "qua", "bin") else []
        for v in bad:
            yield "none %s=%s" % (k, v), None, ["--probability", "--uncertainty", "%s=%s" % (k, v)], None
            yield "all %s=%s" % (k, v), project(**PROJECTS["all"]), ["%s=%s" % (k, v)], None
    for opts in (["--unknown"], ["--verbosity=-1"], ["--verbosity=8"], ["--verbosity=x"], ["--project"],
                 ["--project=nothing.xml"], ["--seed=1", "--seed=2"], ["--bdd", "--mocus"], ["--bdd=1"],
                 ["--zbdd", "--mocus", "--bdd"], ["--probability=yes"], ["-l"], ["-l", "x"]):
        yield "none " + " ".join(opts), None, opts, None


todo = list(cli_cases())
for bad in mc.pmap(cli_job, todo):
    if bad:
        ck.violation("cli/" + bad[0], "%s %s" % (bad[0], bad[1]), {"project": bad[2][1], "options": bad[2][2]})
ck.count("command_lines", len(todo))
ck.count("transitions", len(todo))
ck.count("traces_validated_against_impl", len(todo))

ck.sample(todo[len(todo) // 3][0])
ck.sample("algorithm(k-zbdd) in every reachable state")
ck.assumptions += ["the cut-off probability is stored and validated but has no effect on the analysis (doc/todo.rst)",
                   "an infinite mission time or time step is neither required nor forbidden",
                   "white space around numbers in project files is not explored"]
sys.exit(ck.finish(rule="every operation on every reachable state of the settings object; every sequence of "
                        "the coupled operations to a depth; every project option combination; pairs of "
                        "command-line options over projects", extra={"explanation": "executed on the real "
                        "object and executable against a plain-field reference"}))
