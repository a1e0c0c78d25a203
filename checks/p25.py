#!/usr/bin/env python3
"""P25: memory and undefined behaviour: the spaces of the other checks under AddressSanitizer,
UndefinedBehaviorSanitizer, LeakSanitizer and the assertions of the standard library, and a set of
models under memcheck."""
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from itertools import product
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from lxml import etree as LX
import build
import common
import families
import ft
import loader
import mc
import models
import mutate
import rules
import seeds

quick = common.tier() != "thorough"
ck = mc.Check("P25", "exploration", common.tier())
exe = build.build_cli(san=True)
ldr = build.build_harness("loader", san=True)
hist = build.build_harness("history", san=True, **dict(build.HARNESSES)["history"])
rtrip = build.build_harness("roundtrip", san=True)
plain = build.build_cli()

SAN = {"ASAN_OPTIONS": "abort_on_error=1:detect_stack_use_after_return=1:strict_string_checks=1:"
                       "detect_invalid_pointer_pairs=2:check_initialization_order=1:allocator_may_return_null=1",
       "UBSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:print_stacktrace=1",
       "LSAN_OPTIONS": "max_leaks=3"}
os.environ.update(SAN)
SCHEMA = LX.RelaxNG(LX.parse(os.path.join(mc.REPO, "share", "input.rng")))
REPORT = re.compile(r"ERROR: (?:Address|Leak)Sanitizer.*|runtime error: .*|/c\+\+/.*Assertion.*|SUMMARY: .*")


def leaks_work():
    """Whether LeakSanitizer can stop its own process here."""
    src = os.path.join(mc.scratch(), "leak.cc")
    out = os.path.join(mc.scratch(), "leak")
    open(src, "w").write("int main(int c, char**) { volatile auto p = new int[c]; p = nullptr; return p != nullptr; }\n")
    subprocess.check_call(["g++", "-fsanitize=address", src, "-o", out])
    r = mc.run([out])
    return "detected memory leaks" in r.err


LEAKS = leaks_work()
if not LEAKS:
    SAN["ASAN_OPTIONS"] += ":detect_leaks=0"
    os.environ.update(SAN)
    ck.assumptions.append("LeakSanitizer cannot run here: leaks are not looked for")


def what(err, rc):
    """The sanitizer's finding or any other sign of a wrong end, or None."""
    m = REPORT.search(err)
    if m:
        i = err.find("SUMMARY: ")
        return (m.group(0) + (" " + err[i:].split("\n")[0] if i >= 0 and i > m.start() else ""))[:400]
    if rc < 0 or rc > 2:
        return "ends with status %d: %s" % (rc, err.strip()[-300:])
    return None


# ------------------------------------------------------------------ loading and analysing

def load_job(args):
    group, items, opts = args
    bad, n, acc = [], 0, 0
    valid = "leaks?" in opts
    opts = [o for o in opts if o != "leaks?"]
    parts = [(items, opts)]
    if valid:
        ok = []
        rest = []
        for x in items:
            try:
                good = len(x[1]) == 1 and SCHEMA.validate(LX.fromstring(x[1][0].encode() if isinstance(x[1][0], str) else x[1][0]))
            except LX.XMLSyntaxError:
                good = False
            (ok if good else rest).append(x)
        parts = [(ok, opts + (["leaks"] if LEAKS else [])), (rest, opts)]
    for part, o in parts:
        for i, v, _ in loader.load(ldr, [list(x[1]) for x in part], *o, timeout=600):
            n += 1
            acc += v is None
            if isinstance(v, str):
                rc = re.search(r"status (-?\w+)", v)
                bad.append((part[i][0], v, [t if isinstance(t, str) else repr(t) for t in part[i][1]]))
                if len(bad) > 3:
                    return group, n, acc, bad
    return group, n, acc, bad


OPERATORS = [(o, 1, 1) for o in "neg acos asin atan cos sin tan cosh sinh tanh exp log log10 sqrt abs ceil floor not".split()]
OPERATORS += [(o, 2, 2) for o in "mod pow eq df lt gt leq geq sub div exponential".split()]
OPERATORS += [(o, 1, 3) for o in "add mul min max mean and or".split()]
OPERATORS += [("ite", 3, 3), ("GLM", 4, 4), ("Weibull", 4, 4), ("periodic-test", 4, 4), ("uniform-deviate", 2, 2), ("normal-deviate", 2, 2),
              ("lognormal-deviate", 2, 3), ("gamma-deviate", 2, 2), ("beta-deviate", 2, 2)]
# The extremes meet every operator: signs, zeros, denormals, overflow, integers out of range.
EXTREMES = ["-1e308", "-3e9", "-1", "0", "1e-320", "0.5", "1", "2", "3e9", "1e19", "1e308"]
FEW = ["0", "1e-320", "0.5", "2", "1e19"]


def expressions():
    for op, lo, hi in OPERATORS:
        for n in range(lo, hi + 1):
            for args in product(EXTREMES if n < 3 else FEW, repeat=n):
                # Period and interval of tests: their ratio is the number of steps of a simulation.
                if op == "periodic-test" and float(args[1]) < 0.5:
                    continue
                e = "<%s>%s</%s>" % (op, "".join("<float value='%s'/>" % x for x in args), op)
                yield "%s(%s)" % (op, ",".join(args)), (
                    "<opsa-mef><define-fault-tree name='f'><define-gate name='g'><or><event name='a'/><event name='b'/></or></define-gate></define-fault-tree>"
                    "<model-data><define-basic-event name='a'><max><float value='0'/><min><float value='1'/>%s</min></max></define-basic-event>"
                    "<define-basic-event name='b'><float value='0.1'/></define-basic-event></model-data></opsa-mef>" % e,)
    for n in (1, 2):
        for b in product(EXTREMES, repeat=n + 1):
            if list(map(float, b)) != sorted(map(float, b)):
                continue
            for w in product(["0", "1e-320", "1", "1e308"], repeat=n):
                e = "<histogram><float value='%s'/>%s</histogram>" % (b[0], "".join("<bin><float value='%s'/><float value='%s'/></bin>" % x for x in zip(b[1:], w)))
                yield "histogram %s %s" % (b, w), (
                    "<opsa-mef><define-fault-tree name='f'><define-gate name='g'><or><event name='a'/><event name='b'/></or></define-gate></define-fault-tree>"
                    "<model-data><define-basic-event name='a'><max><float value='0'/><min><float value='1'/>%s</min></max></define-basic-event>"
                    "<define-basic-event name='b'><float value='0.1'/></define-basic-event></model-data></opsa-mef>" % e,)


def loads():
    rules.quick = quick
    jobs = []

    def add(group, items, opts, size=300):
        jobs.extend((group, c, opts) for c in mc.chunks(items, size))
    for name, text in seeds.ALL.items():
        o = ["prob", "analyse", "leaks?"] + (["approx"] if name == "substitutions" else [])
        add("mutations", ((name + ": " + d, (t,)) for d, t in mutate.mutations(text, moves=not quick, rename=not quick)), o)
        add("damaged bytes", ((name + ": " + d, (t,)) for d, t in mutate.bytes_of(text, b"" if quick else b"\x00<\"&\xff")), ["prob"], 1000)
    for name, table in rules.TABLES:
        add("rules", ((name + ": " + x[0], x[2]) for x in table()), ["prob", "analyse"], 100)
    add("extern functions", ((x[0], x[2]) for x in rules.externs()), ["prob", "extern", "analyse"])
    for name, text in models.MODELS.items():
        add("models", [(name, (text,))], ["prob", "analyse", "leaks?"] + (["approx"] if name == "replaced" else []))
    add("expressions", expressions(), ["prob", "analyse"], 200)
    for group, n, acc, bad in mc.pmap(load_job, jobs):
        ck.count("evaluations", n)
        ck.count("accepted_and_analysed", acc)
        ck.count("loads: " + group, n)
        for name, text, files in bad:
            ck.violation("load/%s/%s" % (group, name), text, {"files": files, "case": name})


# ------------------------------------------------------------------ fault trees

def trees():
    bdd, zbdd, mocus, pi = (["--bdd", "--importance"], ["--zbdd", "--importance"], ["--mocus", "--mcub", "--importance"],
                            ["--bdd", "--prime-implicants", "--importance"])
    plan = [(f, (bdd, zbdd, mocus, pi)) for f in ("one3c", "one4", "fn3", "mono4")] + [("three3", (bdd, pi)), ("house2x", (zbdd,))]
    if not quick:
        plan = [(f, (bdd, zbdd, mocus, pi)) for f in (
            "one3c", "one4", "fn3", "mono4", "three3", "house2x", "three4a", "mono5", "mod3", "modn", "five4", "two3k3")]
    jobs = [(f, c, a) for f, argss in plan for c in mc.chunks(enumerate(families.family(f)[1]), 1500 if not quick else 500) for a in argss]

    def job(j):
        fam, ch, args = j
        n = families.family(fam)[0]
        d = tempfile.mkdtemp(dir=mc.scratch(), prefix="t")
        src = os.path.join(d, "m.xml")
        bad = []

        def go(cs):
            with open(src, "w") as f:
                f.write(ft.model_xml([("t%d_" % i, t) for i, t in cs], (0.1, 0.25, 0.35, 0.45, 0.6, 0.7, 0.82)[:n], (True,) if "house" in fam else ()))
            r = mc.run([exe, src, "-o", os.path.join(d, "o")] + args, timeout=600)
            w = what(r.err, r.rc)
            if not w or len(bad) > 3:
                return
            if len(cs) == 1:
                bad.append((ft.show(cs[0][1]), w, open(src).read()))
                return
            go(cs[:len(cs) // 2])
            go(cs[len(cs) // 2:])
            if not bad:
                bad.append(("a batch of %d trees" % len(cs), w, ""))
        go(list(ch))
        shutil.rmtree(d)
        return fam, args, len(ch), bad
    for fam, args, n, bad in mc.pmap(job, jobs):
        ck.count("evaluations", n)
        ck.count("fault trees", n)
        for t, w, text in bad:
            ck.violation("tree/%s/%s" % ("".join(args), t), w, {"model": text, "options": args})


# ------------------------------------------------------------------ options

def lattice(paths):
    jobs = []
    extra = [[], ["--importance"], ["--uncertainty", "--num-trials", "7", "--seed", "3"], ["--importance", "--uncertainty", "--num-trials", "5", "--num-bins", "3", "--num-quantiles", "1", "--ccf"],
             ["--sil", "--time-step", "1000"], ["--probability", "--ccf", "--limit-order", "1", "--no-indent"], ["--importance", "--limit-order", "2", "--cut-off", "0.01"]]
    for name, files in paths.items():
        for alg, app, x in product((["--bdd"], ["--zbdd"], ["--mocus"], ["--bdd", "--prime-implicants"]), ([], ["--rare-event"], ["--mcub"]), extra):
            if name == "replaced" and not app:
                continue
            jobs.append((name, files, alg + app + x))
        for x in (["--validate"], ["--print"], ["--no-report"], ["--preprocessor"], ["--serialize"], ["--verbosity", "5"], ["--ccf", "--preprocessor", "--print"], ["--help"], ["--version"]):
            jobs.append((name, files, x))

    def job(c):
        bad = []
        for name, files, opts in c:
            out = os.path.join(mc.scratch(), "l%d" % os.getpid())
            r = mc.run([exe] + files + opts + ["-o", out], timeout=600)
            w = what(r.err, r.rc)
            # Serializing what the format lacks stops in an assertion of the tool.
            if w and "--serialize" in opts and "Assertion" in r.err and "/c++/" not in r.err and not re.search("Sanitizer|runtime error", r.err):
                w = None
            if w:
                bad.append((name, opts, w))
            if os.path.exists(out):
                os.unlink(out)
        return len(c), bad
    for n, bad in mc.pmap(job, list(mc.chunks(jobs, 10))):
        ck.count("evaluations", n)
        ck.count("option sets", n)
        for name, opts, w in bad:
            ck.violation("options/%s/%s" % (name, "_".join(opts)), "model %s with %s: %s" % (name, " ".join(opts), w),
                         {"model": models.MODELS.get(name, models.FILES.get(name)), "options": opts})


# ------------------------------------------------------------------ histories

# What the serializer says it does not support, and ends on (P21 has the models that it does).
UNWRITABLE = re.compile("<define-(?:parameter|CCF-group|initiating-event|event-tree|sequence|rule|alignment|substitution|extern)")


def histories(paths):
    jobs = []
    letters = models.LETTERS + models.MORE
    for name, files in paths.items():
        if quick and name not in models.MODELS:
            continue
        use = [i for i in range(len(letters))]
        if name == "replaced":
            use = [i for i in use if "approx" in letters[i]]
        if UNWRITABLE.search(models.MODELS.get(name, "")) or name == "replaced":
            use = [i for i in use if "kind=serialize" not in letters[i]]
        words = list(product(use, repeat=2)) + ([] if quick else list(product(use[:9], repeat=3)))
        jobs += [(name, files, c) for c in mc.chunks(words, 40)]

    def job(j):
        name, files, words = j
        d = tempfile.mkdtemp(dir=mc.scratch(), prefix="h")
        open(os.path.join(d, "letters"), "w").write("\n".join(letters) + "\n")
        open(os.path.join(d, "words"), "w").write("\n".join(" ".join(map(str, w)) for w in words) + "\n")
        env = {"HISTORY_APPROX": "1"} if name == "replaced" else {}
        r = mc.run([hist, d, os.path.join(d, "words")] + files, env=env, timeout=800)
        shutil.rmtree(d)
        w = what(r.err, r.rc)
        k = r.out.count("\nW ") + r.out.startswith("W ")
        return name, len(words), (w, [letters[i] for i in words[min(k, len(words) - 1)]]) if w else None
    for name, n, bad in mc.pmap(job, jobs):
        ck.count("evaluations", n)
        ck.count("histories", n)
        if bad:
            ck.violation("history/%s/%s" % (name, "+".join(bad[1])), "model %s, history %s: %s" % (name, " ; ".join(bad[1]), bad[0]),
                         {"model": models.MODELS.get(name, models.FILES.get(name)), "history": bad[1]})


# ------------------------------------------------------------------ writing models back

def serialize():
    jobs = []
    for name in ("tree", "logic", "times", "random", "expressions", "ccf"):
        items = []
        for d, t in mutate.mutations(seeds.ALL[name], moves=False, rename=not quick):
            if SCHEMA.validate(LX.fromstring(t.encode())):
                items.append((name + ": " + d, t))
        jobs += list(mc.chunks(items, 200))

    def job(c):
        bad, start = [], 0
        while start < len(c):
            d = tempfile.mkdtemp(dir=mc.scratch(), prefix="s")
            data = b"".join(b"M 1 %d\n%s" % (len(t.encode()), t.encode()) for _, t in c[start:])
            p = mc.execute([rtrip, d], input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
            shutil.rmtree(d)
            done = len(re.findall(rb"^(?:OK|ERR )", p.stdout, re.M))
            err = p.stderr.decode("utf-8", "replace")
            if start + done < len(c):
                m = REPORT.search(err)
                if m or p.returncode not in (-6, 134):
                    bad.append((c[start + done][0], what(err, p.returncode) or "no answer", c[start + done][1]))
            elif what(err, p.returncode):
                bad.append(("the end of a batch", what(err, p.returncode), c[-1][1]))
            start += done + 1
        return len(c), bad
    for n, bad in mc.pmap(job, jobs):
        ck.count("evaluations", n)
        ck.count("serializations", n)
        for name, w, text in bad:
            ck.violation("serialize/%s" % name, w, {"model": text})


# ------------------------------------------------------------------ the editor

def editor():
    exe = build.build_gui(san=True)
    plan = [(b, d, a, k) for d, a in ((2, "wide"), (3, "narrow")) for b in range(5) for k in range(4)]

    def job(j):
        b, d, a, k = j
        r = mc.run([exe, str(b), str(d), str(k), "4", a], timeout=3600)
        m = re.search(r"N words (\d+)", r.out)
        return j, int(m.group(1)) if m else 0, what(r.err, r.rc)
    for j, n, w in mc.pmap(job, plan):
        ck.count("evaluations", n)
        ck.count("editor histories", n)
        if w:
            ck.violation("editor/%d/%d/%s" % j[:3], w, {"run": ["harness/gui"] + list(map(str, j))})


# ------------------------------------------------------------------ uninitialized memory

def memcheck(paths):
    opts = [["--bdd", "--importance", "--uncertainty", "--num-trials", "3", "--ccf"], ["--zbdd", "--importance"], ["--mocus", "--mcub", "--importance", "--ccf"],
            ["--bdd", "--prime-implicants", "--probability", "--sil", "--time-step", "2000"]]
    jobs = [(n, f, o) for n, f in paths.items() if n in models.MODELS or not quick for o in opts if n != "replaced" or "--mcub" in o]

    def job(j):
        name, files, o = j
        out = os.path.join(mc.scratch(), "v%d" % os.getpid())
        r = mc.run(["valgrind", "-q", "--error-exitcode=77", "--num-callers=30", "--partial-loads-ok=yes", plain] + files + o + ["-o", out], timeout=800)
        if os.path.exists(out):
            os.unlink(out)
        return name, o, r.rc, r.err
    for name, o, rc, err in mc.pmap(job, jobs):
        ck.count("evaluations")
        ck.count("memcheck runs")
        if rc:
            ck.violation("memcheck/%s/%s" % (name, "_".join(o)), "model %s with %s: status %d: %s" % (name, " ".join(o), rc, err[:400]),
                         {"model": models.MODELS.get(name, models.FILES.get(name)), "options": o})


d = os.path.join(mc.scratch(), "models")
os.makedirs(d)
PATHS = {}
for name, text in models.MODELS.items():
    PATHS[name] = [os.path.join(d, name + ".xml")]
    open(PATHS[name][0], "w").write(text)
for name, p in models.FILES.items():
    PATHS[name] = [os.path.join(mc.REPO, "input", x) for x in p.split()]

for part, name in ((loads, "loads"), (trees, "trees"), (lambda: lattice(PATHS), "lattice"), (lambda: histories(PATHS), "histories"),
                   (serialize, "serialize"), (editor, "editor"), (lambda: memcheck(PATHS), "memcheck")):
    t = time.time()
    if part is not editor or not quick:
        part()
    if os.environ.get("VERIF_TIMES"):
        print("  %.1f s" % (time.time() - t), name, flush=True)

# ------------------------------------------------------------------ the other checks, sanitized

if not quick:
    for p in ("p01", "p02", "p03", "p05", "p06", "p07", "p08", "p10", "p11", "p12", "p13", "p14", "p15", "p16", "p17", "p18", "p19", "p21", "p22", "p24"):
        env = {"VERIF_SAN": "1", "VERIF_EVIDENCE": os.path.join(mc.scratch(), "evidence"), "VERIF_TIER": "quick"}
        r = mc.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), p + ".py"), "quick"], env=env, timeout=3600)
        m = re.search(r"evaluations=(\d+)", r.out)
        ck.count("evaluations", int(m.group(1)) if m else 0)
        ck.count("sanitized checks")
        if r.rc or REPORT.search(r.out + r.err):
            ck.violation("sanitized/" + p, (r.out + r.err)[-1500:], {"check": p})
ck.sample("periodic-test(1e-320,0.5,0,1e19) sampled and analysed under the sanitizers")
ck.sample("history [alg=bdd ccf=1 ...] ; [alg=zbdd limit=1 T=3 prob=1] on one model under the sanitizers")
# the inputs of a run differ: documents that were analysed, trees per option set, option sets, histories
ck.count("distinct_nontrivial", sum(ck.cov.get(k, 0) for k in (
    "accepted_and_analysed", "fault trees", "option sets", "histories", "serializations")))
sys.exit(ck.finish("every listed model, document, option set and history runs in a build with ASan, UBSan, LSan and library assertions; any report is a violation"))
