#!/usr/bin/env python3
"""P24: histories of analyses on one model, placements of objects in memory, and environments."""
import os
import re
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET
from itertools import combinations, product
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
import common
import mc
import report
from models import ABCDEF, FILES, LETTERS, MODELS, MORE, PU, data, gate, op

quick = common.tier() != "thorough"
ck = mc.Check("P24", "model_checking", common.tier())
exe = build.build_cli()
harness = build.build_harness("history", **dict(build.HARNESSES)["history"])
place = build.build_shared("place")


# ---------------------------------------------------------------- histories on one loaded model

def run_words(files, letters, words, show=False):
    d = tempfile.mkdtemp(dir=mc.scratch(), prefix="h")
    with open(os.path.join(d, "letters"), "w") as f:
        f.write("\n".join(letters) + "\n")
    with open(os.path.join(d, "words"), "w") as f:
        f.write("\n".join(" ".join(map(str, w)) for w in words) + "\n")
    env = dict(os.environ)
    if "/replaced." in files[0]:
        env["HISTORY_APPROX"] = "1"
    r = mc.execute([harness, d, os.path.join(d, "words")] + (["show"] if show else []) + files,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=800, env=env)
    shutil.rmtree(d)
    return r


def texts_of(files, letters, word):
    """The texts of one word, re-run in a process of its own."""
    r = run_words(files, letters, [word], show=True)
    out, res, i = r.stdout, [], 0
    while True:
        i = out.find(b"\nT ", i)
        if i < 0:
            return res
        j = out.index(b"\n", i + 1)
        n = int(out[i + 3:j])
        res.append(out[j + 1:j + 1 + n].decode())
        i = j + n


def same_text(a, b):
    """None, or the difference: reports may order their elements differently."""
    if a == b:
        return None
    try:
        return report.differ(report.canon(ET.fromstring(a)), report.canon(ET.fromstring(b)))
    except ET.ParseError as e:
        return str(e)


def history_job(job):
    name, files, letters, words, base = job
    r = run_words(files, letters, words)
    out = r.stdout.decode()
    bad, stats, diffs, n = [], {}, 0, 0
    cache = {}

    def fresh(x):
        if x not in cache:
            cache[x] = texts_of(files, letters, (x,))[0]
        return cache[x]

    got = 0
    for line in out.splitlines():
        if line.startswith("N "):
            _, k, v = line.split()
            stats[k] = int(v)
        elif line.startswith("BAD "):
            bad.append((words[got] if got < len(words) else (), line[4:]))
        elif line.startswith("W "):
            word = words[got]
            got += 1
            digests = line.split(":")[1].split()
            n += len(digests)
            want = [base[x] for x in word] + [base[word[0]]]
            if digests == want:
                continue
            diffs += 1
            texts = texts_of(files, letters, word)
            for i, (t, x) in enumerate(zip(texts, list(word) + [word[0]])):
                e = same_text(t, fresh(x))
                if e:
                    bad.append((word, "%s of [%s] differs from its result in a fresh process: %s" % (
                        "operation %d" % i if i < len(word) else "repeated report", letters[x], e)))
                    break
    if r.returncode or got < len(words):
        bad.append((words[got] if got < len(words) else (), "the process ends with status %d: %s" % (
            r.returncode, r.stderr.decode("utf-8", "replace")[-300:])))
    return name, bad[:20], stats, diffs, n, len(words), letters


def histories():
    d = os.path.join(mc.scratch(), "models")
    os.makedirs(d)
    paths = {}
    for name, text in MODELS.items():
        paths[name] = [os.path.join(d, name + ".xml")]
        with open(paths[name][0], "w") as f:
            f.write(text)
    for name, p in FILES.items():
        paths[name] = [os.path.join(mc.REPO, "input", x) for x in p.split()]
    jobs = []
    letters = LETTERS + MORE
    for name, files in paths.items():
        small = name in MODELS
        use = [i for i in range(len(letters)) if i < len(LETTERS) or not quick or small]
        if name == "replaced":  # Approximate analyses only.
            use = [i for i in use if "approx" in letters[i] or "kind=s" in letters[i]]
        # The reference: every letter alone, each in a process of its own.
        base = {}
        for i in use:
            r = run_words(files, letters, [(i,)])
            m = re.search(r"^W \d+: (\S+) (\S+)", r.stdout.decode(), re.M)
            if not m and "kind=serialize" in letters[i]:
                continue  # The model has constructs which serialization refuses.
            if not m:
                ck.violation("fresh/%s/%d" % (name, i), "model %s, [%s]: the process ends with status %d: %s" % (
                    name, letters[i], r.returncode, r.stderr.decode("utf-8", "replace")[-300:]),
                    {"model": MODELS.get(name, files), "letter": letters[i]})
                continue
            base[i] = m.group(1)
        use = [i for i in use if i in base]
        depth = (3 if small else 2) if quick else (4 if small else 3)
        words = []
        for k in range(2, depth + 1):
            abc = use
            if k == 3 and quick:
                abc = [i for i in use if i < len(LETTERS)]
            elif k == 4:
                abc = [i for i in use if i < len(LETTERS)]
            words += list(product(abc, repeat=k))
        for c in mc.chunks(words, 400):
            jobs.append((name, files, letters, c, base))
    for name, bad, stats, diffs, n, nwords, letters in mc.pmap(history_job, jobs):
        ck.count("states", stats.get("states", 0))
        ck.count("transitions", stats.get("transitions", 0))
        ck.count("steps_leaving_the_model_unchanged", stats.get("unchanged", 0))
        ck.count("traces_validated_against_impl", nwords)
        ck.count("words_with_reordered_reports", diffs)
        for word, text in bad:
            ck.violation("history/%s" % name, "model %s, history %s: %s" % (
                name, " ; ".join("[%s]" % letters[x] for x in word), text),
                {"model": MODELS.get(name, FILES.get(name)), "history": [letters[x] for x in word], "what": text})
    return paths


# ------------------------------------------------------------------ placements and environments

def clean(text):
    text = re.sub(r"<time>[^<]*</time>", "", text)
    return re.sub(r"<performance>.*</performance>", "", text, flags=re.S)


def cli(files, opts, env=None, cwd=None, timeout=300, wrap=(), stdout=False):
    out = os.path.join(mc.scratch(), "o%d" % os.getpid())
    r = mc.run(list(wrap) + [exe] + files + opts + ([] if stdout else ["-o", out]),
               timeout=timeout, env=env, cwd=cwd)
    if r.rc:
        return "exit status %d: %s" % (r.rc, r.err[-300:])
    if "--print" in opts:       # no report, but the products
        return r.err
    return clean(r.out) if stdout else clean(open(out).read())


def differ(got, want):
    """None, or the difference of two runs."""
    if got == want:
        return None
    return same_text(got, want) if got[:1] == "<" and want[:1] == "<" else "%r instead of %r" % (got[:300], want[:300])


OPTS = [["--bdd", "--importance", "--uncertainty", "--seed", "5", "--num-trials", "10"],
        ["--zbdd", "--importance", "--ccf"],
        ["--mocus", "--mcub", "--uncertainty", "--seed", "9", "--num-trials", "10", "--ccf"],
        ["--bdd", "--prime-implicants", "--probability", "--mission-time", "70", "--time-step", "20", "--sil"],
        ["--zbdd", "--rare-event", "--ccf", "--print"]]
APPROX = {2, 4}


def place_job(job):
    name, files, o, masks = job
    want = cli(files, OPTS[o])
    bad, n, kinds = [], 0, set()
    for m, fill in masks:
        n += 1
        got = cli(files, OPTS[o], env={"LD_PRELOAD": place, "PLACE": "%d,%d" % (m, fill)})
        kinds.add(got == want)
        e = differ(got, want)
        if e:
            bad.append((name, o, "addresses ordered by the mask %d, memory filled with 0x%02x: %s" % (m, fill, e)))
    return bad, n, len(kinds)


def placements(paths):
    jobs = []
    for name, files in paths.items():
        small = name in MODELS
        if name == "chinese" and quick:
            continue
        masks = [(m, (0, 165, 255)[m % 3]) for m in (range(32 if small else 8) if quick else range(256))]
        for o in range(len(OPTS)):
            if name == "replaced" and o not in APPROX:
                continue
            for c in mc.chunks(masks, 16):
                jobs.append((name, files, o, c))
    for bad, n, kinds in mc.pmap(place_job, jobs):
        ck.count("placements", n)
        for name, o, text in bad:
            ck.violation("placement/" + name, "model %s with %s: %s" % (name, " ".join(OPTS[o]), text),
                         {"model": MODELS.get(name, FILES.get(name)), "options": OPTS[o], "what": text})


def environments(paths):
    """Everything around the process: variables, directories, the size of the environment (which
    moves the stack), where the report goes, verbosity, the way the options are given."""
    base = mc.scratch()
    envs = [("locale " + v, {"LC_ALL": v, "LANG": v}) for v in ("C", "POSIX", "C.UTF-8", "de_DE.UTF-8", "tr_TR.UTF-8")]
    envs += [("timezone " + v, {"TZ": v}) for v in ("UTC", "Asia/Tokyo", "nowhere")]
    envs += [("%d bytes of environment" % k, {"FILLER": "x" * k}) for k in ((0, 1, 7, 64, 1000, 4095) if quick else range(0, 4096, 61))]
    envs += [("allocator %s=%s" % kv, dict([kv])) for kv in (
        ("MALLOC_PERTURB_", "85"), ("MALLOC_PERTURB_", "255"), ("MALLOC_ARENA_MAX", "1"),
        ("MALLOC_TOP_PAD_", "1"), ("MALLOC_MMAP_THRESHOLD_", "1"), ("GLIBC_TUNABLES", "glibc.malloc.tcache_count=0"))]
    envs += [("no home", {"HOME": "", "TMPDIR": "/nonexistent", "USER": ""})]
    jobs = []
    for name, files in paths.items():
        if name not in MODELS and quick and name not in ("hipps", "bcd"):
            continue
        for o in range(len(OPTS)):
            if name == "replaced" and o not in APPROX:
                continue
            jobs.append((name, files, o))

    def job(j):
        name, files, o = j
        opts = OPTS[o]
        want = cli(files, opts)
        runs = [(what, cli(files, opts, env=e)) for what, e in envs]
        d = tempfile.mkdtemp(dir=base)
        rel = []
        for f in files:
            shutil.copy(f, d)
            rel.append(os.path.basename(f))
        runs.append(("a relative path", cli(rel, opts, cwd=d)))
        runs.append(("a path with dots", cli(["./../%s/%s" % (os.path.basename(d), f) for f in rel], opts, cwd=d)))
        for v in range(0, 8) if "--print" not in opts else ():
            runs.append(("verbosity %d" % v, cli(files, opts + ["--verbosity", str(v)])))
        runs.append(("the report on standard output", cli(files, opts, stdout=True)))
        runs.append(("the options before the files", cli([], opts + files)))
        runs.append(("no stdin", cli(files, opts, wrap=["sh", "-c", 'exec "$@" <&-', "sh"])))
        runs.append(("a second run", cli(files, opts)))
        shutil.rmtree(d)
        bad = []
        for what, got in runs:
            e = differ(got, want)
            if e:
                bad.append((name, o, "with %s: %s" % (what, e)))
        return bad, len(runs)
    for bad, n in mc.pmap(job, jobs):
        ck.count("environment_runs", n)
        for name, o, text in bad:
            ck.violation("environment/" + name, "model %s with %s: %s" % (name, " ".join(OPTS[o]), text),
                         {"model": MODELS.get(name, FILES.get(name)), "options": OPTS[o], "what": text})


# ----------------------------------------------------------------- analyses alone and together

PARTS = [["--probability"], ["--importance"], ["--uncertainty", "--seed", "3", "--num-trials", "11"],
         ["--sil", "--time-step", "25"], ["--num-quantiles", "7", "--num-bins", "4"]]


def parts_of(text):
    """The report as {what it is about: canonical form}."""
    root = ET.fromstring(text)
    res = {}
    for e in root.iterfind("results/*"):
        key = tuple([e.tag] + [(k, e.get(k)) for k in ("initiating-event", "alignment", "phase", "name")])
        c = report.canon(e)
        if e.tag == "sum-of-products":
            key2 = key + ("products",)
            res[key2] = sorted(tuple(sorted((x.tag, x[0].get("name") if x.tag == "not" else x.get("name")) for x in p)) for p in e)
        res[key] = c
    return res


def subsets(paths):
    jobs = []
    for name, files in paths.items():
        for alg in (["--bdd"], ["--zbdd", "--rare-event"], ["--mocus", "--mcub"]):
            if name == "replaced" and len(alg) == 1 or name == "chinese" and quick:
                continue
            jobs.append((name, files, alg))

    def job(j):
        name, files, alg = j
        seen, bad, n = {}, [], 0
        for k in range(len(PARTS) + 1):
            for c in combinations(range(len(PARTS)), k):
                # Quantiles and bins change the uncertainty results; keep them only without those.
                if 4 in c and 2 in c:
                    continue
                opts = alg + [o for i in c for o in PARTS[i]]
                text = cli(files, opts)
                n += 1
                if text[:1] != "<":
                    bad.append((name, opts, text))
                    continue
                prob = bool(c) and c != (4,)
                for key, val in parts_of(text).items():
                    if key[-1] != "products":
                        # With and without probabilities a sum of products has other attributes.
                        key = key + (prob,) if key[0] == "sum-of-products" else key
                    # Curves and SIL results depend on the time step.
                    if key[0] in ("curve", "safety-integrity-levels"):
                        key = key + (3 in c,)
                    if key not in seen:
                        seen[key] = (val, opts)
                        continue
                    a, first = seen[key]
                    e = (None if a == val else "%s and %s" % (a, val)) if "products" in key else report.differ(a, val)
                    if e:
                        bad.append((name, opts, "%s differs from the run with [%s]: %s" % (key, " ".join(first), e)))
        return bad[:10], n
    for bad, n in mc.pmap(job, jobs):
        ck.count("analysis_subsets", n)
        for name, opts, text in bad:
            ck.violation("together/" + name, "model %s with %s: %s" % (name, " ".join(opts), text),
                         {"model": MODELS.get(name, FILES.get(name)), "options": opts, "what": text})


def targets(paths):
    """Every target alone, in every subset and in every order of files has the same results."""
    pieces = {
        "x": "<define-fault-tree name='x'>%s</define-fault-tree>" % (gate("X1", op("or", "a", "b")) + gate("GX", op("and", "X1", "c")).replace("<event name='X1'/>", "<gate name='X1'/>")),
        "y": "<define-fault-tree name='y'>%s</define-fault-tree>" % gate("Y1", op("atleast min='2'", "a", "d", "e")),
        "z": "<define-fault-tree name='z'>%s</define-fault-tree>" % (gate("Z1", op("xor", "a", "f")) + gate("Z2", op("or", "~a", "b"))),
        "i": MODELS["events"].split("<opsa-mef>")[1].split("<define-fault-tree")[0].replace("ft.G1", "w.G1").replace("ft.G2", "w.G2") +
             "<define-fault-tree name='w'>%s</define-fault-tree>" % (gate("G1", op("or", "a", "G3")) + gate("G3", op("and", "h", "b")) + gate("G2", op("or", "c", "b"))),
    }
    common_data = data(dict(ABCDEF, g="half"), "~h")
    base = mc.scratch()
    jobs = [(alg, c) for alg in (["--bdd", "--importance"], ["--zbdd", "--rare-event", "--importance"],
                                 ["--mocus", "--mcub", "--importance"])
            for c in [s for k in range(1, 5) for s in combinations(sorted(pieces), k)]]

    def job(j):
        alg, c = j
        d = tempfile.mkdtemp(dir=base)
        names = []
        for x in c:
            names.append(os.path.join(d, x + ".xml"))
            with open(names[-1], "w") as f:
                f.write("<opsa-mef>%s</opsa-mef>" % pieces[x])
        names.append(os.path.join(d, "data.xml"))
        with open(names[-1], "w") as f:
            f.write("<opsa-mef>%s</opsa-mef>" % common_data)
        res = []
        for files in (names, names[::-1]):
            text = cli(files, alg)
            res.append((alg, c, parts_of(text) if text[:1] == "<" else text))
        shutil.rmtree(d)
        return res
    seen = {}
    for res in mc.pmap(job, jobs):
        for alg, c, parts in res:
            ck.count("target_subsets")
            if isinstance(parts, str):
                ck.violation("targets", "%s with %s: %s" % (c, alg, parts), {"pieces": c, "options": alg})
                continue
            for key, val in parts.items():
                k2 = (alg[0],) + key
                if k2 not in seen:
                    seen[k2] = (val, c)
                    continue
                a, first = seen[k2]
                e = (None if a == val else "%s and %s" % (a, val)) if key[-1] == "products" else report.differ(a, val)
                if e:
                    ck.violation("targets/%s" % key[0], "%s: %s of the fault trees %s differs from that of %s: %s" % (
                        " ".join(alg), key, c, first, e), {"pieces": [pieces[x] for x in c], "options": alg, "what": e})


paths = histories()
placements(paths)
environments(paths)
subsets(paths)
targets(paths)
ck.assumptions += [
    "a report is compared without its time and performance elements",
    "histories are words over the listed analyses; each letter alone in a fresh process is the reference",
    "placements permute the addresses of objects of the same size within runs of 256 allocations",
]
ck.sample("history: [bdd prob] ; [mocus mcub unc seed 7] ; [load another model]")
ck.sample("placement mask 19 fill 0xa5")
sys.exit(ck.finish(
    "all words of analyses up to the depth on one loaded model, all address-order masks, all listed "
    "environments, all subsets of analyses and of fault trees; results equal those of a fresh run"))
