#!/usr/bin/env python3
"""P22: the editor, by exhaustive histories of its commands with undo and redo on the real classes."""
import glob
import os
import subprocess
import sys
import tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
import common
import mc

quick = common.tier() != "thorough"
ck = mc.Check("P22", "model_checking", common.tier())
exe = build.build_gui()
BASES = ["one gate", "two gates, a house event, an undeveloped event", "two trees",
         "events that nothing refers to", "three levels"]
# (base, depth, alphabet)
PLAN = [(b, 2, "wide") for b in range(5)] + [(b, 3, "narrow") for b in range(5)]
if not quick:
    PLAN += [(b, 3, "wide") for b in range(5)] + [(b, 4, "narrow") for b in range(5)]
PARTS = 8
tmp = tempfile.TemporaryDirectory(prefix="vp22_")


def run(job):
    base, depth, alphabet, part = job
    d = os.path.join(tmp.name, "%d_%d_%s_%d" % job)
    os.makedirs(d)
    args = [str(base), str(depth), str(part), str(PARTS), alphabet]
    p = mc.execute([exe] + args + [d], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       text=True, errors="replace", env=dict(os.environ, QT_QPA_PLATFORM="offscreen"))
    n, bad, cur = {}, [], None
    for line in p.stdout.splitlines():
        if line.startswith("BAD "):
            cur = [line[4:]]
        elif line == "END" and cur:
            bad.append(cur)
            cur = None
        elif cur:
            cur.append(line)
        elif line.startswith("N "):
            n[line.split()[1]] = int(line.split()[2])
    if cur:
        bad.append(cur)
    if (p.returncode or "words" not in n) and not bad:
        bad.append(["ends with status %s" % p.returncode, p.stdout[-500:], p.stderr[-1500:]])
    states = set()
    for f in glob.glob(os.path.join(d, "states_*")):
        states |= {int(x) for x in open(f)}
        os.unlink(f)
    return job, args, n, bad, states


states = {}
for job, args, n, bad, st in mc.pmap(run, [p + (k,) for p in PLAN for k in range(PARTS)]):
    for b in bad:
        what = b[1].strip() if len(b) > 1 else ""
        ck.violation("editor/%s/%s" % (b[0].split(":")[0], b[0].split("[")[-1].rstrip("]")),
                     "%s; %s: %s: %s" % (BASES[job[0]], b[0], what, " / ".join(x.strip() for x in b[2:12])),
                     {"run": ["harness/gui"] + args, "report": b})
    states.setdefault(job[0], set()).update(st)
    ck.count("transitions", n.get("transitions", 0))
    ck.count("histories", n.get("words", 0))
    ck.count("saved_and_loaded", n.get("reloads", 0))
    ck.count("traces_validated_against_impl", n.get("words", 0))
for b, st in states.items():
    ck.count("states", len(st))
for base, depth, alphabet in PLAN[:6]:
    ck.sample({"base": BASES[base], "depth": depth, "alphabet": alphabet})
tmp.cleanup()
ck.assumptions += [
    "commands are issued as the editor's dialogs allow: free names, no cycles, no type change of a root gate, "
    "removal only of what no gate refers to, a root gate only with its fault tree",
    "the windows themselves are not driven; the views' item models are"]
sys.exit(ck.finish(
    rule="every command that a state allows, in every order to the depth; after every command, undo, redo, "
         "undo of everything and redo of everything the model, its proxies, signals and views are compared "
         "with a reference state, and every new state is saved and loaded",
    extra={"explanation": "executed on the real command, proxy and view classes; the reference is a plain "
                          "map of events"}))
