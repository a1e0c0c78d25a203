#!/usr/bin/env python3
"""P26: the editor's dialogs and window, by all sequences of user actions on the real widgets."""
import os
import subprocess
import sys
import tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
import common
import mc

quick = common.tier() != "thorough"
ck = mc.Check("P26", "model_checking", common.tier())
exe = build.build_dialogs()
BASES = ["a new event", "the top gate", "an inner gate", "a 3-of-4 gate", "a basic event with a constant",
         "a basic event with an exponential", "a house event"]
PARTS = 8
tmp = tempfile.TemporaryDirectory(prefix="vp26_")
jobs = [("show",)] + [("settings", 2 if quick else 3, k) for k in range(PARTS)]
jobs += [(mode, b, 2 if quick else 3, k) for b in (0, 1, 2, 3, 4, 5, 6) for mode in ("event", "window")
         for k in range(PARTS)]


def run(job):
    d = os.path.join(tmp.name, "_".join(str(x) for x in job))
    os.makedirs(d)
    if job[0] == "show":
        args = ["show", d]
    elif job[0] == "settings":
        args = ["settings", str(job[1]), str(job[2]), str(PARTS)]
    else:
        args = [job[0], d, str(job[1]), str(job[2]), str(job[3]), str(PARTS)]
    env = dict(os.environ, QT_QPA_PLATFORM="offscreen", HOME=d, XDG_CONFIG_HOME=d, XDG_RUNTIME_DIR=d, LC_ALL="C")
    p = mc.execute([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                   errors="replace", env=env)
    n, bad, cur = {}, [], None
    for line in p.stdout.splitlines():
        if line.startswith("BAD "):
            cur = [line[4:]]
        elif line == "END" and cur:
            bad.append(cur)
            cur = None
        elif cur:
            cur.append(line)
        elif line.startswith("N "):
            n[line.split()[1]] = int(line.split()[2])
    if cur:
        bad.append(cur)
    if (p.returncode or "transitions" not in n) and not bad:
        bad.append(["%s ends with status %s" % (" ".join(str(x) for x in job), p.returncode),
                    p.stdout[-500:], p.stderr[-1500:]])
    return job, args, n, bad


for job, args, n, bad in mc.pmap(run, jobs):
    for b in bad:
        ck.violation("dialogs/%s/%s" % (job[0], b[0]),
                     "%s: %s" % (b[0], " / ".join(x.strip() for x in b[1:6])),
                     {"run": ["harness/dialogs"] + [str(a) for a in args], "report": b})
    ck.count("states", n.get("states", 0))
    ck.count("transitions", n.get("transitions", 0))
    ck.count("shown", n.get("shown", 0) if job[0] == "show" else 0)
    ck.count("edits_saved_undone_and_redone", n.get("shown", 0) if job[0] == "window" else 0)
    ck.count("traces_validated_against_impl", n.get("transitions", 0) + n.get("shown", 0))
for b in BASES:
    ck.sample({"starting point": b}, 7)
tmp.cleanup()
ck.assumptions += [
    "labels are single words with single blanks; a gate renamed in the dialog does not take its old name as argument; "
    "the top gate of a tree does not change its type",
    "the diagrams, the report views, printing, the preferences and the file dialogs are not driven"]
sys.exit(ck.finish(
    rule="every sequence of actions on the widgets to the depth, from a new dialog, from complete definitions of a "
         "new event and from each kind of element; after each, whether OK is enabled and what the dialog gives "
         "are compared with a plain reference; in the main window it is accepted or cancelled, and the saved "
         "document is compared after the edit, its undo and its redo",
    extra={"explanation": "executed on the real widgets under Qt's offscreen platform; states are "
                          "counted per part of the search"}))
