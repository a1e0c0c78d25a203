#!/usr/bin/env python3
"""Confirms planted bugs: plant.py [--nocheck] ID...   (development tool; no check uses it)

Applies seeded/ID/patch.diff to /repo, builds, runs the stable tests, the demonstration (must
fail) and the property's quick check (should report), undoes the change, rebuilds and runs the
demonstration again (must pass)."""
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, cwd="/repo", timeout=1200):
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
    return r.returncode, r.stdout


def stable():
    for k in ("stable", "passed", "tests"):
        if k in BASE:
            return set(BASE[k])
    raise SystemExit("BASELINE keys: %s" % list(BASE))


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    check = "--nocheck" not in sys.argv
    if sh("git status --porcelain --untracked-files=no")[1].strip():
        raise SystemExit("/repo is not clean")
    good = []
    for i in args:
        d = os.path.join(VERIF, "seeded", i)
        meta = json.load(open(os.path.join(d, "meta.json")))
        note = []
        try:
            rc, out = sh("git apply %s/patch.diff" % d)
            if rc:
                print(i, "DOES NOT APPLY", out)
                continue
            rc, out = sh("bash /opt/vp/test.sh /tmp/t/plant.json")
            res = json.load(open("/tmp/t/plant.json"))
            missing = stable() - set(res["passed"])
            if not res["passed"]:
                note.append("BUILD FAILED " + out[-1500:])
            elif missing:
                note.append("TESTS FAIL %s" % sorted(missing)[:5])
            rc, out = sh("bash %s/demo.sh" % d, timeout=300)
            note.append("demo with patch: %d%s" % (rc, "" if rc else " BAD " + out[-300:]))
            if check:
                pid = meta["property"]
                rc, out = sh("VERIF_TIER=quick VERIF_SEED=1 python3 checks/%s.py" % pid.lower(),
                             cwd=VERIF)
                hit = rc == 1 and "VIOLATION property=%s " % pid in out
                note.append("check %s: %s" % (pid, "CAUGHT" if hit else "MISSED rc=%d" % rc))
                note.append(out[-500:] if not hit else
                            [l for l in out.splitlines() if l.startswith("  ")][0][:200])
        finally:
            sh("git checkout -- .")
        print(i, "; ".join(note), flush=True)
        good.append((i, d))
    rc, out = sh("bash /opt/vp/build.sh")
    for i, d in good:
        rc, out = sh("bash %s/demo.sh" % d, timeout=300)
        print(i, "demo on the unchanged tree: %d%s" % (rc, " BAD " + out[-500:] if rc else ""))


main()
