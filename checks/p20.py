#!/usr/bin/env python3
"""P20: every output call and every byte of the output failing in turn."""
import errno
import os
import re
import resource
import signal
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
import common
import mc
import scram

quick = common.tier() != "thorough"
ck = mc.Check("P20", "fault_enumeration", common.tier())
exe = build.build_cli()
faults = build.build_shared("faults")

DIR = tempfile.mkdtemp(dir=mc.scratch(), prefix="io")


def tree(n):
    gates = "".join("<define-gate name='g%d'><or>%s</or></define-gate>" % (k, "".join(
        "<event name='e%d'/>" % (k * 3 + i) for i in range(3))) for k in range(n))
    top = "<define-gate name='top'><and>%s</and></define-gate>" % "".join(
        "<event name='g%d'/>" % k for k in range(n)) if n > 1 else ""
    events = "".join("<define-basic-event name='e%d'><float value='%g'/></define-basic-event>" % (
        i, 0.01 * (i + 1)) for i in range(3 * n))
    return "<opsa-mef><define-fault-tree name='f'>%s%s</define-fault-tree><model-data>%s</model-data>" \
        "</opsa-mef>" % (top, gates, events)


for n in (1, 2, 3):
    scram.write(os.path.join(DIR, "m%d.xml" % n), tree(n))

# name -> (model, options, where the output goes, every byte explored)
CASES = {
    "small": ("m1.xml", ["--probability"], "file", True),
    "small-stdout": ("m1.xml", ["--probability"], "stdout", not quick),
    "packed": ("m1.xml", ["--no-indent"], "file", not quick),
    "packed-stdout": ("m1.xml", ["--no-indent", "--bdd"], "stdout", not quick),
    "blocks": ("m3.xml", ["--probability", "--importance"], "file", not quick),
    "blocks-stdout": ("m3.xml", ["--probability", "--importance"], "stdout", not quick),
    "large": ("m3.xml", ["--probability", "--importance", "--mocus"], "file", not quick),
    "serialize": ("m1.xml", ["--serialize"], "stdout", True),
    "serialize-blocks": ("m3.xml", ["--serialize"], "stdout", not quick),
}


def run(case, limit=None, env=None, out=None, stdout=None, closed=False):
    """Returns (exit status, stderr, bytes that reached the output or None)."""
    model, opts, where, _ = CASES[case]
    cmd = [exe, os.path.join(DIR, model)] + opts
    own = out is None and stdout is None
    if own:
        out = os.path.join(DIR, "o%d" % os.getpid())
        if os.path.exists(out):
            os.unlink(out)
    if where == "file":
        cmd += ["-o", out]

    def prepare():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        signal.signal(signal.SIGPIPE, signal.SIG_IGN)
        if limit is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        if closed:
            os.close(1)
    e = dict(os.environ)
    e.update(env or {})
    so = subprocess.DEVNULL
    if where == "stdout":
        so = stdout if stdout is not None else open(out, "wb")
    r, w = os.pipe()
    p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=so, stderr=w, env=e, preexec_fn=prepare,
                         restore_signals=False)
    os.close(w)
    if so not in (subprocess.DEVNULL, stdout):
        so.close()
    err = b""
    while True:
        part = os.read(r, 65536)
        if not part:
            break
        err += part
    os.close(r)
    p.wait()
    data = None
    if own and os.path.exists(out):
        with open(out, "rb") as f:
            data = f.read()
        os.unlink(out)
    return p.returncode, err.decode("utf-8", "replace"), data


TIMES = re.compile(rb"<(time|products|probability|importance|uncertainty)>[^<]*</\1>")


def mask(data):
    return None if data is None else TIMES.sub(rb"<\1/>", data)


FULL, SIZE, CALLS = {}, {}, {}
for case, (model, opts, where, every) in CASES.items():
    log = os.path.join(DIR, "log")
    rc, err, data = run(case)
    rc2, err2, data2 = run(case, env={"LD_PRELOAD": faults, "FAULT_LOG": log})
    calls = [int(x) for x in open(log).read().split()]
    FULL[case], SIZE[case] = mask(data), len(data or b"")
    CALLS[case] = dict(zip(("fopen", "write", "flush", "close"), calls))
    whole = True
    try:
        ET.fromstring(data)
    except (ET.ParseError, TypeError):
        whole = False
    if rc or rc2 or not whole or mask(data2) != FULL[case]:
        ck.violation("base/" + case, "the run without faults: exit status %s, %s; the output is %s" % (
            rc, err + err2, "whole" if whole else "not well-formed"), {"case": case})
    # Without any calls to fail, the byte positions below still decide.
    ck.count("runs_without_output_calls", int(not calls[1]))
    ck.sample("%s: %d bytes, calls %s" % (case, SIZE[case], CALLS[case]))


def judge(label, case, rc, err, data, must_fail):
    if rc == 0:
        if must_fail or mask(data) != FULL[case]:
            return "success is reported although the output is incomplete (%s of %d bytes)" % (
                None if data is None else len(data), SIZE[case])
        return None
    if rc != 1:
        return "ends with status %s instead of an error: %s" % (rc, err[-300:])
    if not err.strip():
        return "fails without a message"
    return None


def jobs():
    for case, (model, opts, where, every) in CASES.items():
        # The size of a report varies by a few digits of the times; beyond the end all must succeed.
        if every:
            for n in range(SIZE[case] - 40):
                yield "bytes", case, n, True
        else:
            edges = {0, 1, 2, SIZE[case] // 2}
            for k in range(4096, SIZE[case] + 4096, 4096):
                edges |= set(range(k - 16, k + 17))
            for n in sorted(x for x in edges if x < SIZE[case] - 40):
                yield "bytes", case, n, True
        for n in range(SIZE[case] - 40, SIZE[case] + 41, 1 if every else 8):
            yield "bytes", case, n, False
        for call, total in CALLS[case].items():
            if not every and call == "write":
                continue
            for k in range(1, total + 1):
                for sticky in (False, True):
                    if call == "write" and sticky and quick and case != "small":
                        continue
                    for no in (errno.EIO,) if call == "write" else (errno.EIO, errno.ENOSPC, errno.EACCES,
                                                                    errno.EDQUOT):
                        yield "call", case, (call, k, sticky, no), True


def job(j):
    kind, case, x, must_fail = j
    if kind == "bytes":
        rc, err, data = run(case, limit=x)
        bad = judge(j, case, rc, err, data, must_fail)
        return ("bytes/%s/%d" % (case, x), "file size limited to %d bytes: %s" % (x, bad), case) if bad else None
    call, k, sticky, no = x
    env = {"LD_PRELOAD": faults, "FAULT_CALL": call, "FAULT_AT": str(k), "FAULT_ERRNO": str(no)}
    if sticky:
        env["FAULT_STICKY"] = "1"
    rc, err, data = run(case, env=env)
    bad = judge(j, case, rc, err, data, must_fail and call != "flush")
    if bad is None and call == "flush" and rc == 0:
        bad = "a failed flush is ignored"
    return ("call/%s/%s%d%s/%d" % (case, call, k, "+" if sticky else "", no),
            "%s call %d of %d fails (%s%s): %s" % (call, k, CALLS[case][call], os.strerror(no),
                                                  ", and all later ones" if sticky else "", bad), case) \
        if bad else None


todo = list(jobs())
for bad in mc.pmap(job, todo):
    if bad:
        ck.violation(bad[0], "%s: %s" % (bad[2], bad[1]), {"case": bad[2], "fault": bad[0]})
ck.count("evaluations", len(todo))
ck.count("byte_positions", sum(t[0] == "bytes" for t in todo))
ck.count("failing_calls", sum(t[0] == "call" for t in todo))
ck.distinct.update(repr(t[:3]) for t in todo)

# ------------------------------------------------------------------ real destinations that cannot take it

os.mkdir(os.path.join(DIR, "folder"))


def special(name, case, **kw):
    rc, err, _ = run(case, **kw)
    ck.count("evaluations")
    ck.count("special_destinations")
    ck.distinct.add((name, case))
    if rc != 1 or not err.strip():
        ck.violation("special/%s/%s" % (name, case), "%s to %s: exit status %s, message %r" % (
            case, name, rc, err[-200:]), {"case": case, "destination": name})


for case, (model, opts, where, every) in CASES.items():
    if where == "file":
        special("a full device", case, out="/dev/full")
        special("a folder", case, out=os.path.join(DIR, "folder"))
        special("a missing folder", case, out=os.path.join(DIR, "no", "such", "file"))
        special("a file as folder", case, out=os.path.join(DIR, "m1.xml", "file"))
        special("an empty name", case, out="")
        special("too long a name", case, out=os.path.join(DIR, "x" * 300))
    else:
        with open("/dev/full", "wb") as f:
            special("a full device", case, stdout=f)
        r, w = os.pipe()
        os.close(r)
        special("a closed pipe", case, stdout=w)
        os.close(w)
        special("a closed descriptor", case, stdout=subprocess.DEVNULL, closed=True)
        with open(os.path.join(DIR, "m1.xml"), "rb") as f:
            special("a read-only descriptor", case, stdout=f)

ck.assumptions += ["faults: each byte position of the output (file size limit), each stdio output call, each "
                   "flush and close, each open, and unwritable destinations; a single fault or all from one on",
                   "the times in a report are masked when outputs are compared"]
sys.exit(ck.finish(rule="one case per (run, failing byte or call, kind); non-trivial: the fault is before the "
                        "end of the output"))
