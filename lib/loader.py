"""Driving harness/loader: many models through the real initializer in one process."""
import os
import re
import signal
import subprocess
import tempfile

import mc


def _why(err):
    """The report of a sanitizer or an assertion if there is one, or else the end of the output."""
    m = re.search(r"ERROR: (?:Address|Leak)Sanitizer.*|runtime error: .*|.*Assertion.*", err)
    if not m:
        return err[-300:]
    i = err.find("SUMMARY: ")
    return (m.group(0) + (" " + err[i:].split("\n")[0] if i >= 0 else ""))[:400]


def load(exe, models, *opts, timeout=120):
    """models: list of lists of file texts; yields (index, verdict, lines) with verdict None for
    accepted, (type, cycle, message) for rejected, or a string for a crash or a hang."""
    start = 0
    while start < len(models):
        d = tempfile.mkdtemp(dir=mc.scratch(), prefix="ld")
        data = []
        for files in models[start:]:
            raw = [f if isinstance(f, bytes) else f.encode() for f in files]
            data.append(b"M %d %s\n" % (len(raw), b" ".join(b"%d" % len(r) for r in raw)))
            data += raw
        p = subprocess.Popen([exe, d] + list(opts), stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, start_new_session=True)
        try:
            out, err = p.communicate(b"".join(data), timeout=mc.patience(timeout) or 1)
        except subprocess.TimeoutExpired:
            mc.hung()
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)
        lines = []
        for line in out.decode("utf-8", "replace").splitlines():
            if line == "OK":
                yield start, None, lines
            elif line.startswith("ERR "):
                yield start, tuple(line[4:].split("|", 2)), lines
            else:
                lines.append(line)
                continue
            lines = []
            start += 1
        if start < len(models):
            yield start, "the initializer ends with status %s: %s" % (
                p.returncode, _why(err.decode("utf-8", "replace"))), lines
            start += 1
