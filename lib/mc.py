"""Common machinery of the checks: running scram, collecting results, evidence, findings."""
import hashlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

LIB = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(LIB)
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NPROC = os.cpu_count() or 4
SHOW = int(os.environ.get("VERIF_SHOW", "8"))

_scratch = None


def scratch():
    """A private scratch directory of this run, removed at the end."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="verif-")
    return _scratch


def cleanup():
    global _scratch
    if _scratch:
        shutil.rmtree(_scratch, ignore_errors=True)
        _scratch = None


class Run:
    __slots__ = ("rc", "out", "err", "timeout")

    def __init__(self, rc, out, err, timeout=False):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout

    @property
    def crashed(self):
        return self.timeout or self.rc < 0 or self.rc > 2


_hung = 0


def patience(timeout):
    """The time limit of the next process: patient at first, short after processes of this worker
    hung, and zero after many of them, so that a change which makes the tool hang gets an answer."""
    if os.environ.get("VERIF_TIER") == "thorough":
        return timeout
    return min(timeout, 240) if not _hung else min(timeout, 20) if _hung < 8 else 0


def hung():
    global _hung
    _hung += 1


def run(cmd, timeout=120, env=None, cwd=None, stdin=None):
    timeout = patience(timeout)
    if not timeout:
        return Run(-9, "", "not run: too many processes before it did not end", True)
    e = dict(os.environ)
    e.pop("VERIF_TIER", None)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd,
                         stdin=subprocess.DEVNULL, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return Run(p.returncode, out.decode("utf-8", "replace"), err.decode("utf-8", "replace"))
    except subprocess.TimeoutExpired:
        hung()
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, err = p.communicate()
        return Run(-9, out.decode("utf-8", "replace"), err.decode("utf-8", "replace"), True)


def execute(cmd, timeout=600, text=False, **kw):
    """subprocess.run, where a process that does not end has the status -9."""
    limit = patience(timeout)
    empty = "" if text else b""
    if not limit:
        return subprocess.CompletedProcess(cmd, -9, empty, empty)
    try:
        return subprocess.run(cmd, timeout=limit, text=text, **kw)
    except subprocess.TimeoutExpired as e:
        hung()
        out, err = (x or b"" for x in (e.stdout, e.stderr))
        note = b" (does not end)"
        if text:
            out, err = (x if isinstance(x, str) else x.decode("utf-8", "replace") for x in (out, err))
            note = note.decode()
        return subprocess.CompletedProcess(cmd, -9, out, err + note)


_pool_fn = None


def _call(job):
    return _pool_fn(job)


def pmap(fn, jobs, procs=None):
    """Unordered parallel map over forked workers (fn may be a closure)."""
    global _pool_fn
    _pool_fn = fn
    with mp.get_context("fork").Pool(procs or NPROC) as pool:
        for r in pool.imap_unordered(_call, jobs):
            yield r


def chunks(it, size):
    buf = []
    for x in it:
        buf.append(x)
        if len(buf) == size:
            yield buf
            buf = []
    if buf:
        yield buf


def close(a, b, rel=2e-5, abs_=1e-12):
    return a == b or abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


class Check:
    """Collects what one check explored and reports it."""

    def __init__(self, pid, level, tier):
        self.pid, self.level, self.tier = pid, level, tier
        self.t0, self.pid_ = time.time(), os.getpid()
        self.cov = {}
        self.samples = []
        self.violations = []      # (key, text, replay)
        self.distinct = set()
        self.assumptions = []
        self.known = self._load_known()
        self.known_hit = {}

    def _load_known(self):
        res = {}
        path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
        if os.path.exists(path):
            for line in open(path):
                line = line.rstrip("\n")
                if not line.startswith("finding: "):
                    continue
                f = line[len("finding: "):].split(" ", 2)
                if f[0] == "property=" + self.pid and f[1].startswith("key="):
                    res[f[1][4:]] = f[2]
        return res

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, key, text, replay):
        """key: identifies the failing input/site (no blanks); replay: JSON-able artefact."""
        key = key.replace(" ", "_")
        if key in self.known:
            self.known_hit[key] = text
            return
        self.violations.append((key, text, replay))
        # The answer is known: with failures, everything may be much slower than without.
        if self.tier != "thorough" and time.time() - self.t0 > 240 and os.getpid() == self.pid_:
            print("stopped early")
            code = self.finish(rule="stopped at a violation after %d s" % (time.time() - self.t0), exhaustive=False)
            sys.stdout.flush()
            for p in mp.active_children():
                p.terminate()
            os._exit(code)

    def finish(self, rule=None, exhaustive=True, extra=None):
        cov = dict(self.cov)
        if rule:
            cov["rule"] = rule
        cov["samples"] = self.samples or ["(none)"]
        cov["exhaustive"] = bool(exhaustive)
        if extra:
            cov.update(extra)
        if self.level in ("exploration", "fault_enumeration"):
            cov.setdefault("evaluations", 0)
            cov.setdefault("distinct_nontrivial", len(self.distinct))
        ev = {"property": self.pid, "tier": self.tier, "seed": SEED, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        evidence = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
        os.makedirs(evidence, exist_ok=True)
        path = os.path.join(evidence, self.pid + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(path + ".tmp", path)
        for key, text in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[key]))
        print("%s %s: %s" % (self.pid, self.tier, " ".join(
            "%s=%s" % (k, v) for k, v in cov.items() if isinstance(v, (int, float)))))
        print("wall %.1f s" % (time.time() - self.t0))
        cleanup()
        if self.violations:
            rdir = os.path.join(VERIF, "work", "replay")
            os.makedirs(rdir, exist_ok=True)
            self.violations.sort(key=lambda v: len(json.dumps(v[2], default=str)))
            for i, (key, text, replay) in enumerate(self.violations[:SHOW]):
                rp = os.path.join(rdir, "%s-%s.json" % (
                    self.pid, hashlib.sha1((key + text).encode()).hexdigest()[:10]))
                with open(rp, "w") as f:
                    json.dump({"property": self.pid, "key": key, "what": text,
                               "replay": replay}, f, indent=1, default=str)
                print("  %s: %s" % (key, text[:600]))
                print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            if len(self.violations) > SHOW:
                print("  ... and %d more violations" % (len(self.violations) - SHOW))
            return 1
        return 0
