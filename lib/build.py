"""Builds what the checks need from /repo's *current working tree*.

Objects are cached under /verif/build by content: a cached object is reused only if
the flags and the contents of every file of /repo (and /verif) that it was compiled from
are byte-identical to those now on disk.  Nothing is ever built inside /repo.
"""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
NPROC = os.cpu_count() or 4

CXX = "g++"
BASE = ["-std=c++17", "-w", "-fno-new-ttp-matching",
        "-include", "boost/current_function.hpp",
        "-DBOOST_THROW_EXCEPTION_CURRENT_FUNCTION=BOOST_CURRENT_FUNCTION",
        '-DPROJECT_SOURCE_DIR="%s"' % REPO, "-fPIC"]
LIBS = ["-lboost_program_options", "-lboost_filesystem", "-lboost_system",
        "-lboost_random", "-lxml2", "-ldl", "-lpthread"]


class BuildError(Exception):
    pass


_hash_cache = {}


def file_hash(path):
    try:
        st = os.stat(path)
    except OSError:
        return None
    key = (path, st.st_mtime_ns, st.st_size, st.st_ino)
    if key not in _hash_cache:
        with open(path, "rb") as f:
            _hash_cache[key] = hashlib.sha1(f.read()).hexdigest()
    return _hash_cache[key]


def _sha(*parts):
    h = hashlib.sha1()
    for p in parts:
        h.update(repr(p).encode())
    return h.hexdigest()


def include_dirs():
    return ["-I" + REPO, "-I" + os.path.join(BUILD, "gen", "src"),
            "-I" + os.path.join(BUILD, "gen"), "-I/usr/include/libxml2"]


def generate_version():
    """configure_file(version.h.in version.h) without cmake."""
    cm = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r"project\(\s*SCRAM\s+VERSION\s+(\d+)\.(\d+)\.(\d+)", cm, re.I)
    ver = m.groups() if m else ("0", "16", "2")
    text = open(os.path.join(REPO, "src", "version.h.in")).read()
    for k, v in (("SCRAM_VERSION_MAJOR", ver[0]), ("SCRAM_VERSION_MINOR", ver[1]),
                 ("SCRAM_VERSION_PATCH", ver[2]), ("SCRAM_VERSION", ".".join(ver)),
                 ("SCRAM_GIT_REVISION", "")):
        text = text.replace("@%s@" % k, v)
    for d in ("gen", "gen/src"):
        p = os.path.join(BUILD, d, "version.h")
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.exists(p) or open(p).read() != text:
            tmp = p + ".%d" % os.getpid()
            open(tmp, "w").write(text)
            os.replace(tmp, p)


def _parse_deps(path):
    text = open(path).read().replace("\\\n", " ")
    deps = text.split(":", 1)[1].split()
    return sorted({os.path.normpath(d) for d in deps
                   if d.startswith(REPO + "/") or d.startswith(VERIF + "/")})


def compile_one(src, flags):
    """Compiles src into a cached object and returns the path of the object."""
    objdir = os.path.join(BUILD, "obj")
    os.makedirs(objdir, exist_ok=True)
    cmd_id = _sha(src, CXX, BASE, flags, include_dirs())
    index = os.path.join(objdir, cmd_id + ".json")
    lists = []
    if os.path.exists(index):
        try:
            lists = json.load(open(index))
        except ValueError:
            lists = []
    for deps in reversed(lists):
        hashes = [file_hash(d) for d in deps]
        if None in hashes:
            continue
        obj = os.path.join(objdir, _sha(cmd_id, list(zip(deps, hashes))) + ".o")
        if os.path.exists(obj):
            return obj
    tmp = os.path.join(objdir, "%s.%d.%d" % (cmd_id, os.getpid(), threading.get_ident()))
    cmd = ([CXX] + BASE + flags + include_dirs() +
           ["-MMD", "-MF", tmp + ".d", "-c", src, "-o", tmp + ".o"])
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("cannot compile %s:\n%s" % (src, r.stdout[-4000:]))
    deps = _parse_deps(tmp + ".d")
    hashes = [file_hash(d) for d in deps]
    obj = os.path.join(objdir, _sha(cmd_id, list(zip(deps, hashes))) + ".o")
    os.replace(tmp + ".o", obj)
    os.unlink(tmp + ".d")
    if deps not in lists:
        lists.append(deps)
        tmpi = tmp + ".json"
        json.dump(lists[-20:], open(tmpi, "w"))
        os.replace(tmpi, index)
    return obj


def compile_all(jobs):
    """jobs: [(src, flags)] -> [object path], in parallel, slowest first."""
    def weight(j):
        return -(10 ** 9 if j[0].endswith("initializer.cc") else os.path.getsize(j[0]))
    order = sorted(range(len(jobs)), key=lambda i: weight(jobs[i]))
    res = [None] * len(jobs)
    errors = []
    with ThreadPoolExecutor(NPROC) as ex:
        futs = {i: ex.submit(compile_one, *jobs[i]) for i in order}
        for i, f in futs.items():
            try:
                res[i] = f.result()
            except BuildError as e:
                errors.append(e)
    if errors:
        raise errors[0]
    return res


def core_sources():
    src = os.path.join(REPO, "src")
    out = []
    for root, _, files in os.walk(src):
        for f in files:
            if f.endswith(".cc") and not (root == src and f == "scram.cc"):
                out.append(os.path.join(root, f))
    return sorted(out)


SAN = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=undefined,float-cast-overflow",
       "-D_GLIBCXX_ASSERTIONS",
       "-fno-sanitize=vptr", "-g1"]


def _link(name, objs, extra_libs=(), ldflags=()):
    """Links an executable inside its own install prefix (bin/, share/scram/*.rng)."""
    schemas = [os.path.join(REPO, "share", f)
               for f in ("input.rng", "project.rng", "report.rng", "gui.rng")]
    schemas = [s for s in schemas if os.path.exists(s)]
    key = _sha(name, objs, list(extra_libs), list(ldflags),
               [file_hash(s) for s in schemas])[:20]
    prefix = os.path.join(BUILD, "inst", name + "-" + key)
    exe = os.path.join(prefix, "bin", name)
    if os.path.exists(exe):
        os.utime(prefix)
        return exe
    tmp = prefix + ".tmp%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(os.path.join(tmp, "bin"))
    os.makedirs(os.path.join(tmp, "share", "scram"))
    for s in schemas:
        shutil.copy(s, os.path.join(tmp, "share", "scram"))
    cmd = ([CXX] + list(ldflags) + ["-o", os.path.join(tmp, "bin", name)] + list(objs) +
           LIBS + list(extra_libs))
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("cannot link %s:\n%s" % (name, r.stdout[-4000:]))
    try:
        os.rename(tmp, prefix)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    _prune(os.path.join(BUILD, "inst"), 40)
    return exe


def _prune(d, keep):
    try:
        ents = sorted((os.path.join(d, e) for e in os.listdir(d)), key=os.path.getmtime)
    except OSError:
        return
    for e in ents[:-keep]:
        if os.path.isdir(e):
            shutil.rmtree(e, ignore_errors=True)


def core_flags(san=False, opt="-O1"):
    return [opt] + (SAN if san else [])


def build_cli(san=False):
    """Builds the scram command-line tool; returns the path of the executable."""
    san = san or bool(os.environ.get("VERIF_SAN"))
    generate_version()
    fl = core_flags(san)
    jobs = [(s, fl) for s in core_sources()]
    jobs.append((os.path.join(REPO, "src", "scram.cc"), fl))
    objs = compile_all(jobs)
    return _link("scram", objs, ldflags=SAN if san else ["-rdynamic"])


def build_harness(name, san=False, sources=None, extra_flags=(), extra_libs=(), gui=()):
    """Builds /verif/harness/<name>.cc linked with the core of scram."""
    san = san or bool(os.environ.get("VERIF_SAN"))
    generate_version()
    fl = core_flags(san)
    jobs = [(s, fl) for s in core_sources()] if sources is None else \
           [(s, fl) for s in sources]
    jobs.append((os.path.join(VERIF, "harness", name + ".cc"), fl + list(extra_flags)))
    for g in gui:
        jobs.append((g, fl + list(extra_flags)))
    objs = compile_all(jobs)
    return _link(name, objs, extra_libs=extra_libs, ldflags=SAN if san else ["-rdynamic"])


def build_gui(san=False):
    """Builds the harness of the editor: gui/ sources that need no window, with Qt's moc output."""
    san = san or bool(os.environ.get("VERIF_SAN"))
    generate_version()
    fl = core_flags(san)
    cfg = subprocess.run(["pkg-config", "--cflags", "Qt5Widgets", "Qt5Gui", "Qt5Core"],
                         stdout=subprocess.PIPE, text=True, check=True).stdout.split()
    libs = subprocess.run(["pkg-config", "--libs", "Qt5Widgets", "Qt5Gui", "Qt5Core"],
                          stdout=subprocess.PIPE, text=True, check=True).stdout.split()
    qt = fl + ["-I" + os.path.join(REPO, "gui"), "-O1"] + cfg
    jobs = [(s, fl) for s in core_sources()]
    for unit in ("model", "elementcontainermodel", "modeltree"):
        header = os.path.join(REPO, "gui", unit + ".h")
        out = os.path.join(BUILD, "gen", "moc_%s.cpp" % unit)
        r = subprocess.run(["moc", "-I" + REPO, header], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True)
        if r.returncode != 0:
            raise BuildError("moc %s:\n%s" % (header, r.stderr[-2000:]))
        text = re.sub(r'#include ".*/%s\.h"' % unit, '#include "gui/%s.h"' % unit, r.stdout)
        if not os.path.exists(out) or open(out).read() != text:
            tmp = out + ".%d" % os.getpid()
            open(tmp, "w").write(text)
            os.replace(tmp, out)
        jobs += [(os.path.join(REPO, "gui", unit + ".cpp"), qt), (out, qt)]
    jobs.append((os.path.join(VERIF, "harness", "gui.cc"), qt))
    objs = compile_all(jobs)
    return _link("gui", objs, extra_libs=libs, ldflags=SAN if san else ["-rdynamic"])


def build_dialogs(san=False):
    """Builds the harness of the editor's dialogs, with the output of Qt's moc and uic."""
    san = san or bool(os.environ.get("VERIF_SAN"))
    generate_version()
    fl = core_flags(san)

    def pkg(what):
        return subprocess.run(["pkg-config", what, "Qt5Widgets", "Qt5Gui", "Qt5Core", "Qt5Svg", "Qt5OpenGL",
                               "Qt5PrintSupport", "Qt5Concurrent"],
                              stdout=subprocess.PIPE, text=True, check=True).stdout.split()
    gen = os.path.join(BUILD, "gen", "dialogs")
    os.makedirs(gen, exist_ok=True)

    def generate(cmd, out, edit=lambda text: text):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode != 0:
            raise BuildError("%s:\n%s" % (" ".join(cmd), r.stderr[-2000:]))
        text = edit(r.stdout)
        if not os.path.exists(out) or open(out).read() != text:
            tmp = out + ".%d" % os.getpid()
            open(tmp, "w").write(text)
            os.replace(tmp, out)
    gui = os.path.join(REPO, "gui")
    for ui in sorted(f for f in os.listdir(gui) if f.endswith(".ui")):
        generate(["uic", os.path.join(gui, ui)], os.path.join(gen, "ui_" + ui[:-3] + ".h"))
    qt = fl + ["-I" + gui, "-I" + gen, "-O1", "-fPIC"] + pkg("--cflags")
    jobs = [(s, fl) for s in core_sources()]
    for source in sorted(f for f in os.listdir(gui) if f.endswith(".cpp") and f != "main.cpp"):
        jobs.append((os.path.join(gui, source), qt))
    for header in sorted(f for f in os.listdir(gui) if f.endswith(".h")):
        unit = header[:-2]
        if "Q_OBJECT" not in open(os.path.join(gui, header)).read():
            continue
        out = os.path.join(gen, "moc_%s.cpp" % unit)
        generate(["moc", "-I" + REPO, os.path.join(gui, header)], out,
                 lambda t: re.sub(r'#include ".*/%s\.h"' % unit, '#include "gui/%s.h"' % unit, t))
        jobs.append((out, qt))
    jobs.append((os.path.join(VERIF, "harness", "dialogs.cc"), qt))
    objs = compile_all(jobs)
    return _link("dialogs", objs, extra_libs=pkg("--libs"), ldflags=SAN if san else ["-rdynamic"])


def build_shared(name):
    """Builds /verif/harness/<name>.cc as a stand-alone shared library."""
    obj = compile_one(os.path.join(VERIF, "harness", name + ".cc"), ["-O1"])
    out = os.path.join(BUILD, "inst", "lib%s-%s.so" % (name, _sha(obj)[:16]))
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        r = subprocess.run([CXX, "-shared", "-o", tmp, obj], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError("cannot link %s:\n%s" % (name, r.stdout[-4000:]))
        os.replace(tmp, out)
    return out


HARNESSES = [("history", {}), ("xmlwriter", {}), ("roundtrip", {}), ("exprdump", {}), ("deviates", {}), ("loader", {}), ("settings", {"extra_flags": ("-O2",)})]


def main():
    t = time.time()
    print(build_cli())
    print("built in %.1f s" % (time.time() - t))


if __name__ == "__main__":
    main()
