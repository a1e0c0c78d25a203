"""Running the scram executable on batches of fault trees and reading its report."""
import os
import tempfile
import xml.etree.ElementTree as ET

import ft
import mc

ALGOS = {"bdd": ["--bdd"], "zbdd": ["--zbdd"], "mocus": ["--mocus"]}


def write(path, text):
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)


def run_model(exe, xml, args, tag="m", timeout=600, keep=False, env=None, wrap=()):
    """Runs scram on one model text; returns (Run, report root or None)."""
    d = tempfile.mkdtemp(dir=mc.scratch(), prefix=tag)
    src, out = os.path.join(d, "in.xml"), os.path.join(d, "out.xml")
    write(src, xml)
    r = mc.run(list(wrap) + [exe, src, "-o", out] + list(args), timeout=timeout, env=env, cwd=d)
    root = None
    if r.rc == 0:
        try:
            root = ET.parse(out).getroot()
        except (ET.ParseError, OSError) as e:
            r.err += "\nunreadable report: %s" % e
    if not keep:
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)
    return r, root


def bad_run(r, root):
    return r.rc != 0 or root is None


def run_trees(exe, cases, args, render, on_bad, tag="m", timeout=600, stop=None):
    """Runs scram on the model rendered from `cases` (a list).  If the run fails the list is
    bisected until the single failing cases are isolated; on_bad(case, Run) is called for
    each and the rest are still analysed.  Yields (cases, report root) for good runs."""
    if not cases or (stop and stop()):
        return
    r, root = run_model(exe, render(cases), args, tag, timeout)
    if not bad_run(r, root):
        yield cases, root
        return
    if len(cases) == 1:
        on_bad(cases[0], r)
        return
    mid = len(cases) // 2
    yield from run_trees(exe, cases[:mid], args, render, on_bad, tag, timeout, stop)
    yield from run_trees(exe, cases[mid:], args, render, on_bad, tag, timeout, stop)


def products(elem, index):
    """The products of one sum-of-products: [(frozenset of (event, neg), attributes)]."""
    res = []
    for p in elem:
        if p.tag != "product":
            continue
        lits = []
        for x in p:
            if x.tag == "basic-event":
                lits.append((index(x.get("name")), False))
            elif x.tag == "not":
                lits.append((index(x[0].get("name")), True))
            else:
                lits.append((x.tag + ":" + (x.get("name") or ""), False))
        res.append((lits, p.attrib))
    return res


def eidx(name):
    return int(name[1:])


def results(root, tag="sum-of-products"):
    res = root.find("results")
    if res is None:
        return {}
    return {e.get("name"): e for e in res if e.tag == tag}
