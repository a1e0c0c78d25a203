"""P07: deterministic expressions."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from itertools import product
import math
import shutil
import tempfile
import build
import common
import expr
import mc
from expr import num

T = common.tier()
quick = T == "quick"
ck = mc.Check("P07", "exploration", T)
H = build.build_harness("exprdump")

A = [num(v) for v in (-2.0, -1.0, -0.5, 0.0, 0.5, 1.0, 2.0, 3.7)]
S = [num(v) for v in (-1.0, 0.0, 0.5, 2.0)]
BIN = expr.BINARY + expr.NARY


def grid(op, *axes):
    for a in product(*axes):
        yield (op,) + tuple(num(float(x)) for x in a)


def depth1():
    for e in A + [("int", 7), ("int", -3), ("bool", True), ("bool", False), ("pi",), ("time",)]:
        yield e
    for op in expr.UNARY:
        for a in A + [("pi",), ("bool", True), ("int", 4), num(1e-3), num(30.0), num(1.5)]:
            yield (op, a)
    for op in BIN:
        for a in product(A, A):
            yield (op,) + a
    for op in expr.NARY:
        yield (op, A[5])
        for a in product(S + [num(1.0)], repeat=3):
            yield (op,) + a
        for a in product((num(0.25), num(4.0), num(-3.0)), repeat=4):
            yield (op,) + a
    for a in product(S, repeat=3):
        yield ("ite",) + a
    for d in S:
        yield ("switch", (), d)
        for c, v in product((num(0.0), num(-1.0), ("bool", True)), S):
            yield ("switch", ((c, v),), d)
    for c1, c2 in product((num(0.0), num(2.0)), repeat=2):
        yield ("switch", ((c1, num(5.0)), (c2, num(6.0))), num(7.0))
        for c3 in (num(0.0), num(1.0)):
            yield ("switch", ((c1, num(5.0)), (c2, num(6.0)), (c3, num(8.0))), num(7.0))


def builtin():
    yield from grid("exponential", (-1, 0, 1e-3, 0.1, 2), (-1, 0, 1, 100, 8760))
    yield from grid("GLM", (-0.1, 0, 0.01, 0.5, 1, 1.1), (-1, 0, 0.01, 1), (-1, 0, 0.01, 1),
                    (-1, 0, 1, 10, 1000))
    yield from grid("Weibull", (-1, 0, 0.5, 10), (-1, 0, 0.5, 1, 2), (-1, 0, 5),
                    (-1, 0, 4, 5, 6, 100))
    yield from grid("periodic-test", (-1, 0, 1e-3, 0.1), (-1, 0, 1, 10), (-1, 0, 2),
                    (-1, 0, 1, 2, 3, 3.5, 12, 13, 22, 40.25))
    yield from grid("periodic-test", (0, 1e-3, 0.1), (-1, 0, 0.01, 0.1, 2), (0, 1, 10),
                    (-1, 0, 2), (-1, 0, 1, 2, 3, 3.5, 12, 13, 22, 40.25))
    ts = (2, 3, 4, 5, 8, 13, 13.5, 14, 40) if quick else (0, 2, 3, 3.5, 4, 5, 8, 13, 13.5, 14, 22,
                                                          23, 40, 103, 500)
    yield from grid("periodic-test", (1e-3, 0.05), (0, 0.01, 0.05), (0, 0.01, 0.05), (10,),
                    (0, 3), (0, 0.1, 1), (2, 10), (0, 1), (0, 0.9, 1), (0, 0.2), ts)
    ok = [1e-3, 0.01, 0.02, 10, 3, 0.1, 2, 1, 0.9, 0.2, 40]
    bad = [(-1, 0), (-1,), (-1,), (-1, 0), (-1,), (-.1, 1.1), (-1, 0, 11), (), (-.1, 1.1),
           (-.1, 1.1), (-1,)]
    for i, vs in enumerate(bad):
        for v in vs:
            a = list(ok)
            a[i] = v
            yield ("periodic-test",) + tuple(num(float(x)) for x in a)
    for n in range(1, 14):
        if n not in (4, 5, 11):
            yield ("periodic-test",) + tuple(num(0.5) for _ in range(n))


def with_time():
    """Expressions over the mission time (run at several mission times)."""
    t = ("time",)
    yield t
    for op in ("neg", "abs", "cos", "exp", "floor", "not", "atan"):
        yield (op, ("mul", t, num(0.001)))
    for op in ("add", "sub", "mul", "min", "max", "mean", "lt", "gt", "leq", "geq", "eq", "df"):
        yield (op, t, num(10.0))
        yield (op, num(10.0), t)
    yield ("div", t, num(10.0))
    for lam in (0.0, 1e-4, 0.1):
        yield ("exponential", num(lam), t)
    for mu in (0.0, 0.01):
        yield ("GLM", num(0.1), num(0.02), num(mu), t)
    yield ("Weibull", num(100.0), num(2.0), num(5.0), t)
    yield ("periodic-test", num(0.01), num(4.0), num(3.0), t)
    yield ("periodic-test", num(0.01), num(0.02), num(4.0), num(3.0), t)
    for av in (0.0, 1.0):
        yield ("periodic-test", num(0.01), num(0.02), num(0.03), num(4.0), num(3.0), num(0.1),
               num(1.0), num(av), num(0.9), num(0.2), t)
    yield ("ite", ("gt", t, num(5.0)), ("exponential", num(0.1), t), num(0.0))
    yield ("switch", ((("lt", t, num(2.0)), num(1.0)), (("lt", t, num(20.0)), num(2.0))), num(3.0))


def depth2():
    Q = S if quick else A
    for f, g in product(expr.UNARY, repeat=2):
        for a in A:
            yield (f, (g, a))
    for f in expr.UNARY:
        for g in BIN:
            for a in product(Q, Q):
                yield (f, (g,) + a)
    for f in BIN:
        for g in expr.UNARY:
            for a in product(S, Q):
                yield (f, (g, a[0]), a[1])
                yield (f, a[1], (g, a[0]))
    for f, g in product(BIN, repeat=2):
        for a in product(S, repeat=3):
            yield (f, (g, a[0], a[1]), a[2])
            yield (f, a[2], (g, a[0], a[1]))


WIDE = {"acos", "asin", "atan", "cos", "sin", "exponential", "GLM", "Weibull", "periodic-test",
        "time"}


def wide(e):
    """May a sound interval of this expression be wider than its value?"""
    if e[0] in WIDE:
        return True
    if e[0] == "switch":
        return any(wide(x) for p in e[1] for x in p) or wide(e[2]) or len(e[1]) > 0
    return any(wide(x) for x in e[1:] if isinstance(x, tuple)) or e[0] == "ite"


def same(x, y):
    if math.isnan(x) or math.isnan(y):
        return math.isnan(x) and math.isnan(y)
    if math.isinf(x) or math.isinf(y):
        return x == y
    return abs(x - y) <= 1e-14 + 1e-9 * max(abs(x), abs(y))


def classify(e, t):
    try:
        return expr.value(e, t)
    except Reject:
        return None


Reject = expr.Reject


def run(exprs, times, what):
    tot = rej = 0
    distinct = set()

    def job(arg):
        t, ch = arg
        out = []
        ok = [(i, e, v) for i, e, v in ch if v is not None]
        bad = [(i, e) for i, e, v in ch if v is None]

        def accept(items):
            """Models with many expressions, split when one of them is rejected."""
            if not items:
                return
            r = expr.dump(H, [expr.model_xml([("p%d" % i, e) for i, e, _ in items])], t)[0]
            if r[0] == "ok":
                for i, e, v in items:
                    got = r[1].get("p%d" % i)
                    if got is None:
                        out.append((e, t, "the parameter is missing"))
                    elif not same(got[0], v):
                        out.append((e, t, "value %.17g, expected %.17g" % (got[0], v)))
                    elif got[3]:
                        out.append((e, t, "reported as random"))
            elif len(items) == 1:
                if r[0] == "crash" or not any(wide(x) for x in [items[0][1]]):
                    out.append((items[0][1], t, "expected %.17g, but %s" % (items[0][2], r)))
            else:
                mid = len(items) // 2
                accept(items[:mid])
                accept(items[mid:])
        accept(ok)
        if bad:
            for (i, e), r in zip(bad, expr.dump(
                    H, [expr.model_xml([("p%d" % i, e)]) for i, e in bad], t)):
                if r[0] != "err" or not r[1]:
                    out.append((e, t, "must be rejected, but %s" % (r,)))
        return len(ch), len(bad), out

    jobs = []
    for t in times:
        lst = [(i, e, classify(e, t)) for i, e in enumerate(exprs)]
        lst = [x for x in lst if x[2] is None or not math.isnan(x[2])]
        distinct |= {(round(v, 9) if v is not None else None) for _, _, v in lst}
        jobs += [(t, c) for c in mc.chunks(lst, 300)]
    for n, b, out in mc.pmap(job, jobs):
        tot += n
        rej += b
        for e, t, txt in out:
            ck.violation("value/%s@%g" % (expr.show(e), t), "%s at mission time %g: %s" % (
                expr.show(e), t, txt), {"model": expr.model_xml([("p", e)]), "time": t,
                                        "what": txt})
    ck.count("evaluations", tot)
    ck.count("distinct_nontrivial", len(distinct))
    ck.cov.setdefault("spaces", []).append(
        {"what": what, "expressions": tot, "to be rejected": rej, "distinct values": len(distinct)})


run(list(depth1()), (3.0,), "one operation over the boundary alphabet")
run(list(builtin()), (3.0,), "reliability built-ins over parameter grids")
run(list(with_time()), (0.0, 1.0, 2.5, 3.0, 5.0, 7.0, 10.0, 100.0, 8760.0),
    "expressions over the mission time")
run(list(depth2()), (3.0,), "two nested operations")


# ---------------------------------------------------------------- named parameters and units

def named():
    """Chains and sharing of named parameters in every order of definition."""
    from itertools import permutations
    defs = [("a", num(0.25)), ("b", ("add", ("param", "a"), num(0.5))),
            ("c", ("mul", ("param", "a"), ("param", "b"))),
            ("d", ("ite", ("lt", ("param", "c"), ("param", "b")), ("param", "c"), ("param", "a")))]
    env = dict(defs)
    texts, exp = [], []
    for perm in permutations(defs):
        texts.append(expr.model_xml(perm))
        exp.append({n: expr.value(e, 0, env) for n, e in defs})
    return texts, exp


texts, exp = named()
for k, (x, want, got) in enumerate(zip(texts, exp, expr.dump(H, texts, 1.0))):
    if got[0] != "ok" or any(not same(got[1][n][0], v) for n, v in want.items()):
        ck.violation("named/%d" % k, "named parameters: %s, expected %s" % (got, want), {"model": x})
ck.count("evaluations", len(texts))
UNITS = ["bool", "int", "float", "hours", "hours-1", "years", "years-1", "fit",
         "demands"]
texts, want = [], []
for d in [None] + UNITS:
    for r in [None] + UNITS:
        texts.append('<opsa-mef><model-data><define-parameter name="a"%s><float value="1"/>'
                     '</define-parameter><define-parameter name="b"><neg><parameter name="a"%s/>'
                     '</neg></define-parameter></model-data></opsa-mef>' % (
                         ' unit="%s"' % d if d else "", ' unit="%s"' % r if r else ""))
        want.append(r is None or r == (d or "unitless"))
for r in [None] + UNITS:
    texts.append('<opsa-mef><model-data><define-parameter name="b"><neg><system-mission-time%s/>'
                 '</neg></define-parameter></model-data></opsa-mef>' % (
                     ' unit="%s"' % r if r else ""))
    want.append(r in (None, "hours"))
for x, w, got in zip(texts, want, expr.dump(H, texts, 1.0)):
    if got[0] != ("ok" if w else "err"):
        ck.violation("units/%d" % texts.index(x), "units: %s, expected %s" % (
            got, "acceptance" if w else "rejection"), {"model": x})
ck.count("evaluations", len(texts))
# ------------------------------------------------------------------------- extern functions

TYPES = {"i": "int", "d": "double"}
SIGS = [r + "".join(a) for n in range(6) for r in "id" for a in product("id", repeat=n)]
LIB = '<define-extern-library name="lib" path="%s"/>'


def declare(sig, name=None, lib="lib", extra=""):
    return '<define-extern-function name="%s" symbol="f_%s" library="%s">%s%s</define-extern-function>' % (
        name or "f_" + sig, sig, lib, extra, "".join("<%s/>" % TYPES[t] for t in sig))


def call(sig, *args, name=None):
    return ("extern", name or "f_" + sig, sig) + args


def external(libext):
    """Models with extern functions, and their parameters."""
    head = LIB % libext
    for sig in SIGS:        # every signature over a grid of arguments
        axes = product((-2.75, 0.5, 3.0) if len(sig) < 5 or not quick else (-2.75, 3.5), repeat=len(sig) - 1)
        yield head + declare(sig), [call(sig, *map(num, a)) for a in axes], "arguments of every signature"
    for sig in SIGS:        # the number of arguments
        for n in range(7):
            if n != len(sig) - 1:
                yield head + declare(sig), [call(sig, *[num(1.0)] * n)], "another number of arguments"
    leaf = [num(-1.5), ("int", 2), ("bool", True), ("pi",), ("time",)]
    some = ["dd", "di", "id", "ii", "ddd", "did", "idi"]
    heads = head + "".join(map(declare, some))
    inner = []
    for sig in some[:4]:
        inner += [call(sig, a) for a in leaf]
    for sig in some[4:]:
        inner += [call(sig, a, b) for a, b in product(leaf, repeat=2)]
    yield heads, inner, "leaves as arguments"
    outer = []
    for f in ("neg", "abs", "floor", "not"):
        outer += [(f, a) for a in inner]
        outer += [call(sig, (f, a)) for sig in some[:4] for a in leaf]
    for f in ("add", "sub", "mul", "min", "eq", "lt"):
        outer += [(f, a, num(0.5)) for a in inner] + [(f, num(0.5), a) for a in inner]
        outer += [call(sig, (f, a, b)) for sig in some[:4] for a, b in product(leaf, repeat=2)]
    outer += [call(sig, a) for sig in some[:4] for a in inner]
    outer += [call(sig, a, b) for sig in some[4:] for a in inner[:20] for b in leaf]
    outer += [("ite", a, b, num(9.0)) for a in inner[:20] for b in inner[:20]]
    yield heads, outer, "nested in other expressions"
    # Names, order of the definitions, labels and attributes.
    one = [call("dd", num(2.0), name="g")]
    extra = "<label>text</label>", "<attributes><attribute name='a' value='b'/></attributes>"
    for e in ("",) + extra + ("".join(extra),):
        yield head + declare("dd", "g", extra=e), one, "labels and attributes"
    yield declare("dd", "g") + head, one, "the function before its library"
    two = [call("dd", num(2.0), name="g"), call("di", num(2.5), name="h"), call("dd", num(7.0), name="k")]
    for names in (("g", "h", "k"), ("k", "h", "g"), ("h", "g", "k")):
        sig = {"g": "dd", "h": "di", "k": "dd"}
        yield head + "".join(declare(sig[n], n) for n in names), two, "several functions"
        yield head + head.replace('"lib"', '"other"') + "".join(
            declare(sig[n], n, "other" if n == names[0] else "lib") for n in names), two, "two names of a library"


def external_job(job):
    head, exprs, what, t = job
    text = expr.model_xml([("p%d" % i, e) for i, e in enumerate(exprs)], head)
    ref = [classify(e, t) for e in exprs]
    r = expr.dump(H, [text], t)[0]
    bad = []
    if None in ref:
        if r[0] != "err" or not r[1]:
            bad.append((0, "must be rejected, but %s" % (r,)))
    elif r[0] != "ok":
        bad.append((0, "is not accepted: %s" % (r,)))
    else:
        for i, v in enumerate(ref):
            got = r[1].get("p%d" % i)
            if got is None or not same(got[0], v) or got[3]:
                bad.append((i, "value %r, expected %.17g" % (got, v)))
    return what, t, len(exprs), None in ref, [(expr.show(exprs[i]), b) for i, b in bad[:3]], text


libext = build.build_shared("externs")
spaces = {}
for what, t, n, rejected, bad, text in mc.pmap(external_job, [
        (h, e, w, t) for h, e, w in external(libext) for t in ((3.0,) if "sign" in w else (0.0, 2.5))]):
    sp = spaces.setdefault(what, {"what": "extern functions: " + what, "expressions": 0, "to be rejected": 0})
    sp["expressions"] += n
    sp["to be rejected"] += rejected
    for e, b in bad:
        ck.violation("extern/%s@%g" % (e, t), "%s (%s) at mission time %g: %s" % (e, what, t, b), {"model": text, "what": b})
ck.cov.setdefault("spaces", []).extend(list(spaces.values()))
ck.count("evaluations", sum(s["expressions"] for s in spaces.values()))


def located():
    """A library is searched relative to the file that names it, not to the working directory."""
    base = tempfile.mkdtemp(dir=mc.scratch(), prefix="ext")
    places = {1: "d1", 2: "d2", 3: "d1/d3", 4: "d4"}
    for d in places.values():
        os.makedirs(os.path.join(base, d))
    names = ("libwhere.so", "where.so")
    for d in (1, 2, 3):     # the fourth has none
        for n in names:
            shutil.copy(libext, os.path.join(base, places[d], n))
    n = 0
    for at in (1, 2, 3, 4):
        for cwd in (1, 2, 3, 4):
            for to in ("", "./", "../", "../d2/", "d3/", "../../d2/", "absolute 1", "absolute 4", "../d1/d3/../"):
                for name, deco in (("libwhere.so", None), ("libwhere.so", "false"), ("where", "true"), ("where", None),
                                   ("where.so", None), ("libwhere", None)):
                    for system in (None, "false", "true"):
                        if system == "true" and not to:
                            continue    # searched as the system does
                        n += 1
                        d = os.path.join(base, places[at])
                        path = os.path.join(base, places[int(to[-1])]) + "/" if to[:1] == "a" else to
                        file = "lib%s.so" % name if deco == "true" else name
                        real = os.path.realpath(os.path.join(d, path, file))
                        opened = os.path.isdir(os.path.join(d, path)) and os.path.isfile(real)
                        want = int(os.path.basename(os.path.dirname(real))[1:]) if opened else None
                        if want is None and deco == "true" and os.path.isfile(os.path.join(d, path, name)):
                            continue    # neither required nor forbidden
                        text = expr.model_xml([("p", ("extern", "w", "d"))], (
                            '<define-extern-library name="lib" path="%s%s"%s%s/><define-extern-function name="w" '
                            'symbol="where" library="lib"><double/></define-extern-function>' % (
                                path, name, ' system="%s"' % system if system else "", ' decorate="%s"' % deco if deco else "")))
                        yield base, places[at], places[cwd], text, want


def located_job(job):
    k, (base, at, cwd, text, want) = job
    name = os.path.join(base, at, "m%d.xml" % k)
    with open(name, "w") as f:
        f.write(text)
    with open(name + ".list", "w") as f:
        f.write((name if k % 2 else os.path.relpath(name, os.path.join(base, cwd))) + "\n")
    r = mc.run([H, "1", name + ".list"], cwd=os.path.join(base, cwd))
    got = [float(x.split()[2]) for x in r.out.splitlines() if x.startswith("P p ")]
    os.unlink(name)
    os.unlink(name + ".list")
    end = [x[:3] for x in r.out.splitlines() if x[:3] in ("OK", "ERR")]
    if r.rc or (got, end) != (([], ["ERR"]) if want is None else ([want], ["OK"])):
        return "%s, expected %s" % (r.out[-200:] + r.err[-200:], "a refusal" if want is None else "directory %d" % want), job
    return None, job


n = 0
for bad, (k, (base, at, cwd, text, want)) in mc.pmap(located_job, list(enumerate(located()))):
    n += 1
    if bad:
        ck.violation("library/%d" % k, "model in %s, working directory %s: %s" % (at, cwd, bad), {"model": text, "what": bad})
ck.count("evaluations", n)
ck.cov["spaces"].append({"what": "extern libraries by path, working directory, decoration", "models": n})
ck.sample({"expression": "GLM(0.01, 0.01, 0.01, 10)",
           "value": expr.apply("GLM", [.01, .01, .01, 10])})
ck.assumptions.append("values whose reference is not a number are not compared")
sys.exit(ck.finish(
    rule="each expression of each listed space is the definition of a named parameter; the value "
         "of the loaded parameter is compared with the reference; out-of-domain arguments must be "
         "rejected; distinct_nontrivial counts distinct reference values per space"))
