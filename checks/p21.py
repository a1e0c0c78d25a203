#!/usr/bin/env python3
"""P21: serialized models read back: structure, texts, numbers and results."""
import os
import signal
import subprocess
import sys
import tempfile
from itertools import combinations_with_replacement, product
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
import common
import families
import ft
import mc
import report
import scram
from lxml import etree

quick = common.tier() != "thorough"
ck = mc.Check("P21", "exploration", common.tier())
exe = build.build_harness("roundtrip")
cli = build.build_cli()
RNG = etree.RelaxNG(etree.parse(os.path.join(mc.REPO, "share", "input.rng")))
WHITE = " \t\n\r"


def esc(s):
    return "".join(c if c.isalnum() and c.isascii() else "&#%d;" % ord(c) for c in s)


def quote(s):
    return '"%s"' % "".join("%%%02x" % b if b < 0x21 or b in b'"%' or b >= 0x7f else chr(b)
                            for b in s.encode())


class El:
    """An element of the reference model: name, label, attributes [(name, value, type)]."""

    def __init__(self, name, label="", attrs=()):
        self.name, self.label, self.attrs = name, label, tuple(attrs)

    def xml(self):
        s = "<label>%s</label>" % esc(self.label) if self.label else ""
        if self.attrs:
            s += "<attributes>%s</attributes>" % "".join(
                '<attribute name="%s" value="%s"%s/>' % (n, esc(v), ' type="%s"' % esc(t) if t else "")
                for n, v, t in self.attrs)
        return s

    def attr_lines(self):
        return sorted("%s=%s:%s" % (quote(n), quote(v.strip(WHITE)), quote(t.strip(WHITE)))
                      for n, v, t in self.attrs)

    def dump(self):
        return quote(self.name) + " l=" + quote(self.label.strip(WHITE)) + "".join(
            " a:" + a for a in self.attr_lines())


# a formula is (connective, lo, hi, [(ref, negated)]); ref: ("G"|"B"|"H", name) or "T" or "F"
def ref_xml(ref, neg):
    if ref in ("T", "F"):
        x = '<constant value="%s"/>' % ("true" if ref == "T" else "false")
    else:
        x = '<event name="%s"/>' % ref[1]
    return "<not>%s</not>" % x if neg else x


def formula_xml(f):
    conn, lo, hi, args = f
    body = "".join(ref_xml(r, n) for r, n in args)
    if conn == "null":
        return body
    bounds = (' min="%d"' % lo if lo is not None else "") + (' max="%d"' % hi if hi is not None else "")
    return "<%s%s>%s</%s>" % (conn, bounds, body, conn)


def formula_dump(f):
    conn, lo, hi, args = f
    return conn + (":%d" % lo if lo is not None else "") + (":%d" % hi if hi is not None else "") + \
        "".join(" %s%s" % ("-" if n else "+", r if r in ("T", "F") else r[0] + quote(r[1]))
                for r, n in args)


def expr_xml(e):
    kind, v = e
    if kind == "exponential":
        return "<exponential>%s</exponential>" % "".join(expr_xml(a) for a in v)
    return '<%s value="%s"/>' % (kind, v)


def expr_dump(e):
    kind, v = e
    if kind == "exponential":
        return "exponential(%s)" % "".join(expr_dump(a) + "," for a in v)
    if kind == "bool":
        v = "1" if v == "true" else "0"
    return "%.17g" % float(v)


class Model:
    def __init__(self, el=None):
        self.el = el or El("")      # an empty name: the default one
        self.fts = []               # (El, [(El, formula)], [basic], [house])
        self.basic = []             # (El, expression or None)
        self.house = []             # (El, state or None)

    def xml(self):
        def basic(b):
            return '<define-basic-event name="%s">%s%s</define-basic-event>' % (
                b[0].name, b[0].xml(), expr_xml(b[1]) if b[1] else "")

        def house(h):
            return '<define-house-event name="%s">%s%s</define-house-event>' % (
                h[0].name, h[0].xml(), '<constant value="%s"/>' % ("true" if h[1] else "false")
                if h[1] is not None else "")
        s = "<opsa-mef%s>%s" % (' name="%s"' % self.el.name if self.el.name else "", self.el.xml())
        for el, gates, bs, hs in self.fts:
            s += '<define-fault-tree name="%s">%s' % (el.name, el.xml())
            s += "".join('<define-gate name="%s">%s%s</define-gate>' % (g.name, g.xml(), formula_xml(f))
                         for g, f in gates)
            s += "".join(map(basic, bs)) + "".join(map(house, hs)) + "</define-fault-tree>"
        return s + "<model-data>%s%s</model-data></opsa-mef>" % (
            "".join(map(basic, self.basic)), "".join(map(house, self.house)))

    def dump(self):
        out = []
        if self.el.name:
            out.append("M " + self.el.dump())
        else:
            out.append("M - l=" + quote(self.el.label.strip(WHITE)))
            out += ["MA " + a for a in self.el.attr_lines()]
        basic, house = list(self.basic), list(self.house)
        for el, gates, bs, hs in self.fts:
            out.append("F " + el.dump())
            basic += bs
            house += hs
            for g, f in gates:
                out.append("FG %s %s" % (quote(el.name), quote(g.name)))
                out.append("G %s public %s" % (g.dump(), formula_dump(f)))
        for b, e in basic:
            out.append("B %s public %s" % (b.dump(), expr_dump(e) if e else "-"))
        for h, state in house:
            out.append("H %s public %d" % (h.dump(), bool(state)))
        return sorted(set(out))


# ------------------------------------------------------------------ families

ALPHA = ["a", " ", "\t", "\n", "\r", "&", "<", ">", '"', "'", "]", "α", "\U0001F600"]
SMALL = ["a", " ", "\n", "&", ">", '"', "]"]


def strings():
    for n in (1, 2):
        for t in product(ALPHA, repeat=n):
            yield "".join(t)
    for t in product(SMALL if quick else ALPHA, repeat=3):
        yield "".join(t)
    for t in product(["]", ">", "&"] if quick else ["]", ">", "&", "\r", "a"], repeat=4):
        yield "".join(t)
    # what looks like markup inside of a text
    tokens = ["&", "amp;", "lt;", "#38;", "#x26;", "quot;", "a"]
    for n in (2, 3) if quick else (2, 3, 4):
        for t in product(tokens, repeat=n):
            if t[0] == "&" or "&" in t[1:-1]:
                yield "".join(t)
    for t in product(["<![CDATA[", "]]>", "<!--", "-->", "<?a", "?>", "</label>", "b"], repeat=2):
        yield "".join(t)


def text_models():
    for s in strings():
        if not s.strip(WHITE):
            continue                # a label or a value of white space only is not a text
        attrs = [("n", s, ""), ("m", s, s)]
        m = Model(El("model", s, attrs))
        m.fts.append((El("f", s, attrs), [(El("top", s, attrs), ("or", None, None, [
            (("B", "b"), False), (("H", "h"), False), (("B", "c"), True)]))], [], []))
        m.basic = [(El("b", s, attrs), ("float", "0.5")), (El("c", s), None)]
        m.house = [(El("h", s, attrs), True)]
        yield "text", repr(s), m


def nested_text_models():
    """Texts and attributes present or absent on every kind of element independently."""
    opts = [("", ()), ("x y", ()), ("", (("k", "v", ""),)), ("l", (("k", "v", "t"), ("j", "w", "")))]
    for c in product(range(4), repeat=5):
        e = [El(n, *opts[i]) for n, i in zip(("", "f", "top", "b", "h"), c)]
        m = Model(e[0])
        m.fts.append((e[1], [(e[2], ("and", None, None, [(("B", "b"), False), (("H", "h"), False)]))], [], []))
        m.basic = [(e[3], ("float", "0.25"))]
        m.house = [(e[4], False)]
        yield "texts-present", repr(c), m


def names():
    first, other = ["a", "B", "_", "α"], ["a", "B", "_", "1", "-", "é", "·"]
    for a in first:
        yield a
        for b in other:
            if b != "-":
                yield a + b
            for c in other[:5]:
                if c != "-" and not quick:
                    yield a + b + c
            yield a + b + "z"
    yield "a-b-c"
    yield "opsa-mef"
    yield "true"


def name_models():
    for s in names():
        for kind in range(5):
            n = ["", "f", "top", "b", "h"]
            n[kind] = s
            if len(set(n)) < 5:
                continue
            m = Model(El(n[0]))
            m.fts.append((El(n[1]), [(El(n[2]), ("and", None, None, [(("B", n[3]), False), (("H", n[4]), True)]))], [], []))
            m.basic = [(El(n[3]), None)]
            m.house = [(El(n[4]), True)]
            yield "name", "%s as %d" % (s, kind), m


REFS = [("B", "b"), ("B", "c"), ("H", "h"), ("G", "g"), "T", "F"]


def formulas(k):
    lits = [(r, n) for r in REFS for n in (False, True) if not (n and r in ("T", "F"))]
    for args in product(lits, repeat=k):
        ids = [r for r, _ in args]
        if len(set(ids)) < len(ids):
            continue
        if k == 1:
            if not args[0][1]:
                yield ("null", None, None, args)
                if args[0][0] not in ("T", "F"):
                    yield ("not", None, None, args)
            continue
        for conn in ("and", "or", "nand", "nor", "xor", "iff", "imply"):
            if conn in ("xor", "iff", "imply") and k != 2:
                continue
            yield (conn, None, None, args)
        for lo in range(2, k):
            yield ("atleast", lo, None, args)
        for lo in range(0, k + 1):
            for hi in range(lo, k + 1):
                yield ("cardinality", lo, hi, args)


def formula_models():
    for k in (1, 2, 3) if quick else (1, 2, 3, 4):
        for fs in mc.chunks(formulas(k), 400):
            m = Model()
            gates = [(El("q%d" % i), f) for i, f in enumerate(fs)]
            gates.append((El("g"), ("or", None, None, [(("B", "b"), False), (("B", "d"), False)])))
            m.fts.append((El("f"), gates, [], []))
            m.basic = [(El("b"), None), (El("c"), ("float", "0.1")), (El("d"), None)]
            m.house = [(El("h"), True)]
            yield "formula", "%d arguments, from %r" % (k, fs[0]), m


def numbers():
    for k in range(0, 330, 1 if not quick else 3):
        for d in ("1", "9.99999999999999", "1.2345678901234567", "4.9406564584124654"):
            v = float("%se-%d" % (d, k))
            if 0 <= v <= 1:
                yield repr(v)
    for a in range(0, 1000 if quick else 10000):
        yield "%g" % (a / (1000.0 if quick else 10000.0))
    for a in range(1, 60):
        for b in range(1, 60):
            if a < b:
                yield repr(a / b)
    x = 1.0
    for _ in range(1080):
        yield repr(x)
        yield repr(1 - x / 2)
        yield repr(x * (1 - 2.0 ** -53))
        x /= 2
    for s in ("0", "1", "0.0", "1e0", "1E-3", "+0.5", ".5", "5e-1", "00.50", "100e-2", "-0"):
        yield s


BIG = ["0", "1", "0.1", "1e-300", "1e300", "123456789", "123456.789", "8760", "1.7976931348623157e308",
       "0.30000000000000004", "2147483648"]


def number_models():
    for vs in mc.chunks(dict.fromkeys(numbers()), 300):
        m = Model()
        m.basic = [(El("e%d" % i), ("float", v)) for i, v in enumerate(vs)]
        m.fts.append((El("f"), [(El("top"), ("or", None, None, [(("B", "e%d" % i), False)
                                                                for i in range(len(vs))]))], [], []))
        if len(vs) < 2:
            m.fts = []
        yield "number", "from " + vs[0], m
    es = [("exponential", (("float", a), (k, b))) for a in BIG for b in BIG for k in ("float",)]
    es += [("exponential", (("int", a), ("float", b))) for a in ("0", "1", "7", "2147483647") for b in BIG]
    es += [("int", "0"), ("int", "1"), ("bool", "true"), ("bool", "false")]
    es += [("exponential", (("exponential", (("float", "0.5"), ("float", "0.7"))), ("bool", "true")))]
    for c in mc.chunks(es, 40):
        m = Model()
        m.basic = [(El("e%d" % i), e) for i, e in enumerate(c)]
        yield "expression", "from %r" % (c[0],), m


def structure_models():
    """Every distribution of gates and events over two fault trees and the model data."""
    for gpos in product((0, 1), repeat=3):
        for bpos in product((0, 1, 2), repeat=2):
            for hpos in (0, 1, 2):
                for name in ("", "M"):
                    for b, st in product((None, ("float", "0.5")), (None, True)):
                        m = Model(El(name))
                        parts = [([], [], []), ([], [], [])]
                        gs = [("x", ("and", None, None, [(("G", "y"), False), (("B", "b"), False)])),
                              ("y", ("or", None, None, [(("G", "z"), True), (("B", "c"), False)])),
                              ("z", ("atleast", 2, None, [(("B", "b"), False), (("B", "c"), True),
                                                          (("H", "h"), False)]))]
                        for (n, f), p in zip(gs, gpos):
                            parts[p][0].append((El(n), f))
                        for n, p in zip("bc", bpos):
                            (m.basic if p == 2 else parts[p][1]).append((El(n), b))
                        (m.house if hpos == 2 else parts[hpos][2]).append((El("h"), st))
                        for i in (0, 1):
                            m.fts.append((El("f%d" % i),) + parts[i])
                        yield "structure", repr((gpos, bpos, hpos, name, b, st)), m
    for nft in (0, 1, 2):
        for nb in (0, 1):
            m = Model()
            m.fts = [(El("f%d" % i), [], [], []) for i in range(nft)]
            m.basic = [(El("b"), None)] * nb
            yield "structure", "empty %d %d" % (nft, nb), m


# ------------------------------------------------------------------ round trips in one process

def roundtrip(models):
    """Yields (index, lines of the model, serialized text or None, lines read back, end)."""
    start = 0
    while start < len(models):
        d = tempfile.mkdtemp(dir=mc.scratch(), prefix="rt")
        data = []
        for text in models[start:]:
            raw = text.encode()
            data += [b"M 1 %d\n" % len(raw), raw]
        p = subprocess.Popen([exe, d], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, start_new_session=True)
        try:
            out, err = p.communicate(b"".join(data), timeout=mc.patience(300) or 1)
        except subprocess.TimeoutExpired:
            mc.hung()
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)
        one, two, text, i = [], [], None, 0
        while i < len(out):
            j = out.find(b"\n", i)
            j = len(out) if j < 0 else j
            line = out[i:j]
            i = j + 1
            if line.startswith(b"1 "):
                one.append(line[2:].decode())
            elif line.startswith(b"2 "):
                two.append(line[2:].decode())
            elif line.startswith(b"S "):
                n = int(line[2:])
                text = out[i:i + n]
                i += n + 1
            else:
                yield start, one, text, two, line.decode("utf-8", "replace")
                one, two, text = [], [], None
                start += 1
        if start < len(models):
            yield start, one, text, two, "ends with status %s: %s" % (
                p.returncode, err.decode("utf-8", "replace")[-300:])
            start += 1


def first_difference(a, b):
    return "only in the first: %s; only in the second: %s" % (
        sorted(set(a) - set(b))[:2], sorted(set(b) - set(a))[:2])


def job(batch):
    res = []
    texts = [m.xml() for _, _, m in batch]
    for i, one, text, two, end in roundtrip(texts):
        fam, what, m = batch[i]
        bad = None
        want = m.dump()
        if end != "OK":
            bad = "%s: %s" % ("not read back" if end.startswith("ERR reload") else "not serialized", end)
        elif sorted(one) != want:
            bad = "loaded differently from what is written: " + first_difference(want, one)
        elif sorted(two) != want:
            bad = "read back differently: " + first_difference(want, two)
        else:
            try:
                if not RNG.validate(etree.fromstring(text)):
                    bad = "the text is invalid: %s" % RNG.error_log.last_error
            except etree.XMLSyntaxError as e:
                bad = "the text is malformed: %s" % e
        res.append((fam, what, bad, texts[i] if bad else None, len(want)))
    return res


def all_models():
    for fam in (text_models, nested_text_models, name_models, formula_models, number_models,
                structure_models):
        yield from fam()


models = all_models()
seen = set()
for res in mc.pmap(job, mc.chunks(models, 60)):
    for fam, what, bad, text, size in res:
        ck.count("evaluations")
        ck.count("models_" + fam)
        ck.count("elements_compared", size)
        ck.distinct.add((fam, what))
        if bad:
            ck.violation("model/%s/%s" % (fam, what), "%s (%s): %s" % (fam, what[:80], bad), text)
ck.sample("label %r on every kind of element, serialized, read back" % ALPHA)

# ------------------------------------------------------------------ the command line and the results


def cli_roundtrip(text, tag):
    """Returns (what is wrong or None, status): serializes with the executable, analyses both."""
    d = tempfile.mkdtemp(dir=mc.scratch(), prefix=tag)
    src, back = os.path.join(d, "in.xml"), os.path.join(d, "back.xml")
    scram.write(src, text)
    try:
        with open(back, "wb") as f:
            p = mc.execute([cli, "--serialize", src], stdout=f, stderr=subprocess.PIPE, timeout=300)
        if p.returncode != 0:
            return None, "refused", p.stderr.decode("utf-8", "replace")[-300:]
        try:
            tree = etree.parse(back)
        except etree.XMLSyntaxError as e:
            return "the text is malformed: %s" % e, "accepted", ""
        if not RNG.validate(tree):
            return "the text is invalid: %s" % RNG.error_log.last_error, "accepted", ""
        opts = ["--bdd"] + (["--probability", "--importance", "--ccf", "--mission-time", "100"]
                            if tag != "noprob" else [])
        r1, a = scram.run_model(cli, text, opts)
        r2, b = scram.run_model(cli, open(back, encoding="utf-8").read(), opts)
        if (r1.rc == 0) != (r2.rc == 0):
            return "the analysis ends with %s, of the serialized model with %s: %s" % (
                r1.rc, r2.rc, r2.err[-200:] if r2.rc else r1.err[-200:]), "accepted", ""
        if a is None:
            return None, "accepted", "both rejected"
        for part in ("results",):
            x, y = a.find(part), b.find(part)
            if (x is None) != (y is None):
                return "only one of the reports has " + part, "accepted", ""
            if x is not None:
                for e in list(x.iter("basic-event")) + list(y.iter("basic-event")):
                    # a probability of exactly zero without the event, up to rounding
                    if e.get("RRW") and (float(e.get("RRW")) == 0 or abs(float(e.get("RRW"))) > 1e9):
                        e.set("RRW", "0")
                diff = report.differ(report.canon(x), report.canon(y))
                if diff:
                    return "the results differ: " + diff, "accepted", ""
        return None, "accepted", ""
    finally:
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)


fams = ["one3c", "house2x"] if quick else ["one3c", "one4", "house2", "two3k3"]
jobs = []
for fam in fams:
    n, cases, text = families.family(fam)
    house = (True,) if fam.startswith("house") else ()
    for c in mc.chunks(cases, 250):
        jobs.append((fam, len(c), ft.model_xml([("T%d" % i, t) for i, t in enumerate(c)],
                                               [0.1, 0.25, 0.35, 0.45][:n], house)))
for (fam, n, text), (bad, status, err) in mc.pmap(lambda j: (j, cli_roundtrip(j[2], "cl")), jobs):
    ck.count("evaluations", n)
    ck.count("trees_analysed_twice", n)
    ck.distinct.add((fam, text))
    if status == "refused":
        bad = "refused: " + err
    if bad:
        ck.violation("cli/" + fam + "/" + str(hash(text) % 1000), "%s batch: %s" % (fam, bad), text)

# Constructs beyond the serializer: refused, or kept with all their effect on the results.
FT = "<define-fault-tree name='f'>%s<define-gate name='top'><or><event name='a'/><event name='b'/></or>" \
     "</define-gate>%s</define-fault-tree>"
DATA = "<define-basic-event name='a'>%s</define-basic-event><define-basic-event name='b'><float value='0.25'/>" \
       "</define-basic-event>"
FLOAT = "<float value='0.125'/>"
OTHER = {
    "parameter": (FT % ("", ""), DATA % "<parameter name='p'/>" + "<define-parameter name='p'>%s</define-parameter>" % FLOAT),
    "unused-parameter": (FT % ("", ""), DATA % FLOAT + "<define-parameter name='p'>%s</define-parameter>" % FLOAT),
    "mission-time": (FT % ("", ""), DATA % "<exponential><float value='0.001'/><system-mission-time/></exponential>"),
    "component": (FT % ("", "<define-component name='k'><define-gate name='in'><and><event name='a'/><event name='b'/>"
                        "</and></define-gate></define-component>"), DATA % FLOAT),
    "empty-component": (FT % ("", "<define-component name='k'/>"), DATA % FLOAT),
    "private-gate": (FT % ("", "<define-gate name='p' role='private'><and><event name='a'/><event name='b'/></and>"
                           "</define-gate>"), DATA % FLOAT),
    "private-event": (FT.replace("<event name='a'/>", "<event name='a'/><event name='z'/>")
                      % ("", "<define-basic-event name='z' role='private'>%s</define-basic-event>" % FLOAT), DATA % FLOAT),
    "private-house": (FT.replace("<event name='a'/>", "<event name='a'/><event name='z'/>")
                      % ("", "<define-house-event name='z' role='private'><constant value='true'/></define-house-event>"),
                      DATA % FLOAT),
    "private-tree-members": ("<define-fault-tree name='f'><define-gate name='top'><or><event name='a'/><event name='b'/>"
                             "<event name='f2.in'/></or></define-gate></define-fault-tree><define-fault-tree name='f2'>"
                             "<define-gate name='in' role='private'><and><event name='a'/><event name='b'/></and>"
                             "</define-gate></define-fault-tree>", DATA % FLOAT),
    "ccf-group": ("<define-fault-tree name='f'><define-gate name='top'><and><event name='x'/><event name='y'/></and>"
                  "</define-gate></define-fault-tree><define-CCF-group name='c' model='beta-factor'><members>"
                  "<basic-event name='x'/><basic-event name='y'/></members><distribution>" + FLOAT +
                  "</distribution><factor level='2'><float value='0.25'/></factor></define-CCF-group>", ""),
    "event-tree": ("<define-initiating-event name='i' event-tree='t'/><define-event-tree name='t'><define-functional-event "
                   "name='fe'/><define-sequence name='s'><collect-formula><event name='a'/></collect-formula>"
                   "</define-sequence><define-sequence name='s2'/><initial-state><fork functional-event='fe'><path state='x'>"
                   "<sequence name='s'/></path><path state='y'><sequence name='s2'/></path></fork></initial-state>"
                   "</define-event-tree>" + FT % ("", ""), DATA % FLOAT),
    "initiating-event": ("<define-initiating-event name='i'/>" + FT % ("", ""), DATA % FLOAT),
    "sequence": ("<define-sequence name='s'/>" + FT % ("", ""), DATA % FLOAT),
    "rule": ("<define-rule name='r'><collect-formula><event name='a'/></collect-formula></define-rule>" + FT % ("", ""),
             DATA % FLOAT),
    "alignment": ("<define-alignment name='l'><define-phase name='p' time-fraction='0.5'/><define-phase name='q' "
                  "time-fraction='0.5'><set-house-event name='h'><constant value='true'/></set-house-event></define-phase>"
                  "</define-alignment>" + FT.replace("<event name='b'/>", "<event name='b'/><event name='h'/>") % ("", ""),
                  DATA % FLOAT + "<define-house-event name='h'><constant value='false'/></define-house-event>"),
    "substitution": ("<define-substitution name='s'><hypothesis><and><basic-event name='a'/><basic-event name='b'/></and>"
                     "</hypothesis><target><constant value='false'/></target></define-substitution>" + FT % ("", ""),
                     DATA % FLOAT),
}
for kind, body in (
        ("uniform", "<uniform-deviate><float value='0.1'/><float value='0.2'/></uniform-deviate>"),
        ("normal", "<normal-deviate><float value='0.5'/><float value='0.01'/></normal-deviate>"),
        ("lognormal", "<lognormal-deviate><float value='0.1'/><float value='2'/><float value='0.95'/></lognormal-deviate>"),
        ("histogram", "<histogram><float value='0.1'/><bin><float value='0.2'/><float value='1'/></bin></histogram>"),
        ("GLM", "<GLM><float value='0.5'/><float value='0.1'/><float value='0.2'/><float value='3'/></GLM>"),
        ("Weibull", "<Weibull><float value='10'/><float value='2'/><float value='0'/><float value='3'/></Weibull>"),
        ("periodic-test", "<periodic-test><float value='0.01'/><float value='10'/><float value='1'/><float value='25'/>"
         "</periodic-test>"),
        ("add", "<add><float value='0.1'/><float value='0.2'/></add>"),
        ("mul", "<mul><float value='0.5'/><float value='0.25'/></mul>"),
        ("pi", "<div><pi/><float value='10'/></div>"),
        ("ite", "<ite><bool value='true'/><float value='0.25'/><float value='0.5'/></ite>"),
        ("switch", "<switch><case><bool value='true'/><float value='0.25'/></case><float value='0.5'/></switch>"),
        ("nested", "<exponential><mul><float value='0.5'/><float value='0.25'/></mul><float value='2'/></exponential>")):
    OTHER["expression-" + kind] = (FT % ("", ""), DATA % body)
for (name, noprob), (bad, status, err) in mc.pmap(
        lambda j: (j, cli_roundtrip("<opsa-mef>%s<model-data>%s</model-data></opsa-mef>" % OTHER[j[0]],
                                    "noprob" if j[1] else "ex")),
        [(n, q) for n in sorted(OTHER) for q in (False, True)]):
    ck.count("evaluations")
    ck.count("other_constructs_" + status)
    ck.distinct.add(("other", name, noprob))
    if bad:
        ck.violation("other/" + name, "%s: %s" % (name, bad), OTHER[name])

ck.assumptions.append("constructs outside of the serializer are judged only by: refused with a non-zero status, or "
                      "kept with the same results; labels and values of white space only are left out")
sys.exit(ck.finish(
    rule="all texts up to 3 characters over an alphabet with every XML-special character on every kind of element; "
         "all one-level formulas over 6 arguments; all distributions over two fault trees; numbers by "
         "digit and exponent enumeration; every construct outside the serializer; loaded structure, text validity, "
         "structure read back and analysis results compared with a reference model"))
