"""All single mutations of an XML model: every element, attribute and text in every listed way."""
import copy
import os
import re
import xml.etree.ElementTree as ET

import mc


def vocabulary():
    """Element and attribute names of the input schema, in order of appearance."""
    text = open(os.path.join(mc.REPO, "share", "input.rng")).read()
    tags = list(dict.fromkeys(re.findall(r'<element name="([^"]+)"', text)))
    attrs = list(dict.fromkeys(re.findall(r'<attribute name="([^"]+)"', text)))
    return tags, attrs


NUMBERS = ["0", "1", "-1", "0.5", "2", "1e308", "-1e308", "1e-320", "NaN", "INF", "-INF", "1e999",
           "2147483647", "2147483648", "-2147483649", "99999999999999999999", "0x10", "1,5", ""]
WORDS = ["true", "false", "public", "private", "a", "a.b", ".", "a.", ".a", "a b", "-", "a-", "é",
         "x" * 300, "&#10;", "MGL", "beta-factor", "phi-factor", "alpha-factor", "delete-terms",
         "recovery-rule", "exchange-event"]


def parents(root):
    return {c: p for p in root.iter() for c in p}


def mutations(text, rename=True, values=True, moves=True):
    """Yields (description, mutated text) for every single mutation of the document."""
    root = ET.fromstring(text)
    n = len(list(root.iter()))
    tags, attrs = vocabulary()
    names = sorted({e.get("name") for e in root.iter() if e.get("name")})

    def fresh():
        r = copy.deepcopy(root)
        return r, list(r.iter()), parents(r)

    def out(r):
        return ET.tostring(r, encoding="unicode")

    where = ["%s[%d]%s" % (e.tag, i, "" if not e.get("name") else " " + e.get("name"))
             for i, e in enumerate(root.iter())]
    els = list(root.iter())
    par = parents(root)
    for i in range(1, n):
        r, e, p = fresh()
        p[e[i]].remove(e[i])
        yield "without " + where[i], out(r)
        r, e, p = fresh()
        k = list(p[e[i]]).index(e[i])
        p[e[i]].insert(k, copy.deepcopy(e[i]))
        yield "twice " + where[i], out(r)
        if len(e[i]):
            r, e, p = fresh()
            for c in list(e[i]):
                e[i].remove(c)
            yield "emptied " + where[i], out(r)
            r, e, p = fresh()
            q = p[e[i]]
            k = list(q).index(e[i])
            q.remove(e[i])
            for c in reversed(list(e[i])):
                q.insert(k, c)
            yield "unwrapped " + where[i], out(r)
        r, e, p = fresh()
        q = p[e[i]]
        k = list(q).index(e[i])
        if k + 1 < len(q):
            a, b = q[k], q[k + 1]
            q[k], q[k + 1] = copy.deepcopy(b), copy.deepcopy(a)
            yield "swapped with the next " + where[i], out(r)
        r, e, p = fresh()
        q = p[e[i]]
        k = list(q).index(e[i])
        w = ET.Element(e[i].tag, dict(e[i].attrib))
        q[k] = w
        w.append(e[i])
        yield "wrapped in its like " + where[i], out(r)
        r, e, p = fresh()
        e[i].text = (e[i].text or "") + "text"
        yield "with text " + where[i], out(r)
        if (els[i].text or "").strip():
            for t in ("", " ", "\n", "<", "x" * 5000):
                r, e, p = fresh()
                e[i].text = t
                yield "%s with the text %r" % (where[i], t[:20]), out(r)
    if moves:
        for i in range(1, n):
            for j in range(1, n):
                if i == j or els[i].tag == els[j].tag and els[i].attrib == els[j].attrib and not len(els[i]):
                    continue
                anc, x = False, els[j]
                while x in par:
                    x = par[x]
                    anc |= x is els[i]
                r, e, p = fresh()
                q = p[e[i]]
                q[list(q).index(e[i])] = copy.deepcopy(e[j])
                yield "%s replaced by %s" % (where[i], where[j]), out(r)
    if rename:
        for i in range(n):
            for t in tags + ["unknown"]:
                if t == els[i].tag:
                    continue
                r, e, p = fresh()
                e[i].tag = t
                yield "%s renamed to %s" % (where[i], t), out(r)
    for i in range(n):
        for a in els[i].attrib:
            r, e, p = fresh()
            del e[i].attrib[a]
            yield "%s without %s" % (where[i], a), out(r)
            if values:
                for v in NUMBERS + WORDS + names:
                    if v != els[i].get(a):
                        r, e, p = fresh()
                        e[i].set(a, "\n" if v == "&#10;" else v)
                        yield "%s with %s=%r" % (where[i], a, v[:20]), out(r)
        for a in attrs:
            if a not in els[i].attrib:
                r, e, p = fresh()
                e[i].set(a, "1")
                yield "%s with a new %s" % (where[i], a), out(r)


def bytes_of(text, values=b"\x00\x09 <>&\"'/=-.0Zz\x80\xff"):
    """Every truncation, every removal of one byte and every replacement by the listed bytes."""
    raw = text.encode()
    for i in range(len(raw)):
        yield "cut at byte %d" % i, raw[:i]
        yield "without byte %d" % i, raw[:i] + raw[i + 1:]
        for v in values:
            if raw[i] != v:
                yield "byte %d is 0x%02x" % (i, v), raw[:i] + bytes([v]) + raw[i + 1:]
