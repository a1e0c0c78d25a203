"""Order-insensitive comparison of analysis reports."""
import mc


def num(x):
    try:
        return float(x)
    except (TypeError, ValueError):
        return None


def ident(e):
    """What an element is about: its tag, its non-numeric attributes and, for products and other
    lists of literals, its contents."""
    names = tuple(sorted((k, v) for k, v in e.attrib.items() if num(v) is None))
    lits = ()
    if e.tag in ("product", "not", "ccf-event", "basic-events"):
        lits = tuple(sorted(repr(ident(c)) for c in e))
    return (e.tag, names, lits)


def canon(e):
    """(numeric attributes, text, {identity: [children in order]})"""
    kids = {}
    for c in e:
        kids.setdefault(ident(c), []).append(canon(c))
    return ({k: num(v) for k, v in e.attrib.items() if num(v) is not None},
            num(e.text) if num(e.text) is not None else (e.text or "").strip(), kids)


def differ(a, b, where=""):
    """First difference between two canonical forms, or None."""
    na, ta, ka = a
    nb, tb, kb = b
    if set(na) != set(nb):
        return "%s: attributes %s and %s" % (where, sorted(na), sorted(nb))
    for k in na:
        if not (mc.close(na[k], nb[k], rel=2e-5, abs_=1e-12) or (na[k] != na[k] and nb[k] != nb[k])):
            return "%s@%s: %r and %r" % (where, k, na[k], nb[k])
    if isinstance(ta, float) and isinstance(tb, float):
        if not mc.close(ta, tb):
            return "%s: %r and %r" % (where, ta, tb)
    elif ta != tb:
        return "%s: %r and %r" % (where, ta, tb)
    for k in sorted(set(ka) | set(kb), key=repr):
        x, y = ka.get(k, ()), kb.get(k, ())
        here = "%s/%s%s" % (where, k[0], list(k[1]) + list(k[2]) or "")
        if len(x) != len(y):
            return "%s: %d and %d times" % (here, len(x), len(y))
        for p, q in zip(x, y):
            d = differ(p, q, here)
            if d:
                return d
    return None
