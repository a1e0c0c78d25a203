"""Expressions of the model exchange format: XML, reference values and domains, harness runs.

An expression is ("num", v) | ("int", v) | ("bool", b) | ("pi",) | ("time",) | ("param", name) |
(op, args...) | ("switch", ((cond, value), ...), default) | ("extern", name, types, args...).  Written from the documented formulas.
"""
import math
import os
import tempfile

import mc


class Reject(Exception):
    """An argument is outside the documented domain."""


class Fraction(Reject):
    """A fractional power of a negative value."""


UNARY = ("neg", "abs", "acos", "asin", "atan", "cos", "sin", "tan", "cosh", "sinh", "tanh",
         "exp", "log", "log10", "sqrt", "ceil", "floor", "not")
BINARY = ("mod", "pow", "eq", "df", "lt", "gt", "leq", "geq")
NARY = ("add", "sub", "mul", "div", "min", "max", "mean", "and", "or")


def num(v):
    return ("num", v)


def xml(e):
    k = e[0]
    if k == "num":
        return '<float value="%r"/>' % e[1]
    if k == "int":
        return '<int value="%d"/>' % e[1]
    if k == "bool":
        return '<bool value="%s"/>' % ("true" if e[1] else "false")
    if k == "pi":
        return "<pi/>"
    if k == "time":
        return "<system-mission-time/>"
    if k == "param":
        return '<parameter name="%s"/>' % e[1]
    if k == "extern":
        return '<extern-function name="%s">%s</extern-function>' % (e[1], "".join(map(xml, e[3:])))
    if k == "switch":
        return "<switch>%s%s</switch>" % ("".join(
            "<case>%s%s</case>" % (xml(c), xml(v)) for c, v in e[1]), xml(e[2]))
    if k == "histogram":
        return "<histogram>%s%s</histogram>" % (xml(e[1]), "".join(
            "<bin>%s%s</bin>" % (xml(b), xml(w)) for b, w in e[2]))
    return "<%s>%s</%s>" % (k, "".join(xml(a) for a in e[1:]), k)


def show(e):
    k = e[0]
    if k in ("num", "int", "bool"):
        return "%r" % (e[1],)
    if k == "param":
        return e[1]
    if k == "switch":
        return "switch(%s; %s)" % (", ".join("%s: %s" % (show(c), show(v)) for c, v in e[1]),
                                   show(e[2]))
    if k == "extern":
        return "%s(%s)" % (e[1], ", ".join(map(show, e[3:])))
    if k == "histogram":
        return "histogram(%s; %s)" % (show(e[1]), ", ".join(
            "%s: %s" % (show(b), show(w)) for b, w in e[2]))
    return "%s(%s)" % (k, ", ".join(show(a) for a in e[1:]))


def p_exp(rate, t):
    return 1 - math.exp(-rate * t)


def p_two(mu, lam, t):
    """Repair (rate mu) and then failure (rate lam) both within t."""
    if lam == mu:
        return p_exp(lam, t) - lam * t * math.exp(-lam * t)
    return p_exp(mu, t) - mu * (math.exp(-mu * t) - math.exp(-lam * t)) / (lam - mu)


def need(cond):
    if not cond:
        raise Reject()


def periodic4(lam, tau, theta, t):
    need(lam > 0 and tau > 0 and theta >= 0 and t >= 0)
    if t <= theta:
        return p_exp(lam, t)
    k = math.floor((t - theta) / tau)
    rest = t - theta - k * tau
    return p_exp(lam, rest if rest else tau)


def periodic5(lam, mu, tau, theta, t):
    need(lam > 0 and tau > 0 and theta >= 0 and t >= 0 and mu >= 0)
    if t <= theta:
        return p_exp(lam, t)
    u = p_exp(lam, theta)

    def step(u, d):
        # failed components start repair at the test; available ones may fail
        return u * (1 - p_exp(mu, d) + p_two(mu, lam, d)) + (1 - u) * p_exp(lam, d)
    left = t - theta
    while left >= tau:
        u = step(u, tau)
        left -= tau
    return step(u, left)


def periodic11(lam, lamt, mu, tau, theta, gamma, dur, avail, sigma, omega, t):
    need(lam > 0 and tau > 0 and theta >= 0 and t >= 0 and mu >= 0)
    need(lamt >= 0 and dur > 0 and dur <= tau)
    need(0 <= gamma <= 1 and 0 <= sigma <= 1 and 0 <= omega <= 1)
    if t <= theta:
        return p_exp(lam, t)
    fail, rep = p_exp(lam, theta), 0.0
    ok = 1 - fail

    def refail(d):
        return p_exp(mu, d) * omega + (1 - omega) * p_two(mu, lam, d)

    def test(d, usable=True):
        nonlocal fail, rep, ok
        bad = fail + ok * (gamma + (1 - gamma) * p_exp(lamt, d))
        survives = ok * (1 - gamma) * (1 - p_exp(lamt, d))
        nfail = rep * refail(d) + (1 - sigma) * bad
        nrep = rep * (1 - p_exp(mu, d)) + sigma * bad
        nok = 1 - nfail - nrep
        if not usable:
            nok -= survives
        fail, rep, ok = nfail, nrep, nok

    def between(d):
        nonlocal fail, rep, ok
        nfail = fail + ok * p_exp(lam, d) + rep * refail(d)
        nrep = rep * (1 - p_exp(mu, d))
        fail, rep = nfail, nrep
        ok = 1 - fail - rep
    left = t - theta
    while left >= tau:
        test(dur)
        between(tau - dur)
        left -= tau
    if left <= dur:
        # out of service during the test unless declared available: an unusable component
        # contributes to the unavailability
        test(left, bool(avail))
    else:
        test(dur)
        between(left - dur)
    return 1 - ok


def value(e, T=0.0, params=None):
    """Reference value; raises Reject outside the documented domain."""
    k = e[0]
    if k in ("num", "int"):
        return float(e[1])
    if k == "bool":
        return 1.0 if e[1] else 0.0
    if k == "pi":
        return math.pi
    if k == "time":
        return float(T)
    if k == "param":
        return value(params[e[1]], T, params)
    if k == "switch":
        res = None
        for c, v in e[1]:
            cv, vv = value(c, T, params), value(v, T, params)
            if res is None and cv != 0:
                res = vv
        d = value(e[2], T, params)
        return d if res is None else res
    if k == "extern":       # e[1] the name, e[2] the types of the result and of the parameters
        if len(e) - 3 != len(e[2]) - 1:
            raise Reject()
        v, w = 0.25, 1
        for x, t in zip(e[3:], e[2][1:]):
            x = value(x, T, params)
            v += w * (math.trunc(x) if t == "i" else x)
            w *= 7
        return float(math.trunc(v)) if e[2][0] == "i" else v
    a = [value(x, T, params) for x in e[1:]]
    return apply(k, a)


def apply(k, a):
    try:
        return _apply(k, a)
    except OverflowError:
        return math.inf


def _apply(k, a):
    if k in NARY and len(a) < 2:
        raise Reject()
    if k == "neg":
        return -a[0]
    if k == "abs":
        return abs(a[0])
    if k in ("acos", "asin"):
        need(-1 <= a[0] <= 1)
        return getattr(math, k)(a[0])
    if k in ("atan", "cos", "sin", "tan", "cosh", "sinh", "tanh", "exp"):
        return getattr(math, k)(a[0])
    if k in ("log", "log10"):
        need(a[0] > 0)
        return getattr(math, k)(a[0])
    if k == "sqrt":
        need(a[0] >= 0)
        return math.sqrt(a[0])
    if k in ("ceil", "floor"):
        return float(getattr(math, k)(a[0]))
    if k == "not":
        return float(a[0] == 0)
    if k == "mod":
        need(int(a[1]) != 0)
        return float(math.fmod(int(a[0]), int(a[1])))
    if k == "pow":
        need(not (a[0] == 0 and a[1] <= 0))
        if a[0] < 0 and a[1] != int(a[1]):
            raise Fraction()
        return math.pow(a[0], a[1])
    if k == "eq":
        return float(a[0] == a[1])
    if k == "df":
        return float(a[0] != a[1])
    if k == "lt":
        return float(a[0] < a[1])
    if k == "gt":
        return float(a[0] > a[1])
    if k == "leq":
        return float(a[0] <= a[1])
    if k == "geq":
        return float(a[0] >= a[1])
    if k == "add":
        s = a[0]
        for x in a[1:]:
            s += x
        return s
    if k == "sub":
        s = a[0]
        for x in a[1:]:
            s -= x
        return s
    if k == "mul":
        s = a[0]
        for x in a[1:]:
            s *= x
        return s
    if k == "div":
        s = a[0]
        for x in a[1:]:
            need(x != 0)
            s /= x
        return s
    if k == "min":
        return min(a)
    if k == "max":
        return max(a)
    if k == "mean":
        return sum(a) / len(a)
    if k == "and":
        return float(all(x != 0 for x in a))
    if k == "or":
        return float(any(x != 0 for x in a))
    if k == "ite":
        return a[1] if a[0] != 0 else a[2]
    if k == "exponential":
        need(a[0] >= 0 and a[1] >= 0)
        return p_exp(*a)
    if k == "GLM":
        g, lam, mu, t = a
        need(lam > 0 and mu >= 0 and t >= 0 and 0 <= g <= 1)
        r = lam + mu
        return (lam - (lam - g * r) * math.exp(-r * t)) / r
    if k == "Weibull":
        al, be, t0, t = a
        need(al > 0 and be > 0 and t0 >= 0 and t >= 0)
        return 0.0 if t <= t0 else 1 - math.exp(-math.pow((t - t0) / al, be))
    if k == "periodic-test":
        if len(a) == 4:
            return periodic4(*a)
        if len(a) == 5:
            return periodic5(*a)
        if len(a) == 11:
            return periodic11(*a)
        raise Reject()
    raise ValueError(k)


def param_xml(name, e, unit=None):
    return '<define-parameter name="%s"%s>%s</define-parameter>' % (
        name, ' unit="%s"' % unit if unit else "", xml(e))


def model_xml(params, extra=""):
    """params: [(name, expression)]"""
    return ('<?xml version="1.0"?>\n<opsa-mef>%s<model-data>%s</model-data></opsa-mef>\n' % (
        extra, "\n".join(param_xml(n, e) for n, e in params)))


def dump(harness, texts, T, timeout=300):
    """Loads each model text; returns [("ok", {name: (value, lo, hi, dev)}) | ("err", text) |
    ("crash", text)]."""
    res = [None] * len(texts)
    start = 0
    while start < len(texts):
        d = tempfile.mkdtemp(dir=mc.scratch(), prefix="x")
        paths = []
        for i in range(start, len(texts)):
            p = os.path.join(d, "%d.xml" % i)
            with open(p, "w") as f:
                f.write(texts[i])
            paths.append(p)
        lst = os.path.join(d, "list")
        with open(lst, "w") as f:
            f.write("\n".join(paths) + "\n")
        r = mc.run([harness, repr(float(T)), lst], timeout=timeout)
        cur, data, done = None, None, False
        for line in r.out.splitlines():
            w = line.split(" ", 1)
            if w[0] == "F":
                cur = int(os.path.basename(w[1])[:-4])
                data = {}
            elif w[0] == "P":
                try:
                    n, v, lo, hi, dev = w[1].split(" ")
                    data[n] = (float(v), float(lo), float(hi), dev == "1")
                except (ValueError, IndexError):
                    break       # cut short by a crash
            elif w[0] == "OK":
                res[cur] = ("ok", data)
            elif w[0] == "ERR":
                res[cur] = ("err", w[1] if len(w) > 1 else "")
            elif w[0] == "END":
                done = True
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)
        if done:
            break
        bad = cur if cur is not None and res[cur] is None else start
        res[bad] = ("crash", "exit status %s: %s" % (r.rc, r.err.strip()[-300:]))
        start = bad + 1
    return res
