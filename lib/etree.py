"""Reference semantics and rendering of event trees (Open-PSA event-tree layer).

Instructions:  ("cf", formula)  ("ce", expression)  ("set", house, bool)
               ("if", cond, I, J or None)  ("block", (I...))  ("rule", (I...))  ("link", tree)
Branches:      (instructions, target);  target: ("seq", name) | ("br", name)
               | ("fork", event, ((state, branch), ...))
Trees:         dict(fe=[names], seqs={name: instructions}, brs={name: branch}, init=branch)
Conditions:    ("ie", name) ("fe", event, state) ("num", x) ("not", c) ("and", c, d) ("or", c, d)
Expressions:   ("num", x) ("ite", cond, e, f) ("mul", e, f) ("sub1", e)
"""
import itertools

EVENTS = {"a": 0.1, "b": 0.25, "c": 0.35}
HOUSES = {"h1": False, "h2": True}

# name -> (XML of a formula, function of (basic events, house events))
GATES = {
    "GH": ("<or><gate name='GI'/><event name='b'/></or>",
           lambda e, h: (h["h1"] and e["a"]) or e["b"]),
    "GI": ("<and><event name='h1'/><event name='a'/></and>",
           lambda e, h: h["h1"] and e["a"]),
    "GN": ("<and><gate name='GH'/><not><event name='h2'/></not></and>",
           lambda e, h: ((h["h1"] and e["a"]) or e["b"]) and not h["h2"]),
}
FORMULAS = {
    "a": ("<event name='a'/>", lambda e, h: e["a"]),
    "c": ("<basic-event name='c'/>", lambda e, h: e["c"]),
    "nb": ("<not><event name='b'/></not>", lambda e, h: not e["b"]),
    "h1": ("<event name='h1'/>", lambda e, h: h["h1"]),
    "nh2": ("<not><house-event name='h2'/></not>", lambda e, h: not h["h2"]),
    "GH": ("<gate name='GH'/>", GATES["GH"][1]),
    "GN": ("<event name='GN'/>", GATES["GN"][1]),
    "mix": ("<or><event name='c'/><not><event name='h2'/></not><gate name='GI'/></or>",
            lambda e, h: e["c"] or not h["h2"] or (h["h1"] and e["a"])),
    "vote": ("<atleast min='2'><event name='a'/><gate name='GH'/><event name='c'/></atleast>",
             lambda e, h: e["a"] + GATES["GH"][1](e, h) + e["c"] >= 2),
    "xor": ("<xor><event name='c'/><not><gate name='GN'/></not></xor>",
            lambda e, h: e["c"] != (not GATES["GN"][1](e, h))),
    "true": ("<constant value='true'/>", lambda e, h: True),
    "false": ("<constant value='false'/>", lambda e, h: False),
}
ORDER = sorted(EVENTS)
WORLDS = [(dict(zip(ORDER, v)),) for v in itertools.product((False, True), repeat=len(ORDER))]


def weight(w):
    p = 1.0
    for n, x in w.items():
        p *= EVENTS[n] if x else 1 - EVENTS[n]
    return p


# ---------------------------------------------------------------- semantics

def cond(c, ie, fes):
    k = c[0]
    if k == "num":
        return c[1] != 0
    if k == "ie":
        return c[1] == ie
    if k == "fe":
        return fes.get(c[1]) == c[2]
    if k == "not":
        return not cond(c[1], ie, fes)
    if k == "and":
        return cond(c[1], ie, fes) and cond(c[2], ie, fes)
    if k == "or":
        return cond(c[1], ie, fes) or cond(c[2], ie, fes)
    raise ValueError(c)


def expr(e, ie, fes):
    k = e[0]
    if k == "num":
        return e[1]
    if k == "ite":
        return expr(e[2] if cond(e[1], ie, fes) else e[3], ie, fes)
    if k == "mul":
        return expr(e[1], ie, fes) * expr(e[2], ie, fes)
    if k == "sub1":
        return 1 - expr(e[1], ie, fes)
    raise ValueError(e)


class Path:
    def __init__(self, other=None):
        self.formulas = list(other.formulas) if other else []   # functions of a world
        self.exprs = list(other.exprs) if other else []
        self.houses = dict(other.houses) if other else dict(HOUSES)


def walk(trees, name, ie):
    """{sequence: [Path]} of the event tree `name` under the initiating event `ie`."""
    res = {}

    def execute(instrs, path, fes):
        """Returns True if a link was followed."""
        linked = False
        for i in instrs:
            k = i[0]
            if k == "cf":
                f, h = FORMULAS[i[1]][1], dict(path.houses)
                path.formulas.append(lambda e, f=f, h=h: bool(f(e, h)))
            elif k == "ce":
                path.exprs.append(expr(i[1], ie, fes))
            elif k == "set":
                path.houses[i[1]] = i[2]
            elif k == "if":
                j = i[2] if cond(i[1], ie, fes) else i[3]
                if j is not None:
                    linked |= execute((j,), path, fes)
            elif k in ("block", "rule"):
                linked |= execute(i[1], path, fes)
            elif k == "link":
                branch(i[1], trees[i[1]]["init"], Path(path), {})
                linked = True
            else:
                raise ValueError(i)
        return linked

    def branch(tree, br, path, fes):
        instrs, target = br
        execute(instrs, path, fes)
        if target[0] == "fork":
            for state, b in target[2]:
                branch(tree, b, Path(path), dict(fes, **{target[1]: state}))
        elif target[0] == "br":
            branch(tree, trees[tree]["brs"][target[1]], path, fes)
        else:
            seq = target[1]
            instrs = next(t["seqs"][seq] for t in trees.values() if seq in t["seqs"])
            if not execute(instrs, path, fes):
                res.setdefault(seq, []).append(path)

    branch(name, trees[name]["init"], Path(), {})
    return res


def value(paths):
    """(probability, is it made of expressions only)"""
    if any(p.exprs for p in paths):
        t = 0.0
        for p in paths:
            x = 1.0
            for e in p.exprs:
                x *= e
            t += x
        return min(t, 1.0), True
    t = 0.0
    for (w,) in WORLDS:
        if any(all(f(w) for f in p.formulas) for p in paths):
            t += weight(w)
    return t, False


# ---------------------------------------------------------------- rendering

class Renderer:
    """Renders cases (each: its own trees and initiating events) into one model."""

    def __init__(self):
        self.rules = {}
        self.out = []

    def cond(self, c, x):
        k = c[0]
        if k == "num":
            return "<float value='%r'/>" % float(c[1])
        if k == "ie":
            return "<test-initiating-event name='%s%s'/>" % (c[1], x)
        if k == "fe":
            return "<test-functional-event name='%s' state='%s'/>" % (c[1], c[2])
        return "<%s>%s</%s>" % (k, "".join(self.cond(y, x) for y in c[1:]), k)

    def expr(self, e, x):
        k = e[0]
        if k == "num":
            return "<float value='%r'/>" % float(e[1])
        if k == "ite":
            return "<ite>%s%s%s</ite>" % (self.cond(e[1], x), self.expr(e[2], x),
                                          self.expr(e[3], x))
        if k == "mul":
            return "<mul>%s%s</mul>" % (self.expr(e[1], x), self.expr(e[2], x))
        return "<sub><float value='1'/>%s</sub>" % self.expr(e[1], x)

    def instr(self, i, x):
        k = i[0]
        if k == "cf":
            return "<collect-formula>%s</collect-formula>" % FORMULAS[i[1]][0]
        if k == "ce":
            return "<collect-expression>%s</collect-expression>" % self.expr(i[1], x)
        if k == "set":
            return "<set-house-event name='%s'><constant value='%s'/></set-house-event>" % (
                i[1], str(i[2]).lower())
        if k == "if":
            return "<if>%s%s%s</if>" % (self.cond(i[1], x), self.instr(i[2], x),
                                        self.instr(i[3], x) if i[3] is not None else "")
        if k == "block":
            return "<block>%s</block>" % self.instrs(i[1], x)
        if k == "rule":
            body = self.instrs(i[1], x)
            if body not in self.rules:
                self.rules[body] = "R%d" % len(self.rules)
            return "<rule name='%s'/>" % self.rules[body]
        return "<event-tree name='%s%s'/>" % (i[1], x)

    def instrs(self, instrs, x):
        return "".join(self.instr(i, x) for i in instrs)

    def branch(self, br, x):
        instrs, t = br
        s = self.instrs(instrs, x)
        if t[0] == "seq":
            return s + "<sequence name='%s%s'/>" % (t[1], x)
        if t[0] == "br":
            return s + "<branch name='%s'/>" % t[1]
        return s + "<fork functional-event='%s'>%s</fork>" % (t[1], "".join(
            "<path state='%s'>%s</path>" % (st, self.branch(b, x)) for st, b in t[2]))

    def add(self, x, trees, inits):
        """x: suffix of the case; inits: [(initiating event, tree)]"""
        for n, t in trees.items():
            s = "".join("<define-functional-event name='%s'/>" % f for f in t["fe"])
            for q, ins in t["seqs"].items():
                s += "<define-sequence name='%s%s'>%s</define-sequence>" % (
                    q, x, self.instrs(ins, x))
            for b, br in t["brs"].items():
                s += "<define-branch name='%s'>%s</define-branch>" % (b, self.branch(br, x))
            self.out.append("<define-event-tree name='%s%s'>%s<initial-state>%s</initial-state>"
                            "</define-event-tree>" % (n, x, s, self.branch(t["init"], x)))
        for ie, n in inits:
            self.out.append("<define-initiating-event name='%s%s' event-tree='%s%s'/>" % (
                ie, x, n, x))

    def model(self, extra=""):
        rules = "".join("<define-rule name='%s'>%s</define-rule>" % (n, b)
                        for b, n in self.rules.items())
        gates = "".join("<define-gate name='%s'>%s</define-gate>" % (n, x)
                        for n, (x, _) in GATES.items())
        data = "".join("<define-basic-event name='%s'><float value='%r'/></define-basic-event>"
                       % kv for kv in EVENTS.items())
        data += "".join("<define-house-event name='%s'><constant value='%s'/></define-house-event>"
                        % (n, str(v).lower()) for n, v in HOUSES.items())
        return ("<opsa-mef>%s%s<define-fault-tree name='ft'>%s</define-fault-tree>"
                "<model-data>%s</model-data>%s</opsa-mef>") % (
                    "".join(self.out), rules, gates, data, extra)
