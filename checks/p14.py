#!/usr/bin/env python3
"""P14: cyclic definitions, by exhaustive enumeration of reference graphs."""
import os
import sys
from itertools import combinations, permutations, product
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import build
import common
import loader
import mc
import scram

quick = common.tier() != "thorough"
ck = mc.Check("P14", "exploration", common.tier())
exe = build.build_cli()
ldr = build.build_harness("loader")

# A graph is a tuple of successor tuples; node i is named n0, n1, ...


def graphs(n):
    rows = [tuple(j for j in range(n) if m >> j & 1) for m in range(1 << n)]
    yield from product(rows, repeat=n)


def topo(g):
    """A topological order (sources first) or None for a cyclic graph."""
    n, indeg = len(g), [0] * len(g)
    for row in g:
        for j in row:
            indeg[j] += 1
    out, todo = [], [i for i in range(n) if not indeg[i]]
    while todo:
        i = todo.pop()
        out.append(i)
        for j in g[i]:
            indeg[j] -= 1
            if not indeg[j]:
                todo.append(j)
    return out if len(out) == n else None


def is_cycle(text, g, names):
    """Is 'a->b->a' a cycle of the graph?"""
    seq = [names.get(x) for x in text.split("->")]
    return (len(seq) > 1 and None not in seq and seq[0] == seq[-1] and
            len(set(seq)) == len(seq) - 1 and all(b in g[a] for a, b in zip(seq, seq[1:])))


def plain(n):
    return {"n%d" % i: i for i in range(n)}


# ------------------------------------------------------------------ renderers: (graph) -> (text, names)

def gates(style):
    def render(g):
        out = []
        for i, row in enumerate(g):
            refs = ["<gate name='n%d'/>" % j if style != "event" else "<event name='n%d'/>" % j
                    for j in row]
            if style == "not":
                refs = ["<not>%s</not>" % r for r in refs]
            if style == "rev":
                refs = refs[::-1]
            leaf = ["<basic-event name='x'/>", "<house-event name='h'/>"]
            if style == "alone" and len(refs) == 1:
                body = refs[0]
            elif style == "last":
                body = "<and>%s</and>" % "".join(leaf + refs)
            elif style == "vote":
                body = "<atleast min='2'>%s</atleast>" % "".join(refs + leaf + ["<basic-event name='y'/>"])
            elif style == "other" and len(refs) == 1:
                body = ("<xor>%s</xor>", "<imply>%s</imply>", "<iff>%s</iff>",
                        "<nand>%s</nand>")[i % 4] % (refs[0] + leaf[0])
            else:
                body = "<or>%s</or>" % "".join(refs + leaf)
            out.append("<define-gate name='n%d'>%s</define-gate>" % (i, body))
        return ("<opsa-mef><define-fault-tree name='ft'>%s</define-fault-tree><model-data>"
                "<define-basic-event name='x'/><define-basic-event name='y'/><define-house-event "
                "name='h'/></model-data></opsa-mef>" % "".join(out)), plain(len(g))
    return render


def paths(g):
    """Private gates of the same name in nested containers, referred to by their full paths."""
    where = ["ft", "ft.c", "ft.c.d", "gt"]
    body = []
    for i, row in enumerate(g):
        refs = "".join("<gate name='%s.n'/>" % where[j] for j in row)
        body.append("<define-gate name='n' role='private'><or>%s<basic-event name='x'/>"
                    "<basic-event name='y'/></or></define-gate>" % refs)
    body += [""] * (4 - len(body))
    return ("<opsa-mef><define-fault-tree name='ft'>%s<define-component name='c'>%s<define-component "
            "name='d'>%s</define-component></define-component></define-fault-tree><define-fault-tree "
            "name='gt'>%s</define-fault-tree><model-data><define-basic-event name='x'/>"
            "<define-basic-event name='y'/></model-data></opsa-mef>" % (
                body[0], body[1], body[2] or "<define-house-event name='z'/>",
                body[3] or "<define-house-event name='z2'/>")), \
        {where[i] + ".n": i for i in range(len(g))}


def parameters(style):
    def render(g):
        out = []
        for i, row in enumerate(g):
            refs = ["<parameter name='n%d'/>" % j for j in row]
            one = "<float value='1'/>"
            if style == "nest":
                e = one
                for r in refs:
                    e = "<ite><gt>%s%s</gt>%s<neg>%s</neg></ite>" % (one, r, e, one)
            elif style == "rev":
                e = "<mul>%s</mul>" % "".join([one, one] + refs[::-1])
            elif style == "alone" and len(refs) == 1:
                e = refs[0]
            else:
                e = "<add>%s</add>" % "".join(refs + [one, one])
            out.append("<define-parameter name='n%d'>%s</define-parameter>" % (i, e))
        return "<opsa-mef><model-data>%s</model-data></opsa-mef>" % "".join(out), plain(len(g))
    return render


def nest_instr(style, ins, k):
    """One instruction, wrapped."""
    noop = "<set-house-event name='h'><constant value='true'/></set-house-event>"
    cond = "<test-initiating-event name='I'/>"
    if style == "block":
        return "<block>%s%s</block>" % (noop, ins)
    if style == "then":
        return "<if>%s%s</if>" % (cond, ins)
    if style == "else":
        return "<if>%s%s%s</if>" % (cond, noop, ins)
    if style == "deep":
        return ("<block><if>%s<block>%s</block></if></block>" % (cond, ins), "<if>%s<block/><block>"
                "<block>%s</block></block></if>" % (cond, ins))[k % 2]
    if style == "last":
        return noop + ins
    return ins


NOOP = "<set-house-event name='h'><constant value='true'/></set-house-event>"
HOUSE = "<model-data><define-house-event name='h'/></model-data>"


def rules(style):
    def render(g):
        out = []
        for i, row in enumerate(g):
            ins = "".join(nest_instr(style, "<rule name='n%d'/>" % j, i + j)
                          for j in (row[::-1] if style == "last" else row))
            out.append("<define-rule name='n%d'>%s</define-rule>" % (i, ins or NOOP))
        return "<opsa-mef>%s%s</opsa-mef>" % ("".join(out), HOUSE), plain(len(g))
    return render


def branches(style):
    def render(g):
        n = len(g)
        order = topo(g) or list(range(n))
        out = []
        for i, row in enumerate(g):
            to = ["<branch name='n%d'/>" % j for j in row]
            if style == "rev":
                to = to[::-1]
            if style == "alone" and len(to) == 1:
                body = to[0]
            else:
                body = "<fork functional-event='f%d'>%s</fork>" % (i, "".join(
                    "<path state='s%d'>%s</path>" % (k, t)
                    for k, t in enumerate(to + ["<sequence name='S'/>"])))
            if style == "under":
                body = NOOP + "<fork functional-event='g%d'><path state='a'>%s</path><path state='b'>" \
                    "<sequence name='S'/></path></fork>" % (i, body)
            out.append("<define-branch name='n%d'>%s</define-branch>" % (i, body))
        return ("<opsa-mef><define-event-tree name='T'>%s<define-sequence name='S'/>%s<initial-state>"
                "%s</initial-state></define-event-tree>%s</opsa-mef>" % (
                    "".join("<define-functional-event name='g%d'/><define-functional-event name='f%d'/>"
                            % (i, i) for i in order), "".join(out),
                    "<branch name='n0'/>" if style == "used" else "<sequence name='S'/>", HOUSE)), \
            plain(n)
    return render


def links(style):
    """Trees link in their sequences: one sequence per link, or all links in one sequence."""
    def render(g):
        out, rule = [], []
        for i, row in enumerate(g):
            seqs = ["<define-sequence name='q%dz'/>" % i]
            path = ["<sequence name='q%dz'/>" % i]
            ins = []
            for j in row:
                link = "<event-tree name='n%d'/>" % j
                if style == "rule":
                    rule.append("<define-rule name='r%d_%d'>%s</define-rule>" % (i, j, link))
                    link = "<rule name='r%d_%d'/>" % (i, j)
                else:
                    link = nest_instr(style, link, i + j)
                ins.append(link)
            if style == "one":
                ins = ["".join(ins)]
            for k, x in enumerate(ins):
                seqs.append("<define-sequence name='q%d_%d'>%s</define-sequence>" % (i, k, x))
                path.append("<sequence name='q%d_%d'/>" % (i, k))
            if style == "branch":
                seqs.append("<define-branch name='B'>%s</define-branch>" % path[-1])
                path[-1] = "<branch name='B'/>"
            if style == "last":
                path.reverse()
            out.append("<define-event-tree name='n%d'><define-functional-event name='f'/>%s"
                       "<initial-state><fork functional-event='f'>%s</fork></initial-state>"
                       "</define-event-tree>" % (i, "".join(seqs), "".join(
                           "<path state='s%d'>%s</path>" % kx for kx in enumerate(path))))
        return "<opsa-mef>%s%s%s</opsa-mef>" % ("".join(out), "".join(rule), HOUSE), plain(len(g))
    return render


def idle_links(g):
    """Links in sequences that no path reaches: never a cycle."""
    out = []
    for i, row in enumerate(g):
        out.append("<define-event-tree name='n%d'>%s<define-sequence name='z%d'/><initial-state>"
                   "<sequence name='z%d'/></initial-state></define-event-tree>" % (
                       i, "".join("<define-sequence name='q%d_%d'><event-tree name='n%d'/>"
                                  "</define-sequence>" % (i, j, j) for j in row), i, i))
    return "<opsa-mef>%s</opsa-mef>" % "".join(out), plain(len(g))


KINDS = {
    "gate": [(s, gates(s)) for s in ("first", "last", "not", "rev", "alone", "vote", "other", "event")]
    + [("paths", paths)],
    "parameter": [(s, parameters(s)) for s in ("add", "nest", "rev", "alone")],
    "rule": [(s, rules(s)) for s in ("plain", "block", "then", "else", "deep", "last")],
    "branch": [(s, branches(s)) for s in ("fork", "rev", "alone", "under", "used")],
    "link": [(s, links(s)) for s in ("plain", "one", "block", "then", "else", "deep", "last", "rule",
                                     "branch")],
}
MAIN = {"first", "paths", "nest", "plain", "fork"}


def judge(g, names, acyclic, verdict):
    if isinstance(verdict, str):
        return verdict
    if acyclic:
        return None if verdict is None else "is acyclic but rejected: %s" % " ".join(verdict)
    if verdict is None:
        return "is cyclic but accepted"
    kind, cycle, what = verdict
    if "CycleError" not in kind:
        return "is cyclic but rejected for another reason: %s" % " ".join(verdict)
    return None if is_cycle(cycle, g, names) else "is reported with the cycle '%s' it does not have" % cycle


def explore(what, space):
    """space: [(label, graph, text, names, acyclic)]"""
    def job(chunk):
        bad, c = [], 0
        for i, verdict, _ in loader.load(ldr, [[x[2]] for x in chunk]):
            label, g, text, names, acyclic = chunk[i]
            c += not acyclic
            w = judge(g, names, acyclic, verdict)
            if w:
                bad.append((label, w, text))
        return len(chunk), c, bad

    n = c = 0
    for k, cyc, bad in mc.pmap(job, mc.chunks(space, 400)):
        n, c = n + k, c + cyc
        for label, w, text in bad:
            ck.violation(label, label + " " + w, {"model": text})
    ck.count("evaluations", n)
    ck.count("cyclic", c)
    ck.count("distinct_nontrivial", n)
    ck.cov.setdefault("spaces", []).append({"what": what, "models": n, "cyclic": c})


def all_graphs(kind, style, render, n):
    for g in graphs(n):
        text, names = render(g)
        yield "%s/%s/%s" % (kind, style, ";".join(",".join(map(str, r)) for r in g)), g, text, names, \
            topo(g) is not None


for kind, styles in KINDS.items():
    for style, render in styles:
        for n in (1, 2, 3):
            explore("%s %s, %d nodes" % (kind, style, n), all_graphs(kind, style, render, n))
        if style in MAIN or not quick:
            if quick and kind in ("branch", "link") and style != "plain":
                continue
            explore("%s %s, 4 nodes" % (kind, style), all_graphs(kind, style, render, 4))
explore("links in unreached sequences", (x[:4] + (True,) for n in (1, 2, 3)
                                         for x in all_graphs("link", "idle", idle_links, n)))
ck.sample(next(iter(all_graphs("link", "plain", links("plain"), 3)))[2])


# ------------------------------------------------------------------ every argument of every expression

def F(x):
    return "<float value='%g'/>" % x


EXPR = {
    "neg": [1], "abs": [1], "acos": [0.5], "asin": [0.5], "atan": [1], "cos": [1], "sin": [1],
    "tan": [1], "cosh": [1], "sinh": [1], "tanh": [1], "exp": [1], "log": [1], "log10": [1],
    "sqrt": [1], "ceil": [1], "floor": [1], "not": [1], "add": [1, 2, 3], "sub": [1, 2, 3],
    "mul": [1, 2, 3], "div": [1, 2, 3], "mod": [5, 3], "pow": [2, 3], "min": [1, 2, 3],
    "max": [1, 2, 3], "mean": [1, 2, 3], "and": [1, 0, 1], "or": [0, 1, 0], "eq": [1, 2],
    "df": [1, 2], "lt": [1, 2], "gt": [1, 2], "leq": [1, 2], "geq": [1, 2], "ite": [1, 2, 3],
    "exponential": [0.01, 10], "GLM": [0.5, 0.1, 0.2, 10], "Weibull": [2, 3, 0.5, 10],
    "uniform-deviate": [0.1, 0.2], "normal-deviate": [1, 2], "lognormal-deviate": [0.5, 3, 0.95],
    "gamma-deviate": [1, 2], "beta-deviate": [1, 2],
}
VARIANTS = [(k, "<%s>%%s</%s>" % (k, k), [F(x) for x in v]) for k, v in EXPR.items()]
VARIANTS += [("lognormal2", "<lognormal-deviate>%s</lognormal-deviate>", [F(1), F(2)])]
VARIANTS += [("periodic%d" % len(v), "<periodic-test>%s</periodic-test>", [F(x) for x in v]) for v in (
    [0.001, 100, 10, 50], [0.001, 0.01, 100, 10, 50],
    [0.001, 0.001, 0.01, 100, 10, 0.1, 5, 0.5, 0.1, 0.1, 50])]


def expressions():
    for name, shell, args in VARIANTS:
        for k in range(len(args)):
            yield "%s/%d" % (name, k), lambda ref, s=shell, a=args, k=k: s % "".join(
                a[:k] + [ref] + a[k + 1:]), args[k]
    for k in range(5):
        vals = [F(1), F(2), F(1), F(3), F(4)]
        yield "switch/%d" % k, lambda ref, v=vals, k=k: \
            "<switch><case>%s%s</case><case>%s%s</case>%s</switch>" % tuple(
                v[:k] + [ref] + v[k + 1:]), vals[k]
    for k in range(5):
        vals = [F(0), F(1), F(2), F(3), F(4)]
        yield "histogram/%d" % k, lambda ref, v=vals, k=k: \
            "<histogram>%s<bin>%s%s</bin><bin>%s%s</bin></histogram>" % tuple(
                v[:k] + [ref] + v[k + 1:]), vals[k]


def expr_space():
    for name, put, value in expressions():
        for n in (1, 2, 3):
            for cyclic in (True, False):
                row = lambda i: ((i + 1) % n,) if cyclic or i + 1 < n else ()
                g = tuple(row(i) for i in range(n))
                for where in range(n):        # the expression stands in one link of the chain
                    out = []
                    for i in range(n):
                        ref = "<parameter name='n%d'/>" % g[i][0] if g[i] else value
                        out.append("<define-parameter name='n%d'>%s</define-parameter>" % (
                            i, put(ref) if i == where else ref))
                    if not cyclic and where:
                        continue              # an inner value may leave the domain of an outer one
                    yield "expression/%s/%d-%d%s" % (name, n, where, "" if cyclic else "-open"), g, \
                        "<opsa-mef><model-data>%s</model-data></opsa-mef>" % "".join(out), \
                        plain(n), not cyclic
                    wrapped = ["<define-parameter name='n%d'>%s</define-parameter>" % (
                        i, "<add>%s%s</add>" % (F(1), put("<mul>%s%s</mul>" % (
                            F(1), "<parameter name='n%d'/>" % g[i][0] if g[i] else value)))
                        if i == where else "<parameter name='n%d'/>" % g[i][0] if g[i] else value)
                        for i in range(n)]
                    yield "expression/%s/nested%d-%d%s" % (name, n, where, "" if cyclic else "-open"), \
                        g, "<opsa-mef><model-data>%s</model-data></opsa-mef>" % "".join(wrapped), \
                        plain(n), not cyclic


explore("a cycle through each argument of each expression", expr_space())


# ------------------------------------------------------------------ sharing and long chains

def shapes():
    """Ladders (every node refers twice to the next level), chains and long cycles."""
    for kind, styles in KINDS.items():
        tree = kind in ("branch", "link")
        for style, render in styles:
            if style == "paths":
                continue
            for n in (8,) if tree else (8, 60):
                lad = [(2 * (i // 2) + 2, 2 * (i // 2) + 3) if i + 2 < 2 * n else () for i in range(2 * n)]
                yield "%s/%s/ladder%d" % (kind, style, n), tuple(lad), render
                back = list(lad)
                back[-1] = (0,)
                yield "%s/%s/ladder%d-closed" % (kind, style, n), tuple(back), render
            for n in (20, 200):
                chain = [(i + 1,) if i + 1 < n else () for i in range(n)]
                yield "%s/%s/chain%d" % (kind, style, n), tuple(chain), render
                for to in (0, n // 2, n - 1):
                    yield "%s/%s/chain%d-%d" % (kind, style, n, to), \
                        tuple(chain[:-1] + [(to,)]), render
                rev = [(i - 1,) if i else () for i in range(n)]
                yield "%s/%s/reverse%d" % (kind, style, n), tuple(rev), render
            for n in range(1, 7):
                for to in range(n):           # lassos entered from every position
                    lasso = [(i + 1,) for i in range(n)]
                    lasso[-1] = (to,)
                    for off in range(n):
                        perm = [(i + off) % n for i in range(n)]
                        g = [()] * n
                        for i, r in enumerate(lasso):
                            g[perm[i]] = tuple(perm[j] for j in r)
                        yield "%s/%s/lasso%d-%d-%d" % (kind, style, n, to, off), tuple(g), render


def shape_space():
    for label, g, render in shapes():
        text, names = render(g)
        yield label, g, text, names, topo(g) is not None


explore("ladders, chains, lassos", shape_space())


# ------------------------------------------------------------------ the same through the executable

def cli_space():
    for kind, styles in KINDS.items():
        for n in (1, 2) if quick else (1, 2, 3):
            for x in all_graphs(kind, styles[0][0], styles[0][1], n):
                yield x
        if quick:
            for k, x in enumerate(all_graphs(kind, styles[-1][0], styles[-1][1], 3)):
                if sum(map(len, x[1])) <= 3:
                    yield x


def cli_job(x):
    label, g, text, names, acyclic = x
    r, _ = scram.run_model(exe, text, ["--validate"], "cy")
    if acyclic:
        return None if r.rc == 0 else (label, "is acyclic but rejected: %s" % r.err[-300:], text)
    line = [s[len("Cycle: "):] for s in r.err.splitlines() if s.startswith("Cycle: ")]
    if r.rc != 1 or "CycleError" not in r.err or len(line) != 1:
        return label, "is cyclic: exit status %s, error %s" % (r.rc, r.err[-300:]), text
    return None if is_cycle(line[0], g, names) else (
        label, "is reported with the cycle '%s' it does not have" % line[0], text)


n = 0
for bad in mc.pmap(cli_job, cli_space()):
    n += 1
    if bad:
        ck.violation("cli/" + bad[0], bad[0] + " " + bad[1], {"model": bad[2]})
ck.count("evaluations", n)
ck.count("executable_runs", n)
sys.exit(ck.finish(
    rule="every labelled reference graph (self-loops included) of up to four nodes of each kind of "
         "definition in each style of reference; labels cover the orders of definition"))
