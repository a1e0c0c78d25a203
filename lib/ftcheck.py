"""Exhaustive exploration of fault-tree families against an oracle, through the executable."""
import ft
import mc
import scram
from families import family

PS = (0.1, 0.25, 0.35, 0.45, 0.6, 0.7, 0.82)
STOP = 40          # enough counterexamples; the rest of the space is skipped
CHUNK = 500


def explore(ck, exe, fam, args, judge, probs=None, keep=None, label=None, house=()):
    """Runs every tree of family `fam` with the command line `args`; judge(n, tree, tt,
    section) -> list of (kind, text) where section(tag) is the tree's element of the report.
    probs: probabilities of the events (None: model without data).  Returns trees explored."""
    n, it, text = family(fam)
    label = label or " ".join(args)
    ps = list(probs[:n]) if probs else [None] * n
    if keep:
        it = (t for t in it if keep(n, t))
    if len(ck.violations) > STOP:
        return 0

    def render(cs):
        return ft.model_xml([("t%d_" % i, t) for i, t in cs], ps, house)

    def job(ch):
        out = []
        distinct = set()
        bad = []

        def on_bad(c, r):
            bad.append((c, r))

        done = 0
        for cs, root in scram.run_trees(exe, ch, args, render, on_bad, stop=lambda: len(bad) > 4):
            secs = {}
            for i, t in cs:
                name = "t%d_g0" % i

                def section(tag):
                    if tag not in secs:
                        secs[tag] = scram.results(root, tag)
                    return secs[tag].get(name)
                tt = ft.tree_tt(t, n, house)
                distinct.add(tt)
                done += 1
                for kind, txt in judge(n, t, tt, section):
                    out.append((kind, t, txt))
        for c, r in bad:
            out.append(("abort", c[1], "exit status %s: %s" % (r.rc, r.err.strip()[-300:])))
        return done, distinct, out[:STOP]

    total = 0
    dist = set()
    gen = mc.pmap(job, mc.chunks(enumerate(it), CHUNK))
    for done, distinct, out in gen:
        total += done
        dist |= distinct
        for kind, t, txt in out:
            s = ft.show(t, house)
            ck.violation("%s/%s/%s" % (kind, label.replace(" ", ""), s),
                         "%s with %s: %s" % (s, label, txt),
                         {"model": ft.model_xml([("t", t)], ps, house), "command": ["scram"] + args,
                          "tree": s, "what": txt})
        if len(ck.violations) > STOP:
            gen.close()
            break
    ck.count("evaluations", total)
    ck.count("distinct_nontrivial", len(dist))
    ck.cov.setdefault("spaces", []).append(
        {"family": fam, "what": text, "options": label + (" house=%s" % (list(house),) if house else ""), "trees": total,
         "distinct_functions": len(dist)})
    return total


def got_mcs(e):
    return sorted(sum(1 << v for v, _ in lits) for lits, _ in scram.products(e, scram.eidx))


def got_primes(e):
    return sorted((sum(1 << v for v, s in lits if not s), sum(1 << v for v, s in lits if s))
                  for lits, _ in scram.products(e, scram.eidx))


def sets(ms):
    return "{%s}" % ", ".join(
        "{" + " ".join("e%d" % i for i in range(16) if m >> i & 1) + "}" for m in ms)


def cubes(cs):
    return "{%s}" % ", ".join("{" + " ".join(
        ["e%d" % i for i in range(16) if p >> i & 1] +
        ["~e%d" % i for i in range(16) if q >> i & 1]) + "}" for p, q in cs)
