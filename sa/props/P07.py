"""Frame conditions: which of the datasets and points an operation is given it may change.

The interprocedural effect summaries of sa/effects.py say through which parameter, and at which
attribute, an operation writes (points are shared between datasets, so const does not protect them).
The frame table (sa/frames.json) lists for every public operation the arguments it must leave alone:
all of them except those the documentation says it changes."""
import json, os
import ir, effects
from props.common import *

FRAMES = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "frames.json")
# attributes of a dataset that follow from its points or only cache them
DERIVED = {"index", "m_size", "m_dim", "class_distribution", "cdist_computed", "slot"}
# what training may leave in the training set: multipliers and visiting order
TRAIN = {"Alpha"}
PREDICT = ("evaluate", "predict", "operator()", "evaluate_hard", "maxAccuracy", "compute", "function")


def level(E, f, r):
    if r[0] == "p":
        if len(r) == 2:
            return E.T.level(f.params[r[1]]["t"])
        return "D" if r[-1] == "samples" else None
    if r[0] == "t":
        if len(r) == 1:
            return E.T.level(f.rec or "")
        return "D" if r[-1] == "samples" else None
    return None


def roots(E, f):
    """roots of an operation that denote datasets or points it did not create"""
    out = set()
    for k, x in enumerate(f.params):
        l = E.T.level(x["t"])
        t = x["t"].rstrip()
        if l in ("D", "P") and (t.endswith(("&", "*")) or not E.T.deep(t)):
            out.add(("p", k))
        elif l == "O" and (t.endswith(("&", "*")) or not E.T.deep(t)):
            out.add(("p", k, "*samples"))
    if f.rec and not f.d.get("static"):
        l = E.T.level(f.rec)
        if l in ("D", "P"):
            out.add(("t",))
        elif l == "O":
            out.add(("t", "*samples"))
    return out


def cls(r):
    if r[0] == "p":
        return r if len(r) == 2 else ("p", r[1], "*samples")
    return r if len(r) == 1 else ("t", "*samples")


def written_roots(E, f, s):
    out = {}
    for (r, what), (k, node) in s.writes.items():
        if level(E, f, r) not in ("D", "P") or what in DERIVED:
            continue
        if r[-1] == "samples" and what in TRAIN and f.n not in PREDICT:
            continue
        out.setdefault(cls(r), []).append((r, what, k, node))
    return out


def key(f):
    return "%s/%d" % (f.sq, len(f.params))


def scope(f):
    return not f.d.get("implicit") and f.d.get("kind") != "dtor" and f.sq.startswith("mltk::") and not f.sq.startswith(("mltk::A_", "mltk::Point::", "mltk::BExp", "mltk::UExp"))


def table(p):
    E = effects.program(p)
    out = {}
    for f in E.rel:
        if not scope(f):
            continue
        w = written_roots(E, f, E.S[f.key])
        for r in roots(E, f):
            d = out.setdefault(key(f), {})
            n = rname(f, r)
            d[n] = d.get(n, True) and r not in w
    return {k: sorted(n for n, v in d.items() if v) for k, d in sorted(out.items()) if any(d.values())}


def rname(f, r):
    return "this" + "".join("." + x for x in r[1:]) if r[0] == "t" else "arg%d" % (r[1] + 1) + "".join("." + x for x in r[2:])


def check(p, rep):
    rep.rule("frame", "an operation leaves the points, labels and structure of the datasets and points it is given (and of the training set of the model) as they were, unless it is documented to change them")
    frames = json.load(open(FRAMES))
    E = effects.program(p)
    for f in sorted(E.rel, key=lambda f: f.key):
        if not scope(f) or key(f) not in frames:
            continue
        prot = set(frames[key(f)])
        w = written_roots(E, f, E.S[f.key])
        for r in sorted(roots(E, f)):
            n = rname(f, r)
            if n not in prot:
                continue
            c = "%s %s" % (f.sq.replace("mltk::", ""), n if r[0] == "t" else n.replace("arg%d" % (r[1] + 1), f.params[r[1]]["n"] or n))
            k = "frame|%s|%s" % (key(f), n)
            bad = w.get(r)
            if bad:
                rr, what, fk, node = bad[0]
                g = p.fns[fk]
                rep.bad("frame", c, "%s is changed (%s) by %s" % (".".join(map(str, rr[1:])) if r[0] == "t" else c.split()[-1], ", ".join(sorted({x[1] for x in bad})), g.text(node)[:80]), g.loc(node), k)
            else:
                rep.ok("frame", c, "", f.loc())
    rep.floor("frame", 250)
