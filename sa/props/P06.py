"""Bookkeeping of the dataset: after every public operation, on every path, the counters, tables and
indexes of a dataset agree with the points it stores.

Affine relations over container sizes and counters (sa/affine.py) are computed for every path of every
public operation, started from a dataset in which they hold (induction over histories)."""
import ir, affine
from affine import State, Analysis, Q, lin
from props.common import *

TRACK = [("size", "m_points"), ("num", "m_size"), ("size", "index"), ("size", "m_classes"), ("size", "class_distribution"),
         ("sum", "class_distribution"), ("size", "class_names"), ("size", "fnames"), ("num", "m_dim"), ("num", "is_empty")]
LABELS = ("m_points", "Y", "class_distribution", "m_classes")
REL = [("size", "the reported size is the number of stored points", (("num", "m_size", 1), ("size", "m_points", -1))),
       ("index", "there is one index entry per stored point", (("size", "index", 1), ("size", "m_points", -1))),
       ("classes", "there is one counter per listed class", (("size", "class_distribution", 1), ("size", "m_classes", -1))),
       ("names", "there is one name per listed class", (("size", "class_names", 1), ("size", "m_classes", -1))),
       ("total", "the class distribution sums to the number of stored points", (("sum", "class_distribution", 1), ("size", "m_points", -1))),
       ("features", "there is one feature name per dimension", (("size", "fnames", 1), ("num", "m_dim", -1)))]
OPS = {"insertPoint", "removePoint", "removePoints", "updatePointValue", "classesCopy", "copy", "copyZero", "join", "clear", "normalize",
       "removeFeatures", "computeClassesDistribution", "operator=", "shuffle", "resetIndex"}


def rel(obj, parts):
    return {(k, obj, m): Q(c) for k, m, c in parts}


def invariant(A, st, obj):
    A.fresh_object(st, obj, TRACK)
    for _, _, parts in REL:
        st.aff.meet0(rel(obj, parts))
    st.aff.havoc(("psize", ("of", obj)))
    st.aff.meet0({("psize", ("of", obj)): Q(1), ("num", obj, "m_dim"): Q(-1)})


def dataset(t):
    return ir.short(t.replace("const ", "").rstrip("& *").split("<")[0]) == "mltk::Data"


SCEN = [  # operation, parameter kinds, description, start (constants), arguments, what stays
    ("insertPoint", ("point",), "a point of another dimension", dict(N=3, D=2, arg=5)),
    ("insertPoint", ("point",), "a point of another dimension (one point stored)", dict(N=1, D=2, arg=1)),
    ("join", ("data",), "a dataset of a smaller dimension", dict(N=1, D=2, M=4, arg=1)),
    ("insertPoint", ("data", "int"), "an index past the end", dict(N=3, D=2, M=4, ix=4)),
    ("insertPoint", ("data", "int"), "a negative index", dict(N=3, D=2, M=4, ix=-1)),
    ("insertPoint", ("data", "int"), "a point of a dataset of another dimension", dict(N=3, D=2, M=4, ix=1, arg=5)),
    ("join", ("data",), "a dataset of another dimension", dict(N=3, D=2, M=4, arg=5)),
    ("removePoint", ("int",), "the only point left", dict(N=1, D=2)),
    ("removeFeatures", ("vector",), "the only feature left", dict(N=3, D=1, feats=1)),
    ("updatePointValue", ("int", "num"), "an index past the end", dict(N=3, D=2, ix=3)),
]


ACCEPT = [
    ("insertPoint", ("point",), "inserting into an empty dataset", dict(N=0, D=0, arg=2)),
    ("insertPoint", ("point",), "inserting a further point", dict(N=3, D=2, arg=2)),
    ("insertPoint", ("data", "int"), "inserting a point of another dataset", dict(N=0, D=0, M=4, ix=1, arg=2)),
    ("join", ("data",), "joining to an empty dataset", dict(N=0, D=0, M=4, arg=2)),
    ("join", ("data",), "joining", dict(N=3, D=2, M=4, arg=2)),
    ("copy", ("data",), "copying", dict(N=3, D=2, M=4, arg=2)),
    ("copy", ("data",), "copying an empty dataset", dict(N=3, D=2, M=0, arg=0)),
    ("operator=", ("data",), "assigning", dict(N=0, D=0, M=4, arg=2)),
    ("clear", (), "clearing", dict(N=3, D=2)),
    ("copyZero", ("data",), "copying the format", dict(N=3, D=2, M=4, arg=2)),
]


def kind(t):
    b = t.replace("const ", "").rstrip("& *")
    return "data" if dataset(t) else "point" if "Point<" in b else "vector" if b.startswith("std::vector") else "num" if b in ("double", "float") else "int" if b in ("int", "unsigned long", "size_t", "long", "unsigned int") else "bool" if b == "bool" else "?"


def analysis(p):
    A = Analysis(p, "mltk::Data", TRACK, LABELS)
    A.assumed = {"isClassification": True}
    A.posmember = "index"
    return A


def scenario(p, f, c):
    """(states, None) of f started from a concrete size; None when it cannot be followed"""
    A = analysis(p)
    st = State()
    invariant(A, st, "this")
    st.aff.meet0({("size", "this", "m_points"): Q(1), 1: Q(-c["N"])})
    st.aff.meet0({("num", "this", "m_dim"): Q(1), 1: Q(-c["D"])})
    args = []
    for k, prm in enumerate(f.params):
        kd = kind(prm["t"])
        if kd == "data":
            invariant(A, st, ("arg", k))
            st.aff.meet0({("size", ("arg", k), "m_points"): Q(1), 1: Q(-c["M"])})
            d = c.get("arg", c["D"])
            st.aff.meet0({("num", ("arg", k), "m_dim"): Q(1), 1: Q(-d)})
            args.append(("obj", ("arg", k)))
        elif kd == "point":
            ptr = ("argp", k)
            st.aff.assign(("psize", ptr), {1: Q(c.get("arg", c["D"]))})
            args.append(("ptr", ptr))
        elif kd == "int" and "ix" in c:
            args.append(affine.L({1: Q(c["ix"])}))
        else:
            args.append(None)
    for o, n in [("this", c["N"])] + [(a[1], c["M"]) for a in args if a and a[0] == "obj"]:
        st.aff.assign(("num", o, "is_empty"), {1: Q(1)} if n == 0 else {})
    try:
        return A.run(f, "this", st, args)
    except RuntimeError:
        return None


def check(p, rep):
    rep.level = "proved"
    for k, what, _ in REL:
        rep.rule(k, "after every path of every public operation of a dataset that starts in step, " + what)
    rep.rule("position", "an entry appended to the index is the position of the point appended with it")
    rep.rule("labels", "every counter changes by the number of points of its label that come or go, label by label")
    rep.rule("reject", "an operation that must reject its argument (started in a situation given by constants) leaves the sizes as they were, on every path")
    rep.rule("empty", "the dataset is reported empty exactly when it stores no point")
    rep.rule("place", "the tables of classes, counters and names lose entries at the same place")
    rep.rule("untouched", "a path that reports failure has changed nothing")
    fns = sorted((f for f in p.fns.values() if f.rec and ir.short(f.rec.split("<")[0]) == "mltk::Data" and f.n in OPS and f.d.get("cfg") and not f.d.get("const")), key=lambda f: f.line or 0)
    for f in fns:
        A = analysis(p)
        A.listed_ok = f.n != "computeClassesDistribution"
        st = State()
        invariant(A, st, "this")
        for k, m in TRACK:
            st.aff.assign(("was", k, m), {(k, "this", m): Q(1)})
        args = []
        for k, prm in enumerate(f.params):
            if dataset(prm["t"]):
                invariant(A, st, ("arg", k))
                args.append(("obj", ("arg", k)))
            elif kind(prm["t"]) == "point":
                args.append(("ptr", ("argp", k)))
            else:
                args.append(None)
        name = "%s(%s)" % (f.sq, ", ".join(q["t"] for q in f.params))
        loc = f.loc()
        try:
            outs = A.run(f, "this", st, args)
        except RuntimeError as e:
            for k, _, _ in REL:
                rep.unk(k, name, str(e), loc)
            continue
        objs = [("this", "the dataset")] + [(a[1], "argument %d" % i) for i, a in enumerate(args) if a and a[0] == "obj" and not f.params[i]["t"].startswith("const ")]
        for k, what, parts in REL:
            for obj, on in objs:
                e = rel(obj, parts)
                bad, unk = [], []
                for s, r in outs:
                    if k == "features" and s.aff.const({("size", obj, "m_points"): Q(1)}) == 0:
                        continue
                    if k == "features" and any(s.aff.const({("size", a[1], "m_points"): Q(1)}) == 0 for a in args if a and a[0] == "obj"):
                        unk.append(1)
                        continue
                    if any(d in s.taint for d in e):
                        unk.append(1)
                    elif s.aff.const(e) != 0 and k == "total" and (s.env.get(("searched", obj)) or s.aff.const({("size", obj, "m_classes"): Q(1)}) == 0 and s.aff.const({("size", obj, "m_points"): Q(1)}) is None):
                        unk.append(1)       # a hand-written search of the class list: where it ends is not followed
                    elif s.aff.const(e) != 0:
                        bad.append((s, r, s.aff.const(e)))
                if bad:
                    rep.bad(k, name, "%s: not so at the end of %d of %d path classes (difference %s)" % (what, len(bad), len(outs), sorted({str(b[2]) for b in bad})), loc, key="%s|%s" % (k, f.sq))
                elif unk:
                    rep.unk(k, name, "not followed", loc)
                else:
                    rep.ok(k, name, "", loc)
        bylabel(rep, f, name, outs, loc, A.gone)
        for g, node, v, what in sorted({(g, n, v, w) for g, n, v, w in A.placed}, key=lambda x: (x[0].key, x[1], str(x[2]))):
            rep.put(v, "position", "%s (from %s)" % (g.sq, name), what, g.loc(node), key="position|%s" % g.sq)
    for op, sig, what, c in ACCEPT:
        for f in fns:
            ks = tuple(kind(q["t"]) for q in f.params)
            if f.n != op or ks[:len(sig)] != sig or not sig and ks:
                continue
            outs = scenario(p, f, c)
            con = "%s: %s" % (f.sq, what)
            if not outs:
                rep.unk("empty", con, "not followed", f.loc())
            else:
                emptiness(rep, f, con, outs)
    for op, sig, what, c in SCEN:
        for f in fns:
            ks = tuple(kind(q["t"]) for q in f.params)
            if f.n != op or ks[:len(sig)] != sig:
                continue
            outs = scenario(p, f, c)
            con = "%s given %s" % (f.sq, what)
            if not outs:
                rep.unk("reject", con, "not followed", f.loc())
                continue
            bad, unk = [], []
            for s, r in outs:
                if s.env.get(("relabelled", "this")):
                    bad.append("a stored label changes")
                for k, m in TRACK:
                    if k == "sum" or m == "fnames":
                        continue
                    d = (k, "this", m)
                    want = {"m_points": c["N"], "m_size": c["N"], "index": c["N"], "m_dim": c["D"], "is_empty": 0}.get(m)
                    if want is None:
                        continue
                    if d in s.taint:
                        unk.append(m)
                    elif s.aff.const({d: Q(1)}) != want:
                        bad.append("%s is %s instead of %s" % (m, s.aff.const({d: Q(1)}), want))
            rep.put(False if bad else None if unk else True, "reject", con, "; ".join(sorted(set(bad))) or "not followed", f.loc(), key="reject|%s|%s" % (f.sq, what))


def bylabel(rep, f, name, outs, loc, gone):
    bad, unk = [], []
    for s, r in outs:
        ds = {d for v in [s.aff.p] + s.aff.vs for d in v if d != 1 and d[0] == "D" and d[1] == "this"}
        off = {d[2]: s.aff.const({d: Q(1)}) for d in ds}
        wrong = [l for l in off if l[0] == "wrong"]
        if wrong:
            bad.append("a counter is chosen by a position in %s" % wrong[0][1])
        elif not off:
            continue
        elif s.env.get(("bulk", "this")) or s.env.get(("searched", "this")) or any(k is None or l[0] == "unk" or ("D", "this", l) in s.taint for l, k in off.items()):
            unk.append("label by label accounting not followed")
        else:
            ls = list(off)
            if any(distinct(a, b, gone) for a in ls for b in ls):
                bad.append("counters off by %s" % ", ".join(sorted("%s for %s" % (-k, show(l)) for l, k in off.items())))
            else:
                unk.append("labels not told apart")
    rep.put(False if bad else None if unk else True, "labels", name, (sorted(set(bad)) or sorted(set(unk)) or [""])[0], loc, key="labels|%s" % f.sq)
    # tables shrink at one place
    bad, unk = [], []
    tabs = ["m_classes", "class_distribution", "class_names"]
    for s, r in outs:
        for a, b in ((0, 1), (0, 2)):
            x, y = ("erpos", "this", tabs[a]), ("erpos", "this", tabs[b])
            if x in s.taint or y in s.taint:
                unk.append(1)
            elif s.aff.const({x: Q(1), y: Q(-1)}) != 0:
                bad.append("%s and %s lose entries at different places" % (tabs[a], tabs[b]))
    rep.put(False if bad else None if unk else True, "place", name, (sorted(set(bad)) or ["not followed"])[0], loc, key="place|%s" % f.sq)
    bad, unk, n = [], [], 0
    for s, r in outs:
        if r != ("bool", False):
            continue
        n += 1
        for k, m in TRACK:
            d = (k, "this", m)
            if d in s.taint:
                unk.append(m)
            elif s.aff.const({d: Q(1), ("was", k, m): Q(-1)}) != 0:
                bad.append("%s of %s changes on a path that reports failure" % ({"size": "the size", "sum": "the sum", "num": "the value"}[k], m))
        if s.env.get(("relabelled", "this")):
            bad.append("a stored label changes on a path that reports failure")
    if n:
        rep.put(False if bad else None if unk else True, "untouched", name, (sorted(set(bad)) or ["not followed"])[0], loc, key="untouched|%s" % f.sq)


def show(l):
    return "the new label" if l[0] == "val" else "the label of a stored point" if l[0] == "Y" and l[1][0] == "elem" else "the label of the given point"


def distinct(a, b, gone=()):
    """two label terms that are different labels in some call"""
    if a == b:
        return False
    if a[0] == "val" and b[0] == "Y" and b[1][0] == "elem":
        return True
    if a[0] == "Y" and b[0] == "Y" and a[1][0] == "elem" and b[1][0] == "elem":
        if a[1][:2] == b[1][:2] and (a, b[1][3]) in gone:
            return True                 # read from what is left after a was taken out
        return a[1][:3] == b[1][:3] and a[1][3:] != b[1][3:]
    return False


def emptiness(rep, f, con, outs):
    bad, unk = [], []
    for s, r in outs:
        k = s.aff.const({("size", "this", "m_points"): Q(1)})
        if k is None or ("size", "this", "m_points") in s.taint:
            continue
        e = s.aff.const({("num", "this", "is_empty"): Q(1)})
        if ("num", "this", "is_empty") in s.taint or e is None:
            unk.append(1)
        elif (e != 0) != (k == 0):
            bad.append("it is reported %sempty with %s points" % ("" if e else "not ", k))
    rep.put(False if bad else None if unk else True, "empty", con, (bad + ["not followed"])[0], f.loc(), key="empty|%s" % f.sq)
