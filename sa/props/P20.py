"""Operations that pick points, columns or features deliver exactly what was picked.

Works on the trace of stores of each operation of the dataset class: the parts of every point that
is made must come from one source point, the guard of the store must be the selection, the
positions of source and target must run together, and computed values equal their formula."""
import random
import ir, sym, numeval
from golden import *
from sym import ZERO, ONE
from props import P19
from props.P19 import Run, bare, canon, root, A0, A1, A2, simp

THIS = ("this",)
PTS = ("fld", THIS, "m_points")
DATA = ("par", 0, "")


def plain(t):
    """canonical element and size terms"""
    t = canon(t)

    def g(s):
        if s[0] == "idx" and s[1] == THIS:
            return ("idx", PTS, s[2])
        if s[0] == "size" and s[1] == THIS:
            return ("size", PTS)
        if s[0] == "idx" and s[1][0] == "fld" and s[1][2] == "m_points" and s[1][1] != THIS:
            return ("idx", s[1][1], s[2])
        if s[0] == "size" and s[1][0] == "fld" and s[1][2] == "m_points" and s[1][1] != THIS:
            return ("size", s[1][1])
        if s[0] == "fld" and s[2] == "x" or s[0] == "el":
            return s[1]
        return s
    return sym.rewrite(t, g)


def raw(t):
    """as plain, but values at loop heads keep their variable"""
    def g(s):
        if s[0] == "par":
            return ("par", s[1], "")
        if s[0] == "phi" and isinstance(s[2], tuple):
            return s[2]
        return s
    for _ in range(4):
        u = sym.rewrite(norm(t), g)
        if u == t:
            break
        t = u

    def h(s):
        if s[0] == "idx" and s[1] == THIS:
            return ("idx", PTS, s[2])
        if s[0] == "size" and s[1] == THIS:
            return ("size", PTS)
        if s[0] == "idx" and s[1][0] == "fld" and s[1][2] == "m_points" and s[1][1] != THIS:
            return ("idx", s[1][1], s[2])
        if s[0] == "size" and s[1][0] == "fld" and s[1][2] == "m_points" and s[1][1] != THIS:
            return ("size", s[1][1])
        if s[0] == "fld" and s[2] == "x" or s[0] == "el":
            return s[1]
        return s
    return sym.rewrite(t, h)


def made(t):
    return t[0] == "call" and t[1] in ("make_shared", "make_unique") or t[0] == "obj" and "Point" in str(t[1]) or t[0] == "sym" and t[1] == "struct"


class Made:
    def __init__(self):
        self.x, self.parts, self.stores = [], {}, []


def points(r):
    """points built by the operation: root -> its parts"""
    out = {}
    for kind, a, v, cs, ls, fn, node in r.ev.trace:
        if kind != "W":
            continue
        a0 = norm(a)
        if a0[0] == "fld" and made(a0[1]) and a0[2] in ("y", "alpha", "id"):
            out.setdefault(a0[1], Made()).parts.setdefault(a0[2], []).append((raw(v) if isinstance(v, tuple) else None, cs, ls, fn, node))
        elif a0[0] == "fld" and made(a0[1]) and a0[2] == "x" and isinstance(v, tuple):
            out.setdefault(a0[1], Made()).x.append((None, raw(v), cs, ls, fn, node))
        elif made(a0) and a[0] in ("fld", "el") and isinstance(v, tuple):
            out.setdefault(a0, Made()).x.append((None, raw(v), cs, ls, fn, node))
        elif a0[0] == "idx" and isinstance(v, tuple):
            m = a0[1][1] if a0[1][0] == "fld" and a0[1][2] == "x" else a0[1]
            if made(m):
                out.setdefault(m, Made()).x.append((raw(a0[2]), raw(v), cs, ls, fn, node))
            elif made(v):
                out.setdefault(v, Made()).stores.append((raw(a0), cs, ls, fn, node))
    return out


def element(t):
    """a stored point: an element of a dataset's points"""
    return t[0] == "idx" and (t[1] == PTS or t[1][0] == "par" or t[1][0] == "loc")


def whole(rep, r, con, ms):
    for m, d in ms.items():
        srcs, odd = {}, []
        for p_, ws in d.parts.items():
            for v, cs, ls, fn, node in ws:
                if v is not None and v[0] == "fld" and element(v[1]):
                    srcs.setdefault(v[1], []).append((p_, v[2], fn.loc(node)))
                elif v is not None and p_ in ("y", "alpha", "id") and all(q[0] in ("num", "size", "poly", "phi", "bv", "this", "loc", "par") or q[0] == "fld" and q[1] == THIS for q in sym.subterms(v)):
                    odd.append((p_, sym.show(v)[:60]))
        coords = set()
        for pos, v, cs, ls, fn, node in d.x:
            s = v if pos is None else v[1] if v[0] == "idx" and element(v[1]) else None
            if s is not None and element(s):
                coords.add(s)
        if not srcs:
            continue
        loc = next(iter(srcs.values()))[0][2]
        alls = set(srcs) | coords
        bad = ["its %s is %s" % o for o in odd]
        if len(alls) > 1:
            bad.append("its parts come from %s" % ", ".join(sorted(sym.show(s)[:60] for s in alls)))
        for s, l in srcs.items():
            for p_, q, at in l:
                if p_ != q:
                    bad.append("its %s is the %s of the source" % (p_, q))
        have = {q[0] for l in srcs.values() for q in l}
        given = set(d.parts)
        if coords:
            bad += ["its %s is not handed over" % q for q in ("y", "alpha") if q not in given]
        rep.put(not bad, "whole", con, "; ".join(bad), loc, key="whole|" + con)


def span(t, n):
    """the loop visits positions 0..n-1"""
    bv, lo, hi = t
    if bv is None or lo is None or hi is None:
        return None
    lo, hi = raw(lo), raw(hi)
    if lo == ZERO and hi in n:
        return True
    if lo[0] == "num" and lo != ZERO:
        return False
    if lo == ZERO and any(sym.sub(hi, x)[0] == "num" for x in n):
        return False
    return None


def calls(f, names):
    return [i for i in f.walk() if "f" in f.N[i] and ir.short(f.N[i]["f"]["fq"]) in names]


# ----- points of some classes -----
def classes(rep, r, con, ms):
    f = r.f
    for m, d in ms.items():
        for pos, v, cs, ls, fn, node in d.x[:1]:
            if not element(v) or v[1] != DATA:
                continue
            loc = fn.loc(node)
            ok = span(ls[-1], (("size", DATA),)) if ls and v[2] == ls[-1][0] else None
            rep.put(ok, "selected", con + " range", "points %s..%s of the source are looked at" % (sym.show(ls[-1][1]) if ls and ls[-1][1] else "?", sym.show(ls[-1][2])[:60] if ls and ls[-1][2] else "?"), loc)
            if len(cs) != 1:
                rep.put(False if not cs else None, "selected", con + " guard", "points are taken whatever their class" if not cs else "not followed", loc)
                continue
            c = raw(cs[0])
            y = ("fld", v, "y")
            ys = [s for s in sym.subterms(c) if s[0] == "fld" and s[2] == "y"]
            mem = None
            if c[0] == "cmp" and c[2][0] == "call" and c[2][1] == "find" and c[3][0] == "end":
                mem = True if c[1] == "!=" else False if c[1] == "==" else None
            elif c[0] == "cmp" and c[3][0] == "call" and c[3][1] == "find" and c[2][0] == "end":
                mem = True if c[1] == "!=" else False if c[1] == "==" else None
            elif c[0] == "call" and c[1] in ("count", "contains"):
                mem = True
            elif c[0] == "cmp" and any(x[0] == "call" and x[1] == "count" for x in c[2:]) and ZERO in c[2:]:
                mem = c[1] in ("!=", "<", ">")
            if ys and any(q != y for q in ys):
                mem = False
            for s in sym.subterms(c):
                if s[0] == "call" and s[1] in ("find", "count", "contains") and any(q[0] == "fld" and element(q[1]) and q[2] != "y" for q in s[2:]):
                    mem = False
            rep.put(mem, "selected", con + " guard", "a point is taken when %s" % sym.show(c)[:120], loc)
    # the whole list of classes is considered
    for kind, a, v, cs, ls, fn, node in r.ev.trace:
        if kind == "K" and a[0] == "loc" and fn is f and len(ls) == 1 and ls[0][2] is not None and raw(ls[0][2]) in (("size", ("par", 1, "")),):
            rep.put(False if cs and not any(opaque(raw(c)) for c in cs) else span(ls[0], (("size", ("par", 1, "")),)) if not cs else None, "selected", con + " classes", "only some of the classes are considered", fn.loc(node))


# ----- joining -----
def steps(r, f, vid):
    """(first value, unconditional +1 per pass) of a loop variable"""
    first, inc = None, None
    for kind, a, v, cs, ls, fn, node in r.ev.trace:
        if kind == "W" and a[0] == "loc" and a[1] == vid and isinstance(v, tuple):
            if any(s[0] == "phi" and s[2] == vid for s in sym.subterms(v)):
                d = sym.sub(v, next(s for s in sym.subterms(v) if s[0] == "phi" and s[2] == vid))
                inc = d if inc is None else False
            elif inc is None:
                first = raw(v)
    return first, inc


def joined(rep, r, con, ms):
    own = (("size", PTS), ("fld", THIS, "m_size"))
    for m, d in ms.items():
        src = [x for x in d.x if element(x[1]) and x[1][1] == DATA]
        st = [x for x in d.stores if x[0][1] == PTS]
        if not src or not st:
            continue
        q, pos, loc = src[0][1][2], st[0][0][2], st[0][3].loc(st[0][4])
        ls = st[0][2]
        if pos[0] == "phi" and q[0] == "phi":
            (a, ai), (b, bi) = steps(r, r.f, pos[2]), steps(r, r.f, q[2])
            ok = None
            if a is not None and b is not None and ai and bi:
                ok = a in own and b == ZERO and ai == ONE and bi == ONE
                if not ok and not (a in own or a[0] == "num" or sym.sub(a, own[0])[0] == "num" or sym.sub(a, own[1])[0] == "num"):
                    ok = None
            rep.put(ok, "joined", con, "positions start at %s for the source and %s for the target, advance by %s and %s" % tuple(sym.show(z)[:40] if isinstance(z, tuple) else "?" for z in (b, a, bi, ai)), loc, key="joined|positions")
        else:
            dif = sym.sub(pos, q)
            ok = True if dif in own else False if dif[0] == "num" or any(sym.sub(dif, o)[0] == "num" for o in own) else None
            rep.put(ok, "joined", con, "point %s of the source goes to position %s" % (sym.show(q)[:50], sym.show(pos)[:60]), loc, key="joined|positions")
            if ls and ls[-1][0] is not None and ls[-1][1] is not None:
                lo, hi = (sym.subst(q, {ls[-1][0]: raw(z)}) for z in ls[-1][1:]) if ls[-1][2] is not None else (None, None)
                if lo is not None:
                    n = ("size", DATA)
                    rep.put(True if lo == ZERO and (hi == n or sym.sub(hi, n) == ZERO) else False if lo[0] == "num" and lo != ZERO or sym.sub(hi, n)[0] == "num" and hi != n else None, "joined", con + " range", "points %s..%s of the source" % (sym.show(lo)[:40], sym.show(hi)[:60]), loc)


# ----- features by name -----
def sides(c):
    """(position in the own names, other side) of a comparison of a feature name"""
    if c[0] == "cmp":
        for x, y in ((c[2], c[3]), (c[3], c[2])):
            if x[0] == "idx" and x[1] == ("fld", THIS, "fnames") and not (y[0] == "idx" and y[1] == ("fld", THIS, "fnames")):
                return c[1], x[2], y
    return None


def conj(c):
    if c[0] == "and":
        return conj(c[1]) + conj(c[2])
    if c[0] == "ite" and c[3] == ZERO and c[2] == ONE:
        return conj(c[1])
    if c[0] == "ite" and c[2] == ONE:
        return conj(c[1])           # a flag that stays up
    return [c]


def matches(cs):
    out = []
    for c in cs:
        for x in conj(raw(c)):
            s = sides(x)
            if s:
                out.append(s)
    return out


def walked(t):
    """positioned by a counter that only moves on in the walk over the own names"""
    return [s for s in sym.subterms(t) if s[0] == "idx" and any(q[0] in ("phi", "out") for q in sym.subterms(s[2]))]


def bymatch(r, f, vid):
    """the variable moves on where a name was found"""
    for kind, a, v, cs, ls, fn, node in r.ev.trace:
        if kind == "W" and fn is f and a[0] == "loc" and a[1] == vid and isinstance(v, tuple) and any(s[0] == "phi" and s[2] == vid for s in sym.subterms(v)) and any(m[0] == "==" for m in matches(cs)):
            return True
    return False


def identity(rep, r, con, ms):
    f = r.f
    if any("f" in f.N[i] and ir.short(f.N[i]["f"]["fq"]).split("::")[-1] in ("erase", "remove_if", "removeFeatures", "partition") for i in f.walk()):
        return
    for m, d in ms.items():
        for pos, v, cs, ls, fn, node in d.x:
            if pos is not None and pos[0] == "bv" and v[0] == "idx" and element(v[1]) and ls and ls[-1][0] == pos and not matches(cs):
                dep = any(s[0] == "fld" and s[2] == "fnames" or s[0] == "par" and s[1] == 0 for c in cs for s in sym.subterms(raw(c)))
                rep.put(None if dep else v[2] != pos or None if v[2] != pos else False, "features", con + " source", "coordinate i of the new point is coordinate i of the old one, whatever was selected", fn.loc(node), key="features|%s|source" % f.n)


def features(rep, r, con):
    f = r.f
    merge, seen = [], 0
    for kind, a, v, cs, ls, fn, node in r.ev.trace:
        if fn is not f:
            continue
        mt = matches(cs)
        if not mt:
            continue
        loc = fn.loc(node)
        op, j, other = mt[-1]
        if walked(other):
            merge.append((other, loc))
        a0 = raw(a)
        if kind == "W" and isinstance(v, tuple):
            v0 = raw(v)
            # a coordinate or a name is taken over: at the matching position, when the names agree
            if a0[0] == "idx" and v0[0] == "idx" and (element(v0[1]) or v0[1] == ("fld", THIS, "fnames")):
                seen += 1
                what = "name" if v0[1] == ("fld", THIS, "fnames") else "coordinate"
                ok = op == "==" and v0[2] == j
                if v0[2][0] == "phi" and v0[2] != j and bymatch(r, f, v0[2][2]):
                    ok = False
                elif v0[2] != j and opaque(sym.sub(v0[2], j)) and sym.sub(v0[2], j)[0] != "num":
                    ok = None if op == "==" else False
                rep.put(ok, "features", con + " " + what, "the %s at %s is taken when the name at %s is %s the selected one" % (what, sym.show(v0[2])[:40], sym.show(j)[:40], op), loc, key="features|%s|%s" % (f.n, what))
            # positions of the features are recorded
            elif a0[0] == "idx" and a0[1][0] == "loc" and v0 == j:
                seen += 1
                rep.put(op == "==", "features", con + " position", "recorded when the names differ", loc, key="features|%s|position" % f.n)
            elif a0[0] == "idx" and a0[1][0] == "loc" and v0 != other and other in list(sym.subterms(v0)) and j not in list(sym.subterms(v0)) and any(q[0] == "poly" and any(x == other for m_ in q[1] for x, _ in m_[0]) for q in sym.subterms(v0)):
                rep.put(None if a0[2] == j else False, "features", con + " position", "the position recorded is computed from the name (%s), not found in the names" % sym.show(v0)[:80], loc, key="features|%s|position" % f.n)
            elif a0[0] == "idx" and a0[1][0] == "loc" and v0[0] == "phi" and bymatch(r, f, v0[2]):
                rep.bad("features", con + " position", "the position recorded is not the one at which the name was found", loc, key="features|%s|position" % f.n)
        if kind == "K" and (element(a0) or a0[0] == "idx"):
            names = [x for x in calls(f, ("std::vector::erase",)) if x == node or node in set(f.walk(x))]
            seen += 1
            rep.put(op == "==", "features", con + " removed", "a coordinate is removed when its name is %s the one to remove" % op, loc, key="features|%s|removed" % f.n)
            for i in names:
                for q in f.args(i)[1][:1]:
                    at = r.ev.at.get(q)
                    if at is not None:
                        at = norm(at)
                        rep.put(False if at[0] == "begin" else True if at[0] == "phi" else None, "features", con + " place", "the coordinate removed is always the first one", f.loc(i), key="features|%s|place" % f.n)
            k = next((s for s in sym.subterms(other) if s[0] == "idx" and s[2][0] in ("phi", "out")), None)
            if k is not None and op == "==":
                vid = k[2][2]
                ups = [e for e in r.ev.trace if e[0] == "W" and e[1][0] == "loc" and e[1][1] == vid and matches(e[3])]
                rep.put(bool(ups), "features", con + " next", "after a removal the next selected name is not moved on to", loc, key="features|%s|next" % f.n)
            if j[0] == "phi":
                # the position in the names advances with every coordinate
                inc = [(cs2, v2, fn2.loc(n2)) for k2, a2, v2, cs2, ls2, fn2, n2 in r.ev.trace if k2 == "W" and a2[0] == "loc" and a2[1] == j[2] and isinstance(v2, tuple) and any(s == j for s in sym.subterms(raw(v2)))]
                if len(inc) == 1:
                    rep.put(False if matches(inc[0][0]) else True if raw(inc[0][1]) == sym.add(j, ONE) else None, "features", con + " step", "the position in the names does not advance with every coordinate", inc[0][2], key="features|%s|step" % f.n)
                elif len(inc) == 2 and all(matches(x[0]) for x in inc) and {matches(x[0])[-1][0] for x in inc} == {"==", "!="}:
                    rep.put(all(raw(x[1]) == sym.add(j, ONE) for x in inc) or None, "features", con + " step", "", inc[0][2])
    if merge:
        other, loc = merge[0]
        srt = any(s[0] == "srt" for s in sym.subterms(other))
        pars = {q["id"] for q in f.params if "vector" in q["t"]}
        for i in calls(f, ("std::sort", "std::stable_sort", "sort")):
            if any(f.N[x]["c"] == "DeclRefExpr" and f.N[x].get("id") in pars for x in f.walk(i)):
                srt = True
        helper = any("f" in f.N[i] and not f.N[i]["f"]["fq"].startswith(("std::", "__gnu")) and any(f.N[x]["c"] == "DeclRefExpr" and f.N[x].get("id") in pars for x in f.walk(i)) for i in f.walk() if f.N[i]["c"] in ("CallExpr", "CXXMemberCallExpr"))
        rep.put(True if srt else None if helper else False, "features", con + " order", "the selected names are met in one walk over the own names, but are never put in order", loc, key="features|%s|order" % f.n)


# ----- removal of points -----
def removal(rep, r, con):
    f = r.f
    for i in calls(f, ("std::vector::erase",)):
        o, a = f.args(i)
        if o is None or len(a) != 1:
            continue
        ev = [e for e in r.ev.trace if e[0] == "W" and e[1] == ("size", PTS) and e[5] is f and (e[6] == i or e[6] in set(f.walk(i)))]
        if not ev:
            continue
        ids = [c for c in (raw(c) for c in ev[0][3]) if c[0] == "cmp" and any(s[0] == "fld" and s[2] == "id" for s in c[2:])]
        if not ids:
            rep.unk("removed", con, "the guard of the removal is not followed", f.loc(i))
            continue
        c = ids[-1]
        at = next(s for s in c[2:] if s[0] == "fld" and s[2] == "id")
        other = [s for s in c[2:] if s != at]
        arg = r.ev.at.get(a[0])
        pos = raw(arg) if arg is not None else None
        good = c[1] == "==" and at[1][0] == "idx" and at[1][1] == PTS and other and (other[0][0] == "par" or root(other[0])[0] == "par")
        same = None
        if pos is not None and at[1][0] == "idx" and any(q[0] == "begin" for q in sym.subterms(pos)):
            d = sym.sub(sym.rewrite(pos, lambda q: ZERO if q[0] == "begin" else q), at[1][2])
            same = True if d == ZERO else False if d[0] == "num" or not opaque(d) and any(q == DATA for q in sym.subterms(d)) else None
        rep.put(False if c[1] == "!=" or same is False else True if good and same is not False else None, "removed", con, "the point at %s is removed when %s" % (sym.show(pos)[:60] if pos else "?", sym.show(c)[:100]), f.loc(i), key="removed|" + con)


# ----- columns, normalisation, sampling -----
def bind(ne, t):
    r = lambda lo, hi: float(random.Random("%s|%s" % (t, ne.seed)).randint(lo, hi))
    if t[0] == "size" or t[0] == "fld" and t[2] in ("m_size", "m_dim"):
        return r(1, 3)
    return None


def column(rep, f, con):
    v, ev = sym.value_of(f)
    v = plain(v)
    loc = f.loc()
    if v[0] != "lam":
        return rep.unk("column", con, "not followed", loc)
    b = sym.subst(v[2], {v[1]: A0})
    spec = ("idx", ("idx", PTS, A0), DATA) if f.n == "getFeature" else ("fld", ("idx", PTS, A0), "y")
    rep.put(True if b == spec else None if opaque(b) else judge(b, T(spec), ragged=False)[0], "column", con, "entry #0 is %s" % sym.show(b)[:100], loc, key="column|%s" % f.n)
    n = plain(v[3])
    rep.put(True if n in (("size", PTS), ("fld", THIS, "m_size")) else False if n[0] == "num" or any(sym.sub(n, x)[0] == "num" for x in (("size", PTS), ("fld", THIS, "m_size"))) else None, "column", con + " length", "%s entries" % sym.show(n)[:60], loc, key="column|%s|length" % f.n)


def normal(rep, r, con):
    f = r.f
    P = DATA
    got = app = False
    for kind, a, v, cs, ls, fn, node in r.ev.trace:
        if kind != "W" or not isinstance(v, tuple):
            continue
        a0 = raw(a)
        if a0[0] != "idx" or not element(a0[1]) or a0[1][1] != PTS:
            continue
        loc = fn.loc(node)
        x = a0[1]
        if len(ls) == 2 and ls[1][0] is not None and a0[2] == ls[1][0]:
            got = True
            q = ls[1][0]
            dim = ("par", 50, "")
            t = plain(v)
            head = ("ite", ("cmp", "==", ZERO, ("size", PTS)), ZERO, ("size", ("idx", PTS, ZERO)))
            heads = (head, ("size", ("idx", PTS, ZERO)), ("size", ("fld", THIS, "#dim")), ("size", dim), ("fld", THIS, "#dim"), ("fld", THIS, "m_dim"))
            t = sym.rewrite(t, lambda s: dim if s in heads or s == ("size", x) else s)
            t = sym.subst(t, {x: ("par", 51, ""), q: A2})
            X = ("par", 51, "")
            nrm = powi(sumi(0, T(dim), lambda k: powi(vabs_(T(("idx", X, w(k)))), T(P))) + 1, 1 / T(P))
            spec = T(("idx", X, A2)) / nrm
            b = lambda ne, s: float(random.Random("%s%s" % (s, ne.seed)).randint(1, 3)) if s in (dim, P) else None
            carried = {s for s in sym.subterms(t) if s[0] == "phi" and isinstance(s[2], int)}
            if carried:
                zero, one = (sym.rewrite(t, lambda s: z if s in carried else s) for z in (ZERO, ONE))
                back = all(any(e[0] == "W" and e[1][0] == "loc" and e[1][1] == c[2] and e[2] == ZERO and len(e[4]) == 1 for e in r.ev.trace) for c in carried)
                if not back and not opaque(zero) and judge(zero, spec, bind=b, ragged=False)[0] is True and judge(one, spec, bind=b, ragged=False)[0] is False:
                    rep.bad("normal", con + " start", "the norm of a point includes what the points before it added", loc, key="normal|start")
                    continue
            res = True if t == w(spec) else None if opaque(t) else judge(t, spec, bind=b, ragged=False)[0]
            if res is False and any(q_[0] == "cmp" and q_[1] == "==" and dim in q_[2:] for q_ in sym.subterms(t)):
                res = None      # the size was read after the coordinate was appended: it is not the old one
            rep.put(res, "normal", con, "a coordinate becomes %s" % sym.show(t)[:160], loc, key="normal|value")
            for l, n in ((ls[0], (("size", PTS), ("fld", THIS, "m_size"))),):
                rep.put(span(l, n), "normal", con + " points", "points %s..%s" % (sym.show(l[1])[:40] if l[1] else "?", sym.show(l[2])[:40] if l[2] else "?"), loc)
            hi, lo = raw(ls[1][2]) if ls[1][2] else None, raw(ls[1][1]) if ls[1][1] else None
            hi = sym.rewrite(hi, lambda s: dim if s in heads else s) if hi else None
            rep.put(True if lo == ZERO and hi == sym.add(dim, ONE) else False if lo is not None and hi is not None and (lo[0] == "num" and lo != ZERO or sym.sub(hi, dim)[0] == "num" and sym.sub(hi, dim) != ONE) else None, "normal", con + " coordinates", "coordinates %s..%s are divided" % (sym.show(lo)[:30] if lo else "?", sym.show(hi)[:60] if hi else "?"), loc)
        elif len(ls) == 1 and not got:
            app = True
            rep.put(raw(v) == ONE if raw(v)[0] == "num" else None, "normal", con + " appended", "the appended coordinate is %s" % sym.show(v)[:60], loc)
    if not got:
        rep.unk("normal", con, "not followed", f.loc())


def powi(a, b):
    return T(("call", "pow", w(a), w(b) if not isinstance(b, tuple) else b))


def vabs_(a):
    return T(("call", "abs", w(a)))


def var(f, i):
    while i is not None and f.N[i]["c"] in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr"):
        k = f.kids(i)
        i = k[0] if k else None
    return f.N[i].get("id") if i is not None and f.N[i]["c"] == "DeclRefExpr" else None


def sampled(rep, r, con):
    f = r.f
    ins = [x for x in r.calls("mltk::Data::insertPoint") if len(x[2]) == 2]
    if len(ins) != 1:
        return rep.unk("sampled", con, "%d insertions" % len(ins), f.loc())
    t, conds, ls, fn, node = ins[0]
    loc = fn.loc(node)
    if any(l[0] is None or l[2] is None for l in ls):
        return rep.unk("sampled", con, "the loops are not counted ones", loc)
    c0 = ls[0][0]
    x = canon(t[3])
    # the class
    part = x[1] if x[0] == "idx" else None
    ok = None
    if part is not None and part[0] == "idx" and part[1][0] == "call" and part[1][1] == "mltk::Data::splitByClasses":
        ok = part[2] == c0
    rep.put(ok, "sampled", con + " class", "draws for class %s come from part %s" % (sym.show(c0), sym.show(part[2])[:60] if ok is not None else "?"), loc)
    rep.put(span(ls[0], (("size", ("fld", THIS, "m_classes")), ("size", ("fld", THIS, "class_distribution")))), "sampled", con + " classes", "classes %s..%s" % (sym.show(ls[0][1])[:30], sym.show(ls[0][2])[:50]), loc)
    # how many
    hi = sym.sub(canon(ls[1][2]), canon(ls[1][1]))
    S, N = DATA, ("par", 52, "")
    dist = [s for s in sym.subterms(hi) if s[0] == "idx" and s[2] == c0]
    if len(set(dist)) == 1:
        D = dist[0][1]
        e = sym.rewrite(hi, lambda s: ("par", 53, "") if s == dist[0] else N if s[0] == "size" and s[1] in (THIS, PTS) or s == ("fld", THIS, "m_size") else s)
        e = sym.rewrite(e, lambda s: ("par", 54, "") if s == ("size", D) else s)
        e = sym.subst(e, {c0: ("par", 55, "")})
        nc = T(("par", 53, ""))
        frac = nc / T(N) * T(S)
        spec = ("ite", ("cmp", "<", w(frac), ONE), ONE, ("call", "floor", w(frac)))
        b = lambda ne, s: float(random.Random("%s%s" % (s, ne.seed)).randint(*{52: (6, 9), 53: (1, 9), 0: (1, 9), 54: (3, 4), 55: (0, 2)}[s[1]])) if s[0] == "par" and s[1] in (52, 53, 0, 54, 55) else None
        v = None if opaque(e) else judge(e, T(spec), bind=b, ragged=False)[0]
        rep.put(v, "sampled", con + " share", "draws per class: %s" % sym.show(e)[:160], loc)
    else:
        rep.unk("sampled", con + " share", "not followed", loc)
    # without replacement: every redraw loop is fed by the positions drawn for this class
    for i in f.walk():
        if f.N[i]["c"] not in ("WhileStmt", "DoStmt"):
            continue
        look = [(z, k) for z in f.walk(i) if "f" in f.N[z] and f.N[z]["f"]["fq"].startswith(("std::set<", "std::unordered_set<", "std::vector<bool")) and f.N[z]["f"]["fq"].split("::")[-1] in ("find", "count", "contains") for k in [var(f, f.args(z)[0])] if k is not None]
        if not look:
            continue
        vid = look[0][1]
        using = [(z, f.N[z]["f"]["fq"].split("::")[-1]) for z in f.walk() if "f" in f.N[z] and f.args(z)[0] is not None and var(f, f.args(z)[0]) == vid]
        loops = [z for z in f.walk() if f.N[z]["c"] in ("ForStmt", "CXXForRangeStmt", "WhileStmt") and i in set(f.walk(z)) and z != i]
        outer = max(loops, key=lambda z: len(list(f.walk(z)))) if loops else None
        names = {k for z, k in using}
        rep.put("insert" in names or "emplace" in names, "sampled", con + " memory", "the positions drawn are never remembered", f.loc(i), key="sampled|memory")
        if outer is not None:
            body = set(f.walk(outer))
            decl = any(f.N[z]["c"] == "DeclStmt" and vid in [d.get("id") for d in f.N[z].get("d", [])] for z in body)
            fresh = decl or any(z in body and k in ("clear", "operator=", "swap") for z, k in using)
            if fresh and not decl:
                cond = [e[3] for e in r.ev.trace if e[5] is f and any(e[6] == z and k == "clear" for z, k in using)]
                if cond and all(cond):
                    # cleared under a condition: it must be the one under which positions are remembered
                    fresh = False if all(any(raw(c) == ("par", 1, "") or raw(c)[0] == "cmp" and raw(c)[1] == "!=" and ("par", 1, "") in raw(c) and ZERO in raw(c) for c in cs) for cs in cond) else True if all(all(("par", 1, "") in list(sym.subterms(raw(c))) for c in cs) for cs in cond) else None
            rep.put(fresh, "sampled", con + " fresh", "the positions drawn for one class are still excluded for the next ones", f.loc(i), key="sampled|fresh")
        w_ = [e for e in r.ev.trace if e[5] is f and e[6] in set(f.walk(i)) and e[3]]
        pol = set()
        for e in w_:
            for c in e[3]:
                c = raw(c)
                if c == ("par", 1, ""):
                    pol.add(False)
                elif c == ("not", ("par", 1, "")) or c[0] == "cmp" and ("par", 1, "") in c[2:] and ZERO in c[2:]:
                    pol.add(c[0] == "not" or c[1] == "==")
        if pol:
            rep.put(False not in pol, "sampled", con + " mode", "positions are redrawn when drawing with replacement", f.loc(i), key="sampled|mode")
    # the drawing ranges
    for i in f.walk():
        n = f.N[i]
        if "f" in n and n["f"]["fq"].endswith("::emplace_back") and len(f.args(i)[1]) == 2:
            a, b = (r.ev.at.get(z) for z in f.args(i)[1])
            if a is None or b is None:
                continue
            a, b = raw(a), raw(b)
            sz = [s for s in sym.subterms(b) if s[0] == "size"]
            if len(sz) != 1:
                continue
            d = sym.sub(b, sz[0])
            rep.put(a == ZERO and d == sym.num(-1) if d[0] == "num" and a[0] == "num" else None, "sampled", con + " draw", "positions are drawn from %s..%s" % (sym.show(a)[:30], sym.show(b)[:60]), f.loc(i))


def check(p, rep):
    rep.level = "proved"
    rep.rule("whole", "coordinates, label and weight of a point that is made come from one and the same source point")
    rep.rule("selected", "a point is taken exactly when its class is one of the given ones")
    rep.rule("joined", "the points of the other dataset follow the own ones, in order")
    rep.rule("features", "a coordinate (and its name) is taken or removed exactly when the name at its position is a selected one")
    rep.rule("removed", "a point is removed when it carries the given id")
    rep.rule("column", "entry i of a column or of the labels belongs to point i")
    rep.rule("normal", "every point is extended by a one and divided by its p-norm")
    rep.rule("sampled", "every class contributes its share, drawn from its own points")
    for f in sorted(p.fns.values(), key=lambda f: f.key):
        if f.rec and ir.short(f.rec) != "mltk::Data" or not f.sq.startswith("mltk::Data::") or not f.d.get("cfg"):
            continue
        con = "%s(%s)" % (name(f), ", ".join(q["t"].split("<")[0].replace("const ", "").strip(" &") for q in f.params))
        if f.n in ("getFeature", "getLabels", "labels"):
            column(rep, f, con)
            continue
        if f.n == "normalize":
            normal(rep, Run(f), con)
        elif f.n == "sampling":
            sampled(rep, Run(f), con)
        elif f.n in ("classesCopy", "join", "insertFeatures", "selectFeatures", "removeFeatures"):
            r = Run(f, stop=tuple(s for s in P19.STOP if not s.endswith("::" + f.n)))
            ms = points(r)
            whole(rep, r, con, ms)
            if f.n == "classesCopy":
                classes(rep, r, con, ms)
            elif f.n == "join":
                joined(rep, r, con, ms)
            else:
                features(rep, r, con)
                identity(rep, r, con, ms)
        elif f.n in ("removePoint", "removePoints"):
            removal(rep, Run(f), con)
    for k in ("whole", "column"):
        rep.floor(k, 1)
