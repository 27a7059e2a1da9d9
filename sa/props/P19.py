"""Generated points follow their construction: SMOTE and the synthetic datasets.

The value of every coordinate and label of an inserted point is computed as a term over the
operation's arguments and its random draws (each distribution reduced to its parameters) and
compared with the construction; the loops around the insertion give the number of points."""
import random
import ir, sym, numeval
from golden import *
from sym import ZERO, ONE

STOP = tuple("mltk::Data::" + x for x in ("insertPoint", "shuffle", "setIndex", "setName", "setType", "classesCopy", "splitByClasses", "copy", "resetIndex", "setDim")) + ("mltk::random::init",)
G = ("par", 60, "")         # a standard normal draw
U = ("par", 61, "")         # a uniform draw from [0, 1)
A0, A1, A2 = ("bv", 911), ("bv", 912), ("bv", 913)


def bare(t):
    for _ in range(6):
        u = sym.rewrite(norm(t), lambda s: s[2] if s[0] == "phi" and isinstance(s[2], tuple) else s)
        if u == t:
            break
        t = u
    return t


def undraw(t):
    """distributions as functions of a standard draw"""
    def g(s):
        if s[0] == "call" and s[1] == "operator()" and len(s) >= 3 and s[2][0] == "obj":
            d, a = s[2][1], s[2][2:]
            if d == "std::normal_distribution":
                m, sd = (a + (ZERO, ONE)[len(a):])[:2]
                return w(T(m) + T(sd) * T(G))
            if d == "std::uniform_real_distribution":
                lo, hi = (a + (ZERO, ONE)[len(a):])[:2]
                return w(T(lo) + (T(hi) - T(lo)) * T(U))
        return s
    return sym.rewrite(t, g)


def canon(t):
    def g(s):
        if s[0] == "par":
            return ("par", s[1], "")
        if s[0] == "idx" and s[1][0] == "obj" and s[1][1] == "std::vector" and len(s[1]) >= 4:
            return s[1][3]                      # std::vector v(n, x)
        if s[0] == "idx" and s[1][0] == "lam":
            return sym.subst(s[1][2], {s[1][1]: s[2]})
        if s[0] == "size" and s[1][0] == "lam":
            return s[1][3]
        if s[0] == "size" and s[1][0] == "obj" and s[1][1] == "std::vector" and len(s[1]) >= 3:
            return s[1][2]
        return s
    for _ in range(3):
        u = sym.rewrite(undraw(bare(t)), g)
        if u == t:
            break
        t = u
    return t


class Run:
    def __init__(self, f, stop=STOP):
        self.f = f
        self.ev = ev = sym.Ev(f, this=("this",), stop=stop)
        ev.trace = []
        self.envs = []

        def hook(e, info, b):
            self.envs.append((e.fn, info, dict(e.env)))
        ev.hook = hook
        self.ret = ev.run()

    def calls(self, name):
        out = []
        for kind, t, v, conds, loops, fn, node in self.ev.trace:
            if kind == "C" and t[1] == name and not any(o[0] == t and o[3] is fn and o[4] == node for o in out):
                out.append((t, conds, loops, fn, node))
        return out

    def writes(self):
        return [e for e in self.ev.trace if e[0] == "W"]


def root(t):
    while t[0] in ("idx", "fld", "size", "el", "phi") and isinstance(t[1] if t[0] != "phi" else t[2], tuple):
        t = t[1] if t[0] != "phi" else t[2]
    return t


def loopsub(loops):
    """bound positions of the loops in nesting order"""
    ks = [A0, A1, A2]
    m = {}
    for (bv, lo, hi), k in zip(loops, ks):
        if bv is None or bv[0] != "bv":
            return None
        m[bv] = k
    return m


def bind(ne, t):
    r = lambda lo, hi: float(random.Random("%s|%s" % (t, ne.seed)).randint(lo, hi))
    if t[0] == "par" and 40 <= t[1] < 50:
        return r(1, 4)
    if t[0] == "size":
        return r(1, 4)
    return None


INT = lambda k: ("par", 40 + k, "")


def integers(f, t):
    """integral parameters get integral sample values"""
    m = {("par", k, ""): INT(k) for k, q in enumerate(f.params) if q["t"].replace("const ", "").rstrip("& ") in ("int", "unsigned int", "unsigned long", "size_t", "std::size_t", "long")}
    return sym.subst(t, m)


class Chk:
    def __init__(self, rep, f):
        self.rep, self.f = rep, f

    def eq(self, t, spec, rule, con, what, loc, key=None):
        """t, spec: terms"""
        t, spec = integers(self.f, canon(t)), integers(self.f, canon(spec))
        if t == spec:
            return self.rep.ok(rule, con, what, loc)
        v = judge(t, T(spec), bind=bind, ragged=False)[0]
        if v is False and opaque(t):
            v = None
        self.rep.put(v, rule, con, "%s: %s instead of %s" % (what, sym.show(t)[:200], sym.show(spec)[:120]), loc, key=key or "%s|%s|%s" % (rule, name(self.f), what))


def point(r, call):
    """(coordinate at position A2, label term) of an inserted point; None where not followed"""
    t, conds, loops, fn, node = call
    x = t[3]
    lp = loopsub(loops)
    if lp is None:
        return None, None
    # the local variable the point was built in
    loc = x[2] if x[0] == "sym" and x[1] == "struct" else x if x[0] == "loc" else None
    coord = label = None
    if loc is not None:
        ws = []
        for k, a, v, cs, ls, wfn, wn in r.writes():
            a = bare(a)
            if a[0] == "idx" and a[1] == loc:
                ws.append((a[2], v, cs, ls))
            if a == ("fld", loc, "y") and ls[:len(loops)] == loops:
                g = ONE
                for c in cs:
                    if c not in conds:
                        g = sym.bool2("and", g, c)
                label = v if g == ONE else sym.ite(g, v, label if label is not None else ("sym", "unset"))
        if len(ws) == 1 and not [c for c in ws[0][2] if c not in conds] and len(ws[0][3]) == len(loops) + 1 and ws[0][0] == ws[0][3][-1][0]:
            coord = (sym.subst(sym.subst(ws[0][1], lp), {ws[0][0]: A2}), ws[0][3][-1])
        if coord is None:
            vals = []
            for efn, info, env in r.envs:
                for k, v in env.items():
                    if k == loc[1] and isinstance(v, tuple) and v not in vals:
                        vals.append(v)
            if len(vals) == 1 and vals[0][0] == "list":
                coord = (sym.subst(vals[0], lp), None)
    if label is not None:
        label = sym.subst(label, lp)
    return coord, label


def blobs(rep, f, c, spec):
    """spec: (number of centres, points of centre c, coordinate mean, deviation, dimension, labels wanted)"""
    r = Run(f)
    con = "%s(%s)" % (name(f), f.params[0]["t"])
    ins = [x for x in r.calls("mltk::Data::insertPoint") if len(x[2]) == 2]
    if len(ins) != 1:
        return rep.unk("blobs", con, "%d insertions" % len(ins), f.loc())
    call = ins[0]
    t, conds, loops, fn, node = call
    loc = fn.loc(node)
    lp = loopsub(loops)
    if lp is None:
        return rep.unk("blobs", con, "the loops are not counted ones", loc)
    nc, cnt, mean, sd, ndim, flag = spec
    k = Chk(rep, f)
    rep.put(False if conds and not any(opaque(canon(x)) for x in conds) else None if conds else True, "blobs", con, "points are inserted only when %s" % [sym.show(x)[:80] for x in conds], loc)
    for i, (what, sp) in enumerate((("number of blobs", nc), ("points of a blob", cnt))):
        lo, hi = sym.subst(loops[i][1], lp), sym.subst(loops[i][2], lp)
        k.eq(sym.sub(hi, lo), sp, "blobs", con, what, loc)
        if i == 0:
            k.eq(lo, ZERO, "blobs", con, "first blob", loc)
    coord, label = point(r, call)
    if coord is None:
        rep.unk("blobs", con, "the coordinates are not followed", loc)
    else:
        k.eq(coord[0], w(T(mean) + T(sd) * T(G)), "blobs", con, "coordinate", loc)
        lo, hi = coord[1][1], coord[1][2]
        k.eq(sym.sub(hi, lo), ndim, "blobs", con, "number of coordinates", loc)
        k.eq(lo, ZERO, "blobs", con, "first coordinate", loc)
    labels(k, r, con, label, conds, nc, flag, loc, "blobs")
    ret = r.ret
    if ret[0] == "struct":
        ce = next((x[2] for x in ret[2:] if x[1] == "centers"), None)
        if ce is None and c is not None:
            rep.bad("blobs", con, "the centres are not returned", f.loc())
        if ce is not None and c is not None:
            k.eq(unlam(canon(ce), (A0, A2)) if canon(ce)[0] == "lam" else canon(ce), c, "blobs", con, "reported centres", f.loc())


def labels(k, r, con, label, conds, nc, flag, loc, rule):
    if label is None:
        return k.rep.unk(rule, con, "the labels are not followed", loc)
    lab = sym.ite(sym.cmp_("==", nc, sym.num(2)), sym.ite(sym.cmp_("==", A0, ZERO), sym.num(-1), ONE), sym.add(A0, ONE))
    label = canon(label)
    if flag is not None:
        label = sym.rewrite(sym.subst(label, {flag: ONE}), lambda s: s)
    # with at least one class; without a flag
    for n in (1, 2, 3, 4):
        t = simp(sym.subst(label, {nc: sym.num(n), canon(nc): sym.num(n)}))
        s = simp(sym.subst(lab, {nc: sym.num(n)}))
        v = True if t == s else judge(t, T(s), bind=lambda ne, q: float(random.Random("%s%s" % (n, ne.seed)).randrange(n)) if q in (A0, ("par", 55, "")) else None, ragged=False)[0] if not opaque(t) else None
        if t != s and not opaque(t):
            v = all(value(t, i) == value(s, i) for i in range(n))
        k.rep.put(v, rule, con, "label of class #i of %d is %s" % (n, sym.show(t)[:120]), loc, key="%s|%s|label of %d" % (rule, name(k.f), n))


def simp(t):
    def g(s):
        if s[0] == "cmp":
            return sym.cmp_(s[1], s[2], s[3])
        if s[0] in ("and", "or"):
            return sym.bool2(s[0], s[1], s[2])
        if s[0] == "not":
            return sym.not_(s[1])
        if s[0] == "ite":
            return sym.ite(s[1], s[2], s[3])
        return s
    return sym.rewrite(t, g)


def value(t, i):
    return simp(sym.subst(t, {A0: sym.num(i)}))


def spirals(rep, f):
    r = Run(f)
    con = name(f)
    N, C, NOISE, LOOPS, MARGIN = (("par", k, "") for k in (0, 1, 3, 4, 5))
    ins = [x for x in r.calls("mltk::Data::insertPoint") if len(x[2]) == 2]
    if len(ins) != 1 or loopsub(ins[0][2]) is None:
        return rep.unk("spirals", con, "the insertion is not followed", f.loc())
    t, conds, loops, fn, node = call = ins[0]
    loc, k, lp = fn.loc(node), Chk(rep, f), loopsub(ins[0][2])
    rep.put(False if conds and not any(opaque(canon(x)) for x in conds) else None if conds else True, "spirals", con, "points are inserted only when %s" % [sym.show(x)[:80] for x in conds], loc)
    k.eq(sym.sub(sym.subst(loops[0][2], lp), sym.subst(loops[0][1], lp)), C, "spirals", con, "number of classes", loc)
    k.eq(sym.subst(loops[0][1], lp), ZERO, "spirals", con, "first class", loc)
    k.eq(sym.sub(sym.subst(loops[1][2], lp), sym.subst(loops[1][1], lp)), ("call", "idiv", N, C), "spirals", con, "points of a class", loc)
    coord, label = point(r, call)
    labels(k, r, con, label, conds, C, None, loc, "spirals")
    if coord is None or coord[1] is not None or coord[0][0] != "list" or len(coord[0]) != 3:
        return rep.unk("spirals", con, "the coordinates are not followed", loc)
    pi2 = 2 * T(("num", sym.Fraction("3.1415926535897931")))
    theta = T(U) * T(LOOPS) * pi2
    rad = theta * T(MARGIN) * T(C)
    rot = theta + T(A0) * pi2 / T(C)
    for i, g in enumerate((fn_("cos"), fn_("sin"))):
        k.eq(coord[0][1 + i], w(rad * g(rot) + T(U) * T(NOISE)), "spirals", con, "coordinate %d" % i, loc)


def captured(f, t):
    """variables read through a capture"""
    return sym.rewrite(t, lambda s: (("par", f.pid[s[1]], "") if s[1] in f.pid else ("loc", s[1], s[2])) if s[0] == "var" and len(s) == 3 else s)


def fn_(n):
    return lambda x: T(("call", n, w(x)))


def regression(rep, f):
    r = Run(f)
    con = name(f)
    k = Chk(rep, f)
    ND, BIAS, NOISE, SD, NI = (("par", i, "") for i in (1, 2, 3, 4, 5))
    ws = r.writes()
    ys = [(i, e) for i, e in enumerate(ws) if bare(e[1])[0] == "fld" and bare(e[1])[2] == "y" and len(e[4]) == 1]
    if not ys:
        return rep.unk("regression", con, "no target is written", f.loc())
    label = None
    for i, (kind, a, v, cs, ls, fn, node) in ys:
        g = ONE
        for c in cs:
            g = sym.bool2("and", g, c)
        label = v if g == ONE else sym.ite(g, v, label if label is not None else ("sym", "unset"))
    loc = ys[0][1][5].loc(ys[0][1][6])
    a = bare(ys[0][1][1])
    pt, bv = a[1], ys[0][1][4][0][0]
    label = canon(captured(f, label))
    cf = {root(s) for s in sym.subterms(label) if s[0] == "idx" and root(s)[0] == "loc" and root(s) != root(pt)}
    if len(cf) != 1:
        return rep.unk("regression", con, "the coefficients of the targets are not one local", loc)
    L = cf.pop()
    x = canon(pt)
    for pos in (True, False):
        val = sym.num(Fraction_(1, 2)) if pos else ZERO
        t = simp(sym.subst(label, {NOISE: val}))
        d = sumi(0, T(("size", x)), lambda q: T(("idx", x, w(q))) * T(("idx", L, w(q))))
        spec = d + T(BIAS) + (T(SD) + T(val) * T(G) if pos else 0)
        k.eq(t, w(spec), "regression", con, "target %s noise" % ("with" if pos else "without"), loc)
    coef = next((q[2] for q in r.ret[2:] if q[1] == "coef"), None) if r.ret[0] == "struct" else None
    if coef is not None and root(canon(coef)) != L and canon(coef)[0] in ("obj", "loc"):
        rep.bad("regression", con + " coefficients", "the returned coefficients are %s" % sym.show(canon(coef))[:120], f.loc())
    elif coef is None or canon(coef)[0] != "lam":
        rep.unk("regression", con, "the returned coefficients are not followed", f.loc())
    else:
        t = sym.subst(canon(coef)[2], {canon(coef)[1]: A0})
        m = w(fn_min(T(ND), T(NI)))
        inside = lambda q: True
        bad = []
        for nd, ni, q in ((4, 2, 0), (4, 2, 1), (4, 2, 2), (4, 2, 3), (3, 5, 0), (3, 5, 2), (3, 3, 2)):
            tv = simp(mins(sym.subst(t, {ND: sym.num(nd), NI: sym.num(ni), A0: sym.num(q)})))
            if tv not in (G, ZERO):
                bad.append(None)
            elif (tv == G) != (q < min(nd, ni)):
                bad.append("coefficient %d of %d with %d informative ones is %s" % (q, nd, ni, "drawn" if tv == G else "zero"))
        rep.put(False if any(bad) else None if bad else True, "regression", con + " coefficients", "; ".join(str(b) for b in bad if b), f.loc())
    # the targets are computed from the coefficients and points that are returned
    cw = [i for i, e in enumerate(ws) if root(bare(e[1])) == L and bare(e[1])[0] == "idx"]
    xw = [i for i, e in enumerate(ws) if root(bare(e[1])) == root(pt) and bare(e[1]) == sym.subst(pt, {bv: e[4][0][0]} if e[4] else {})]
    first = min(i for i, _ in ys)
    late = [i for i in cw + xw if i > first]
    rep.put(False if late else True if cw and xw else None, "regression", con + " order", "coefficients or points change after the targets were computed from them", f.loc() if not late else ws[late[0]][5].loc(ws[late[0]][6]))


def Fraction_(a, b):
    return sym.Fraction(a, b)


def fn_min(a, b):
    return T(("call", "min", w(a), w(b)))


def mins(t):
    return sym.rewrite(t, lambda s: min(s[2:], key=lambda q: q[1]) if s[0] == "call" and s[1] == "min" and all(q[0] == "num" for q in s[2:]) else s)


def smote(rep, f):
    r = Run(f)
    con = name(f)
    DATA = ("par", 0, "")
    cc = r.calls("mltk::Data::classesCopy")
    if len(cc) != 1 or len(cc[0][0]) < 5 and len(cc[0][0]) < 4:
        return rep.unk("smote", con, "how the minority set is made is not followed", f.loc())
    t, conds, loops, fn, node = cc[0]
    Z, src, cl = bare(t[2]), canon(t[3]), canon(t[4])
    loc = fn.loc(node)
    mc = cl[1] if cl[0] == "list" and len(cl) == 2 else None
    am = mc[2] if mc is not None and mc[0] == "idx" and mc[1] == ("fld", DATA, "m_classes") else None
    ok = None
    if am is not None and am[0] == "arg":
        of = am[2] == ("idx", ("fld", DATA, "class_distribution"), am[3])
        whole = am[4] == ZERO and am[5] == ("size", ("fld", DATA, "class_distribution"))
        ok = am[1] == "min" and whole if of else None
    rep.put(ok if src == DATA else None, "smote", con + " class", "the class that is oversampled is %s" % sym.show(cl)[:150], loc)
    # the artificial point
    cand = []
    for e in r.writes():
        kind, a, v, cs, ls, wfn, wn = e
        if a[0] == "loc" and isinstance(v, tuple) and U in set(sym.subterms(canon(v))) and len(ls) == 2:
            cand.append(e)
    assigned = bool(cand)       # coordinates assigned to a point made before: the label is not
    if not cand:
        # initialised where it is declared
        for efn, info, env in r.envs:
            for k, v in env.items():
                if isinstance(v, tuple) and U in set(sym.subterms(canon(v))) and any(x[0] == "idx" for x in sym.subterms(canon(v))):
                    for kind, a, yv, cs, ls, wfn, wn in r.writes():
                        if a[0] == "fld" and a[2] == "y" and a[1][0] == "loc" and a[1][1] == k and len(ls) == 2 and not any(c[1] == a[1] for c in cand):
                            cand.append(("W", a[1], v, cs, ls, wfn, wn))
    if len(cand) != 1:
        return rep.unk("smote", con, "%d assignments of artificial points" % len(cand), f.loc())
    kind, s, v, cs, ls, wfn, wn = cand[0]
    loc = wfn.loc(wn)
    raw = v
    v = present(canon(v))
    b0, b1 = ls[0][0], ls[1][0]
    t0, t1 = simp(sym.subst(v, {U: ZERO})), simp(sym.subst(v, {U: ONE}))
    z = ("idx", Z, b0)
    other = [x for x in (t0, t1) if x != z]
    if z not in (t0, t1) or len(other) != 1:
        known = not any(q[0] in ("phi", "out", "sym") for q in sym.subterms(sym.subst(v, {})))
        rep.put(False if other and known or t0[0] == "idx" and t1[0] == "poly" else None, "smote", con + " segment", "the ends are %s and %s" % (sym.show(t0)[:120], sym.show(t1)[:200]), loc)
        q = None
    else:
        q = other[0]
        pt = q[0] == "idx" and q[1][0] in ("loc", "par")
        lin = sym.sub(v, w(T(t0) + T(U) * (T(t1) - T(t0)))) if pt else None
        rep.put(None if q[0] == "call" and not pt else True if pt and lin == ZERO else False if pt or q[0] == "poly" else None, "smote", con + " segment", "one end is the point, the other %s" % sym.show(q)[:200], loc)
        if not pt:
            q = None
    # draws stay in [0, 1]
    for d in {x[2] for x in sym.subterms(bare(raw)) if x[0] == "call" and x[1] == "operator()" and x[2][0] == "obj" and x[2][1] == "std::uniform_real_distribution"}:
        a = (d[2:] + (ZERO, ONE)[len(d) - 2:])
        nums = all(x[0] == "num" for x in a)
        rep.put((0 <= a[0][1] and a[1][1] <= 1) if nums else None, "smote", con + " draw", "the position on the segment is drawn from %s" % [sym.show(x) for x in a], loc)
    # every minority point
    lo, hi = canon(ls[0][1]), canon(ls[0][2])
    rep.put(True if lo == ZERO and hi == ("size", Z) else False if lo[0] == "num" and hi == ("size", Z) else None, "smote", con + " points", "points %s..%s of the minority class" % (sym.show(lo), sym.show(hi)), loc)
    # neighbours: positions found in the set they are looked up in
    dist = [e for e in r.writes() if e[1][0] == "idx" and e[2] is not None and e[2][0] == "obj" and e[2][1] == "std::pair" and len(e[2]) == 4 and len(e[4]) == 2]
    if len(dist) == 1 and q is not None:
        _, a, pv, _, dl, dfn, dn = dist[0]
        j = dl[1][0]
        over = canon(dl[1][2])
        D = a[1]
        idx = sym.rewrite(q[2], lambda x: ("par", 70, "") if x[0] == "fld" and x[2] == "first" and root(x) == D else x)
        val = simp(sym.subst(idx, {("par", 70, ""): bare(pv[2])}))
        same = over == ("size", q[1])
        plain = ("par", 70, "") in set(sym.subterms(idx))
        rep.put(None if not plain else True if same and val == j else False if over[0] == "size" and over[1][0] in ("loc", "par") else None, "smote", con + " neighbours",
                "the distances run over %s, the neighbour is taken from %s at %s" % (sym.show(over), sym.show(q[1]), sym.show(val)), loc)
        # which of them: the first k in ascending order
        nb = [x for x in sym.subterms(q[2]) if x[0] == "idx" and x[1] == D]
        if len(nb) == 1:
            kw = [e for e in r.writes() if e[1][0] == "idx" and e[2] is not None and present(canon(e[2])) == sym.subst(q, {b1: e[4][-1][0]} if e[4] else {}) and e[1] != s]
            for e in kw[:1]:
                lo, hi = canon(e[4][-1][1]), e[4][-1][2]
                pos = nb[0][2]
                fits = pos == e[4][-1][0] or pos == b1
                kk = [x for x in sym.subterms(hi) if x[0] == "fld" and x[1] == ("this",)]
                plainmin = hi[0] == "call" and hi[1] == "min" and kk and kk[0] in hi[2:]
                over_k = hi[0] == "call" and hi[1] == "min" and kk and any(sym.sub(x, kk[0])[0] == "num" and x != kk[0] for x in hi[2:])
                rep.put(True if fits and lo == ZERO and plainmin else False if fits and lo == ZERO and over_k or lo[0] == "num" and lo[1] > 0 and fits or lo == ZERO and not fits and pos[0] == "poly" else None, "smote", con + " nearest", "neighbours %s..%s of the sorted list, at %s" % (sym.show(lo), sym.show(hi)[:80], sym.show(pos)), e[5].loc(e[6]))
            if not kw:
                rep.unk("smote", con + " nearest", "which neighbours are taken is not followed", loc)
        order(rep, r, con, D)
        if not dist[0][3] and dist[0][4][1][1] == ZERO:
            distinct(rep, r, con, D, loc)
    else:
        rep.unk("smote", con + " neighbours", "the distances are not followed", loc)
    # label
    lab = [e for e in r.writes() if e[1] == ("fld", s, "y")]
    if len(lab) == 1 and mc is not None:
        lv = canon(lab[0][2])
        own = [("fld", x, "y") for x in (z, q) if x is not None]
        copied = lv[0] == "fld" and lv[2] == "y" and lv[1][0] in ("loc", "phi") and any(canon(env[lv[1][1]]) in (z, q) for _, _, env in r.envs if isinstance(env.get(lv[1][1]), tuple))
        rep.put(True if lv == mc or lv in own or copied else False if not opaque(lv) and root(lv)[0] != "loc" else None, "smote", con + " label", "an artificial point is labelled %s" % sym.show(lv)[:120], lab[0][5].loc(lab[0][6]))
    elif not lab and mc is not None and kind == "W" and wfn is f and not any(e[1] == ("fld", s, "y") for e in r.writes()) and assigned:
        rep.bad("smote", con + " label", "an artificial point keeps the label it was made with", loc)
    else:
        rep.unk("smote", con + " label", "%d label assignments" % len(lab), loc)
    # all of them are added
    ins = [x for x in r.calls("mltk::Data::insertPoint") if root(bare(x[0][2])) in (DATA,) or bare(x[0][2])[0] == "phi"]
    for t, conds, loops, fn, node in ins[:1]:
        x = bare(t[3])
        if len(loops) == 1 and x[0] == "idx" and x[2] == loops[0][0]:
            lo, hi = canon(loops[0][1]), bare(loops[0][2])
            rep.put(True if lo == ZERO and hi == ("size", x[1]) and not conds else False if lo[0] == "num" and hi == ("size", x[1]) and lo != ZERO or sym.sub(hi, ("size", x[1]))[0] == "num" and hi != ("size", x[1]) else None, "smote", con + " added", "artificial points %s..%s are added%s" % (sym.show(lo), sym.show(hi)[:60], " when " + sym.show(conds[0])[:80] if conds else ""), fn.loc(node))
        else:
            rep.unk("smote", con + " added", "not followed", fn.loc(node))


def present(t):
    """a missing element (null) is never used"""
    return sym.rewrite(t, lambda s: s[1] if s[0] == "el" else s[2] if s[0] == "ite" and s[3] == ZERO and s[2][0] in ("idx", "el", "fld") else s)


SORTS = ("std::sort", "std::stable_sort", "std::nth_element", "std::partial_sort", "std::ranges::sort", "std::make_heap", "std::sort_heap")


def distinct(rep, r, con, D, loc):
    """points at no distance (the point itself among them) are not neighbours"""
    f = r.f
    S = ("fld", ("par", 0, ""), "second")
    seen, known = 0, False
    for i in f.walk():
        n = f.N[i]
        if "f" in n and ir.short(n["f"]["fq"]) in ("std::remove_if", "std::erase_if", "std::find_if", "std::find_if_not", "std::partition", "std::stable_partition", "std::copy_if", "std::remove_copy_if", "std::upper_bound", "std::lower_bound", "std::partition_point"):
            seen += 1
            a = f.args(i)[1]
            lam = next((r.ev.at[y] for x in a for y in f.walk(x) if r.ev.at.get(y, ("",))[0] == "lambda"), None)
            lf = r.ev.lam(lam) if lam is not None else None
            v = sym.value_of(lf)[0] if lf is not None else None
            if v is not None and ir.short(n["f"]["fq"]) == "std::remove_if" and canon(v) in (("cmp", "==", S, ZERO), ("cmp", "<=", S, ZERO), ("cmp", "==", ZERO, S), sym.cmp_("==", S, ZERO), sym.cmp_("<=", S, ZERO)):
                known = True
    if known:
        return rep.ok("smote", con + " distinct", "points at distance 0 are removed", loc)
    helpers = [n for i in f.walk() for n in (f.N[i],) if "f" in n and n["f"].get("k") and n["f"]["fq"].startswith("mltk::SMOTE")]
    rep.put(None if seen or helpers else False, "smote", con + " distinct", "points at no distance, the point itself among them, stay among its neighbours", loc)


def order(rep, r, con, D):
    f = r.f
    if not any("f" in f.N[i] and (ir.short(f.N[i]["f"]["fq"]) in SORTS or ir.short(f.N[i]["f"]["fq"]).startswith(("std::set", "std::map", "std::multi", "std::priority", "std::push_heap"))) for i in f.walk()):
        own = any("f" in f.N[i] and f.N[i]["f"]["fq"].startswith("mltk::") and any(bare(r.ev.at.get(x, ZERO)) == D for x in f.args(i)[1]) for i in f.walk())
        return rep.put(None if own else False, "smote", con + " order", "the distances are never ordered", f.loc())
    for i in f.walk():
        n = f.N[i]
        if "f" in n and ir.short(n["f"]["fq"]) in ("std::sort", "std::stable_sort", "std::nth_element", "std::partial_sort"):
            o, a = f.args(i)
            lam = next((r.ev.at[x] for x in a if r.ev.at.get(x, ("",))[0] == "lambda"), None)
            if lam is None:
                lam = next((r.ev.at[y] for x in a for y in f.walk(x) if r.ev.at.get(y, ("",))[0] == "lambda"), None)
            if lam is None:
                rep.unk("smote", con + " order", "the order of the distances is not followed", f.loc(i))
                continue
            lf = r.ev.lam(lam)
            v = sym.value_of(lf)[0] if lf is not None else None
            A, B = ("fld", ("par", 0, ""), "second"), ("fld", ("par", 1, ""), "second")
            v = canon(v) if v is not None else None
            rep.put(True if v in (("cmp", "<", A, B), ("cmp", "<=", A, B)) else False if v in (("cmp", "<", B, A), ("cmp", "<=", B, A)) else None, "smote", con + " order", "the distances are ordered by %s" % (sym.show(v) if v else "?"), f.loc(i))


def check(p, rep):
    rep.level = "proved"
    rep.rule("blobs", "blob c gets its number of points, each coordinate drawn normally around the blob's centre with the blob's deviation, labelled by its blob")
    rep.rule("spirals", "every class gets its share of points on its own rotated spiral, labelled by class")
    rep.rule("regression", "targets are the dot product with the returned coefficients plus bias (plus noise), the informative coefficients drawn, the others zero")
    rep.rule("smote", "an artificial point lies between a minority point and one of its nearest neighbours in the minority class, and carries its label")
    rep.rule("range", "a number drawn between two limits uses these limits, in that order")
    n = 0
    for f in sorted(p.fns.values(), key=lambda f: f.key):
        if f.q == "mltk::datasets::make_blobs":
            if "vector" in f.params[0]["t"]:
                S, C, D = ("par", 0, ""), ("par", 1, ""), ("par", 2, "")
                blobs(rep, f, C, (("size", C), ("idx", S, A0), ("idx", ("idx", C, A0), A2), ("idx", D, A0), ("par", 3, ""), ("par", 5, "")))
            else:
                lo, hi = ("par", 4, ""), ("par", 5, "")
                centre = w(T(lo) + (T(hi) - T(lo)) * T(U))
                blobs(rep, f, centre, (("par", 1, ""), ("par", 0, ""), centre, ("par", 3, ""), ("par", 2, ""), ("par", 7, "")))
        elif f.q == "mltk::datasets::make_spirals":
            spirals(rep, f)
        elif f.q == "mltk::datasets::make_regression":
            regression(rep, f)
        elif f.sq == "mltk::SMOTE::operator()":
            smote(rep, f)
        elif f.q.startswith("mltk::random::") and f.n in ("intInRange", "floatInRange") and f.d.get("cfg"):
            v, ev = sym.value_of(f)
            v = bare(v)
            if v[0] == "call" and v[1] == "operator()" and v[2][0] == "obj" and len(v[2]) == 4 and v[3] == ("glob", "mltk::random::m_generator"):
                lim = v[2][2:]
                rep.put(True if lim == (("par", 0, ""), ("par", 1, "")) else False if not any(opaque(x) for x in lim) else None, "range", name(f), "the limits are %s" % [sym.show(x) for x in lim], f.loc(), key="range|" + name(f))
            else:
                rep.unk("range", name(f), "the draw is not followed: %s" % sym.show(v)[:100], f.loc())
    rep.floor("blobs", 1)
    rep.floor("range", 1)
    rep.floor("spirals", 1)
    rep.floor("regression", 1)
    rep.floor("smote", 1)
