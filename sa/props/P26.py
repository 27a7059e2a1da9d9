"""Feature selection eliminates the features its ranking puts last."""
import random
import ir, sym, numeval
from golden import *
from sym import ZERO, ONE

DATA = ("fld", ("this",), "samples")
STOP = tuple("mltk::Data::" + x for x in ("copy", "removeFeatures", "dim", "size")) + (
    "mltk::validation::kfold", "mltk::classifier::Classifier::getSolution", "mltk::Learner::setVerbose", "mltk::Learner::setSamples",
    "mltk::classifier::Classifier::setGamma", "mltk::classifier::Classifier::setSolution", "mltk::Learner::setSeed")
NDIM, NPTS, IDX, FINAL, DEPTH, JUMP, LEVEL = [("par", 60 + k, "") for k in range(7)]
FILTERS = {"Golub": 1, "Fisher": 2}


def bare(t):
    def g(s):
        s = norm1(s)
        if s[0] == "phi" and isinstance(s[2], tuple):
            return s[2]
        if s[0] == "out" and isinstance(s[3], tuple) and s[3][0] in ("idx", "fld", "loc", "par", "num", "poly"):
            return s[3]
        return s
    for _ in range(6):
        u = sym.rewrite(t, g)
        if u == t:
            break
        t = u
    return t


def canon(t):
    def g(s):
        if s[0] == "call" and s[1] == "mltk::Data::dim":
            return NDIM if s[2] == DATA else s
        if s[0] == "call" and s[1] == "mltk::Data::size":
            return NPTS if s[2] == DATA else s
        if s == ("size", DATA):
            return NPTS
        if s == DIM(DATA):
            return NDIM
        if s == ("fld", ("this",), "final_dim"):
            return FINAL
        if s == ("fld", ("this",), "depth"):
            return DEPTH
        if s == ("fld", ("this",), "jump"):
            return JUMP
        return s
    return sym.rewrite(bare(t), g)


class Run:
    def __init__(self, f):
        self.f = f
        self.ev = ev = sym.Ev(f, this=("this",), stop=STOP)
        ev.trace = []
        self.ends = []
        ev.hook = lambda e, info, b: self.ends.append((info, b, dict(e.env), e)) if e.fn is f else None
        self.ret = ev.run()


def points():
    """sample points: a dimension, a number of points, labels of both classes"""
    def bind(ne, t):
        if t == NDIM or t[0] == "call" and t[1] == "mltk::Data::dim":
            return 4.0
        if t == NPTS or t[0] == "size" and t[1] == DATA:
            return 8.0
        if t == IDX:
            return float(random.Random("i%s" % ne.seed).randrange(4))
        if t[0] == "fld" and t[2] == "y":
            k = ne.addr(t)
            j = k[1][2] if k[1][0] == "idx" else 0
            return -1.0 if int(j) % 2 == 0 or (int(j) + ne.seed) % 3 == 0 else 1.0
        return None
    return bind


def same_order(key, spec, sign, bind):
    """does the key put features in the order of the specification (sign -1: in reverse order)?"""
    pts = []
    for s in range(60):
        ne = numeval.NumEval(s, 4, -1.7, 2.0, bind)
        ne2 = numeval.NumEval(s, 4, -1.7, 2.0, bind)
        try:
            pts.append((ne.ev(spec), ne2.ev(key)))
        except numeval.Undefined:
            continue
        except numeval.Undecided as e:
            return None, str(e)
        except (OverflowError, ZeroDivisionError):
            continue
    pts = [(a, b) for a, b in pts if not isinstance(a, complex) and not isinstance(b, complex)]
    if len(pts) < 6:
        return None, "undefined at the sample points"
    for i, (a, x) in enumerate(pts):
        for b, y in pts[:i]:
            if abs(a - b) > 1e-6 * max(1, abs(a)) and (a - b) * (x - y) * sign <= 0:
                return False, "importance %.4g and %.4g have keys %.4g and %.4g" % (a, b, x, y)
    return True, "%d points" % len(pts)


def spec_filter(power):
    S = T(DATA)
    i = T(IDX)
    neg = lambda k: eq(S[k].y, -1)
    n = T(NPTS)
    cnt = [sumi(0, n, lambda k: ifel(neg(k), 0, 1)), sumi(0, n, lambda k: ifel(neg(k), 1, 0))]
    pick = [lambda k, v: ifel(neg(k), 0, v), lambda k, v: ifel(neg(k), v, 0)]
    avg = [sumi(0, n, lambda k, p=p: p(k, S[k][i])) / c for p, c in zip(pick, cnt)]
    sd = [sqrt(sumi(0, n, lambda k, p=p, a=a: p(k, (S[k][i] - a) * (S[k][i] - a))) / (c - 1)) for p, c, a in zip(pick, cnt, avg)]
    d = avg[0] - avg[1]
    top = vabs(d) if power == 1 else d * d
    return w(top / (sd[0] + sd[1]))


def sorts(r):
    """(container local, comparator value, descending?) of the sort calls"""
    f, out = r.f, []
    for i in f.walk(f.body):
        n = f.N[i]
        if n["c"] != "CallExpr" or n.get("f", {}).get("fq", "") not in ("std::sort", "std::stable_sort"):
            continue
        a = n.get("a", [])
        loc = {f.N[y]["id"] for x in a[:2] for y in f.walk(x) if f.N[y]["c"] == "DeclRefExpr" and f.N[y].get("dk") == "var"}
        if len(loc) != 1 or len(a) != 3:
            continue
        g = None
        for y in f.walk(a[2]):
            q = f.N[y]
            if q["c"] == "DeclRefExpr" and q.get("fk") in f.p.fns:
                g = f.p.fns[q["fk"]]
            if q["c"] == "LambdaExpr":
                fk = q.get("lk") or (q.get("specs") or ["?"])[0]
                g = f.p.fns.get(fk, g)
        out.append((loc.pop(), g, i))
    return out


def less(g):
    """(key of the first operand, ascending?) of a comparator"""
    v = sym.value_of(g)[0]
    v = norm(v) if v is not None else None
    if v is None:
        return None
    if v[0] == "ite" and v[2:] == (ONE, ZERO):
        v = v[1]
    if v[0] != "cmp" or v[1] not in ("<", ">", "<=", ">="):
        return None
    A, B = ("par", 0, ""), ("par", 1, "")
    if v[1] in ("<=", ">="):
        return "weak"
    has = lambda t, x: x in set(sym.subterms(t))
    x, y = (v[2], v[3]) if v[1] == "<" else (v[3], v[2])
    if has(x, A) and not has(x, B) and sym.subst(x, {A: B}) == y:
        return x, True
    if has(x, B) and not has(x, A) and sym.subst(x, {B: A}) == y:
        return sym.subst(x, {B: A}), False
    return None


def ranking(rep, r, who, spec, total, bind):
    """the container that is sorted: its key field is the importance, its name field the name"""
    f = r.f
    ss = [(c, less(g), i) for c, g, i in sorts(r) if g is not None]
    ss = [s for s in ss if s[1] is not None]
    if len(ss) != 1:
        rep.unk("order", who, "no single sort with a comparator", f.loc())
        return None
    c, ks, node = ss[0]
    loc = f.loc(node)
    if ks == "weak":
        rep.bad("order", who, "the comparator is not a strict order (equal elements compare as smaller)", loc)
        return None
    key, asc = ks
    stores = {}
    for k, t, v, conds, loops, fn, n in r.ev.trace:
        if k != "W" or not isinstance(t, tuple) or t[0] != "fld" or t[1][0] != "idx" or t[1][1][:2] != ("loc", c):
            continue
        stores.setdefault(t[2], []).append((t[1][2], v, conds, loops, fn, n))
    flds = {s[2] for s in sym.subterms(key) if s[0] == "fld" and s[1] == ("par", 0, "")}
    names = [k for k in stores if k not in flds]
    if len(flds) != 1 or not flds <= set(stores) or any(len(stores[k]) != 1 for k in flds):
        rep.unk("order", who, "the key of the sort is %s" % sym.show(key)[:120], loc)
        return None
    fld = flds.pop()
    x, v, conds, loops, fn, n = stores[fld][0]
    if not loops or loops[-1][0] is None or x != loops[-1][0] or canon(loops[-1][1]) != ZERO or not total(r, loops[-1][2]):
        rng = loops and loops[-1][0] is not None and x == loops[-1][0] and not conds
        short = rng and (canon(loops[-1][1])[0] == "num" and canon(loops[-1][1]) != ZERO or total(r, sym.add(loops[-1][2], ONE)))
        rep.put(False if short else None, "importance", who, "elements %s of the ranking get a key in %s" % (sym.show(x), [sym.show(l[2])[:60] for l in loops if isinstance(l[2], tuple)]) if not short else "elements %s..%s only get a key" % (sym.show(loops[-1][1]), sym.show(loops[-1][2])[:100]), fn.loc(n))
        return None
    v = canon(sym.subst(v, {x: IDX}))
    src = r.source(v) if hasattr(r, "source") else v
    k = norm(sym.rewrite(key, lambda s: src if s == ("fld", ("par", 0, ""), fld) else s))
    sign = 1 if asc else -1
    ok, why = same_order(k, spec, 1, bind)
    if ok is False and same_order(k, spec, -1, bind)[0]:
        ok, sign, why = True, -sign, "reversed key"
    if ok is False and opaque(k):
        ok = None
    rep.put(ok, "importance", who, "the key of feature i is %s (%s)" % (sym.show(k)[:500], why), fn.loc(n))
    nm = None
    for q in names:
        if len(stores[q]) != 1:
            continue
        x2, v2, c2, l2, fn2, n2 = stores[q][0]
        if not l2 or l2[-1][0] is None or x2 != l2[-1][0]:
            continue
        y = bare(v2)
        full = canon(l2[-1][1]) == ZERO and total(r, l2[-1][2]) and not c2[len(conds):]
        here = lambda b: r.namesof(b)
        cells = [t for t in sym.subterms(y) if t[0] == "idx" and (t[1][0] == "fld" and t[1][2] == "fnames" or t[1][0] == "loc" and here(t[1]))]
        if not cells:
            # a number that is no name: only a function of the position
            if nm is None and not opaque(y) and x2 in set(sym.subterms(y)) and not any(t[0] in ("idx", "fld", "size") for t in sym.subterms(y)):
                nm = q
                rep.bad("name", who, "element %s is named %s" % (sym.show(x2), sym.show(y)[:100]), fn2.loc(n2))
            continue
        nm = q
        ok = None
        if len(cells) == 1 and y == cells[0]:
            if here(y[1]):
                ok = judge(sym.subst(y[2], {x2: IDX}), T(IDX), bind=lambda ne, t: float(random.Random("n%s" % ne.seed).randrange(5)) if t == IDX else None, ragged=False)[0]
            elif r.stale(y[1]):
                ok = False
        if ok and not full:
            ok = None
        rep.put(ok, "name", who, "element %s is named %s" % (sym.show(x2), sym.show(y)[:100]), fn2.loc(n2))
    if nm is None:
        rep.unk("name", who, "the name of a ranked feature is not understood", loc)
        return None
    return c, nm, sign, node


def removals(r, rank):
    """(position in the list, element of the ranking, loops, conditions, event) of what is handed to removeFeatures"""
    c, nm = rank[0], rank[1]
    f, out = r.f, []
    lists = set()
    calls = [e for e in r.ev.trace if e[0] == "C" and e[1][1] == "mltk::Data::removeFeatures"]
    for i in f.walk(f.body):
        n = f.N[i]
        if n["c"] == "CXXMemberCallExpr" and n.get("f", {}).get("fq", "").endswith("::removeFeatures"):
            for y in f.walk(n["a"][0]):
                if f.N[y]["c"] == "DeclRefExpr" and f.N[y].get("dk") == "var":
                    lists.add(f.N[y]["id"])
    for k, t, v, conds, loops, fn, n in r.ev.trace:
        if k == "W" and isinstance(t, tuple) and t[0] == "idx" and t[1][:1] == ("loc",) and t[1][1] in lists and isinstance(v, tuple):
            out.append((t[2], bare(v), loops, conds, fn, n))
    direct = []
    for e in calls:
        a = e[1][3] if len(e[1]) > 3 else None
        if a is not None and a[0] in ("list", "obj"):
            vs = [bare(s) for s in sym.subterms(a) if bare(s)[0] == "fld" and bare(s)[2] == nm and bare(s)[1][0] == "idx" and bare(s)[1][1][:2] == ("loc", c)]
            if len(set(vs)) == 1:
                direct.append((None, vs[0], e[4], e[3], e[5], e[6]))
    return (out or direct), calls


def filters(rep, f, cls):
    who = ir.short(f.q) if hasattr(f, "q") else name(f)
    who = name(f)
    r = Run(f)
    r.namesof = lambda b: bare(b) == ("fld", DATA, "fnames") or b[0] == "loc" and r.is_names(b)
    r.stale = lambda b: False
    r.is_names = lambda b: any(k == "W" and isinstance(t, tuple) and t[:2] == b[:2] and isinstance(v, tuple) and bare(v) == ("fld", DATA, "fnames") for k, t, v, *_ in r.ev.trace)
    bind = points()
    rank = ranking(rep, r, who, spec_filter(FILTERS[cls]), lambda r, hi: canon(hi) == NDIM, bind)
    if rank is None:
        return
    c, nm, sign, snode = rank
    rem, calls = removals(r, rank)
    rem = [x for x in rem if x[1][0] == "fld" and x[1][2] == nm and x[1][1][0] == "idx" and x[1][1][1][:2] == ("loc", c)]
    if len(rem) != 1 or not calls:
        return rep.unk("eliminated", who, "which features are handed to removeFeatures is not understood", f.loc())
    pos, v, loops, conds, fn, node = rem[0]
    e = v[1][2]
    ok, why = None, ""
    if loops and loops[-1][0] is not None and all(x[0] == loops[-1][0] or True for x in loops) and len(loops) == 1:
        bv, lo, hi = loops[0]
        lo, hi, e = canon(lo), canon(hi), canon(e)
        ok = True
        for D in range(2, 6):
            for F in range(1, D + 1):
                b = lambda ne, t: {NDIM: float(D), FINAL: float(F)}.get(t)
                try:
                    a, z = [int(numeval.NumEval(1, 2, bind=b).ev(x)) for x in (lo, hi)]
                    got = []
                    for q in range(a, z):
                        ne = numeval.NumEval(1, 2, bind=b)
                        ne.bv[bv] = q
                        got.append(int(ne.ev(e)))
                except (numeval.Undefined, numeval.Undecided) as x:
                    ok, why = None, str(x)
                    break
                want = set(range(D - F)) if sign == 1 else set(range(F, D))
                if ok and (set(got) != want or len(got) != len(want)):
                    ok, why = False, "with %d features of which %d stay, ranks %s are eliminated" % (D, F, got)
            if ok is None:
                break
    after = sequence(r, snode, node)
    if ok and after is False:
        ok, why = False, "the ranking is not sorted before"
    rep.put(ok, "eliminated", who, "feature at rank %s of the %s ranking in %s (%s)" % (sym.show(e), "ascending" if sign == 1 else "descending", [(sym.show(l[1]), sym.show(l[2])) for l in loops if l[0] is not None], why), fn.loc(node))
    # every name written is removed from the copy that is returned: the call stands in the same loop or after it
    t, cl, fn2, n2 = calls[-1][1], calls[-1][4], calls[-1][5], calls[-1][6]
    copied = any(k == "C" and x[1] == "mltk::Data::copy" and x[2] == t[2] and bare(x[3]) == DATA for k, x, *_ in r.ev.trace)
    rep.put(True if copied and (not cl or cl == loops) else None, "removed", who, "removeFeatures on a copy of the samples %s" % ("in the loop" if cl else "after the loop"), fn2.loc(n2))


def sequence(r, a, b):
    """does node a come before node b in the function body?"""
    return r.f.N[a].get("l", 0) <= r.f.N[b].get("l", 0) if "l" in r.f.N[a] else None


def rfe(rep, f):
    who = name(f)
    r = Run(f)
    tr = r.ev.trace
    calls = [e for e in tr if e[0] == "C" and e[1][1] == "mltk::Data::removeFeatures"]
    if not calls:
        return rep.unk("eliminated", who, "removeFeatures is not called", f.loc())
    cur = calls[-1][1][2]

    def last(b):
        vs = {bare(v) for k, t, v, *_ in tr if k == "W" and isinstance(t, tuple) and t[:2] == b[:2] and t[0] == "loc" and isinstance(v, tuple) and bare(v)[0] in ("fld",)}
        if not vs:
            vs = {bare(env[b[1]]) for info, bd, env, e in r.ends if isinstance(env.get(b[1]), tuple)}
        return vs.pop() if len(vs) == 1 else None
    r.namesof = lambda b: bare(b) == ("fld", cur, "fnames") or b[0] == "loc" and last(b) == ("fld", cur, "fnames")
    r.stale = lambda b: bare(b) == ("fld", DATA, "fnames") and cur != DATA or b[0] == "loc" and last(b) == ("fld", DATA, "fnames")
    WV = ("fld", ("fld", ("fld", ("this",), "classifier"), "solution"), "w")

    def source(v):
        def g(s):
            if s[0] == "loc":
                q = last(s)
                return q if q is not None else s
            return s
        return norm(bare(sym.rewrite(v, g)))
    r.source = source
    total = lambda r, hi: bare(hi) in (("call", "mltk::Data::dim", cur), ("size", ("fld", cur, "fnames"))) or bare(hi) == DIM(cur)
    spec = w(vabs(T(WV)[T(IDX)]))

    def bind(ne, t):
        if t == IDX:
            return float(random.Random("i%s" % ne.seed).randrange(4))
        return None
    rank = ranking(rep, r, who, spec, total, bind)
    if rank is None:
        return
    c, nm, sign, snode = rank
    rem, calls = removals(r, rank)
    rem = [x for x in rem if x[1][0] == "fld" and x[1][2] == nm and x[1][1][0] == "idx" and x[1][1][1][:2] == ("loc", c)]
    lv = level(r)
    if len(rem) != 1 or lv is None:
        return rep.unk("eliminated", who, "which features are handed to removeFeatures is not understood", f.loc())
    pos, v, loops, conds, fn, node = rem[0]
    if not loops or loops[-1][0] is None:
        return rep.unk("eliminated", who, "loop of the removal not understood", fn.loc(node))
    bv, lo, hi = loops[-1]

    def lc(t):
        return sym.rewrite(canon(sym.rewrite(t, lambda s: LEVEL if s[0] == "phi" and s[2] == lv[0] else s)), lambda s: LEVEL if s[0] == "phi" and s[2] == lv[0] else s)
    lo, hi, e, pos, nxt = lc(lo), lc(hi), lc(v[1][2]), lc(pos), lc(lv[1])
    ok, why = True, ""
    for D in range(2, 5):
        for L in range(0, D):
            for st in (1, 2, 3):
                cd = 9 - L
                b = lambda ne, t: {DEPTH: float(D), LEVEL: float(L), JUMP: float(st), ("call", "mltk::Data::dim", cur): float(cd), DIM(cur): float(cd), NDIM: 9.0}.get(t)
                try:
                    ev = lambda x: int(numeval.NumEval(1, 2, bind=b).ev(x))
                    a, z = ev(lo), ev(hi)
                    got, cells = [], []
                    for q in range(a, z):
                        ne = numeval.NumEval(1, 2, bind=b)
                        ne.bv[bv] = q
                        got.append(int(ne.ev(e)) if sign == 1 else cd - 1 - int(ne.ev(e)))
                        cells.append(int(ne.ev(pos)))
                    n2 = ev(nxt)
                except (numeval.Undefined, numeval.Undecided) as x:
                    ok, why = None, str(x)
                    break
                k = min(L + st, D) - L
                want = list(range(k))
                if ok and (sorted(got) != want or sorted(cells) != list(range(L, L + k))):
                    ok, why = False, "at level %d of %d with jump %d, ranks %s go to positions %s of the list" % (L, D, st, got, cells)
                if ok and n2 != L + k:
                    ok, why = False, "at level %d of %d with jump %d the next level is %d" % (L, D, st, n2)
    rep.put(ok, "eliminated", who, "rank %s goes to position %s for %s..%s, next level %s (%s)" % (sym.show(e), sym.show(pos), sym.show(lo), sym.show(hi), sym.show(nxt)[:120], why), fn.loc(node))
    # goes on exactly while the requested number of features has not been removed
    cs = [lc(x) for x in calls[-1][3]]
    parts = []
    for x in cs:
        parts += list(x[1:]) if x[0] == "and" else [x]
    stop = [x for x in parts if x[0] == "cmp" and LEVEL in set(sym.subterms(x)) and DEPTH in set(sym.subterms(x)) and not opaque(x) and all(y in (LEVEL, DEPTH) for y in sym.subterms(x) if y[0] == "par")]
    if not stop:
        rep.unk("stops", who, "no comparison of the level with the depth", fn.loc(node))
    else:
        ok = True
        for D in range(1, 5):
            for L in range(0, 6):
                b = lambda ne, t: {DEPTH: float(D), LEVEL: float(L)}.get(t)
                on = all(numeval.NumEval(1, 2, bind=b).ev(x) for x in stop)
                if bool(on) != (L < D):
                    ok = False
        rep.put(ok, "stops", who, "features are removed while %s" % [sym.show(x) for x in stop], calls[-1][5].loc(calls[-1][6]))


def level(r):
    """(variable, value after the iteration) of the counter the removal starts from"""
    for info, b, env, e in r.ends:
        if info.get("bv") is not None:
            continue
        for k, v in env.items():
            if isinstance(k, int) and isinstance(v, tuple) and any(s == ("fld", ("this",), "depth") for s in sym.subterms(bare(v))) and any(s[0] == "phi" and s[2] == k for s in sym.subterms(v)):
                return k, v
    return None


def check(p, rep):
    rep.rule("importance", "features are ranked by the documented score")
    rep.rule("order", "the comparator of the ranking is a strict order of one key")
    rep.rule("name", "every ranked score carries the name of its own feature")
    rep.rule("eliminated", "exactly the features with the lowest scores are eliminated, as many as requested")
    rep.rule("removed", "the eliminated features are removed from a copy of the samples")
    rep.rule("stops", "recursive elimination goes on exactly until the requested number is removed")
    for cls in ("Golub", "Fisher"):
        for f in sorted(p.named("mltk::featselect::%s::selectFeatures" % cls), key=lambda f: f.key):
            filters(rep, f, cls)
    for f in sorted(p.named("mltk::featselect::RFE::selectFeatures"), key=lambda f: f.key):
        rfe(rep, f)
    rep.floor("importance", 3)
