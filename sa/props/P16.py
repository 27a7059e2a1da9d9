"""Splits and folds partition the data."""
import random
import ir, sym, numeval
from golden import *
from sym import ZERO, ONE

OPS = ("join", "insertPoint", "shuffle", "splitSample", "setName", "resetIndex", "sampling", "splitByClasses", "computeClassesDistribution", "copy")
STOP = tuple("mltk::Data::" + x for x in OPS)
FOLD, CLS, RND = ("par", 80, ""), ("par", 81, ""), ("par", 83, "")


class Run:
    """events of a function that hands points or parts to datasets"""

    def __init__(self, f, inner=()):
        self.f = f
        self.ev = ev = sym.Ev(f, this=("this",), stop=STOP + tuple(inner))
        ev.trace = []
        self.vals = {}
        self.ends = []

        def hook(e, info, b):
            if e.fn is not f:
                return
            for k, v in e.env.items():
                if isinstance(k, int) and isinstance(v, tuple) and (v not in self.vals.setdefault(k, [])):
                    self.vals[k].append(v)
            self.ends.append((info, b, dict(e.env), e))
        ev.hook = hook
        self.ret = ev.run()
        for k, v in ev.env.items():
            if isinstance(k, int) and isinstance(v, tuple) and v not in self.vals.setdefault(k, []):
                self.vals[k].append(v)

    def local(self, k):
        """the one dataset (list) a local stands for, or None"""
        vs = [v for v in self.vals.get(k, ()) if v[0] in ("call", "idx") or v[0] == "phi" and isinstance(v[2], tuple)]
        vs = {bare(v) for v in vs}
        return vs.pop() if len(vs) == 1 else None

    def res(self, t):
        def g(s):
            if s[0] == "loc" and isinstance(s[1], int):
                v = self.local(s[1])
                if v is not None and root(v)[0] == "call" and root(v)[1] in sym.DATASETS | {"mltk::Data::copy"}:
                    return v
            if s[0] == "phi" and s[2] in self.f.pid:
                k = self.f.pid[s[2]]
                return ("par", k, "")
            if s[0] == "par":
                return s[:2] + ("",)
            if s[0] == "size" and s[1][0] == "call" and s[1][1] == "mltk::Data::splitSample":
                return s[1][3]
            return s
        for _ in range(4):
            u = sym.rewrite(bare(norm(t)), g)
            if u == t:
                return t
            t = u
        return t


def bare(t):
    for _ in range(6):
        u = sym.rewrite(norm(t), lambda s: s[2] if s[0] == "phi" and isinstance(s[2], tuple) else s)
        if u == t:
            break
        t = u
    return t


def root(t):
    while t[0] in ("idx", "fld"):
        t = t[1]
    return t


def feeds(r):
    """(target, source, conditions, loops, function, node) of every point or part handed to a dataset"""
    out = []
    for kind, t, v, conds, loops, fn, node in r.ev.trace:
        if kind == "C" and t[1] in ("mltk::Data::join", "mltk::Data::insertPoint") and len(t) >= 4:
            src = t[3]
            if t[1].endswith("insertPoint") and len(t) >= 5 and root(t[4])[0] in ("bv",):
                src = None
            e = (bare(t[2]), src, tuple(conds), tuple(loops), fn, node, t)
            if not out or out[-1][:4] != e[:4] or out[-1][5] != e[5]:
                out.append(e)
    return out


def total(x, conds, loops, want):
    """how often an event with index x hits position want"""
    e = w(ifel(T(sym.cmp_("==", x, want)), 1, 0))
    for c in conds:
        e = sym.ite(c, e, ZERO)
    for bv, lo, hi in reversed(loops):
        if bv is None:
            return None
        if bv[0] != "bv":
            return None
        e = w(sumi(lo, hi, lambda k, e=e, bv=bv: T(sym.subst(e, {bv: w(k)}))))
    return e


def check(p, rep):
    rep.rule("parts", "splitting a dataset puts every point into exactly one part")
    rep.rule("balanced", "a stratified split deals the points of a class to the parts in turn")
    rep.rule("folds", "training and test set of a fold together hold every part exactly once")
    rep.rule("tested", "every part is the test set of exactly one fold")
    rep.rule("repeat", "repeated folds come from as many complete foldings as executions were asked for")
    for f in sorted(p.named("mltk::Data::splitSample"), key=lambda f: f.key):
        parts(rep, f)
    for f in sorted(p.named("mltk::Data::splitByClasses"), key=lambda f: f.key):
        byclass(rep, f)
    for f in sorted(p.named("mltk::validation::kfoldsplit"), key=lambda f: f.key):
        if len(f.params) == 5:
            folds(rep, f)
        else:
            repeated(rep, f)
    for f in sorted(p.named("mltk::validation::partTrainTest"), key=lambda f: f.key):
        pair(rep, f)
    rep.floor("parts", 2)
    rep.floor("folds", 2)


def small(f, nparts, extra=()):
    """values of the sample points: number of parts, positions, flags"""
    def bind(ne, t):
        rnd = lambda s: random.Random("%s|%s" % (s, ne.seed))
        F = rnd("F").choice([2, 3, 4, 5])
        if t == nparts:
            return float(F)
        if t == FOLD:
            return float(rnd("f").randrange(F))
        if t == RND:
            return float(rnd("i").randrange(F))
        for a, lo, hi in extra:
            if t == a:
                return float(rnd(repr(a)).randint(lo, hi))
        return None
    return bind


def contents(r, V):
    """dataset target -> [(index of the part, conditions, loops, node)] or None when not understood"""
    got = {}
    for tgt, src, conds, loops, fn, node, t in feeds(r):
        if fn is not r.f and fn.d.get("kind") != "lambda" and not fn.d.get("tmpl"):
            pass
        s = r.res(src) if src is not None else None
        conds = tuple(r.res(c) for c in conds)
        loops = tuple((b, r.res(lo) if lo is not None else None, r.res(hi) if hi is not None else None) for b, lo, hi in loops)
        item = None
        if s is not None and t[1].endswith("join") and s[0] == "idx" and s[1] == V:
            item = (s[2], conds, loops, node)
        elif s is not None and t[1].endswith("insertPoint"):
            # one point after the other of a whole part
            q = s
            if q[0] == "idx" and loops and q[2] == loops[-1][0]:
                b = q[1][1] if q[1][0] == "fld" and q[1][2] == "m_points" else q[1]
                if b[0] == "idx" and b[1] == V and sym.sub(sym.rewrite(loops[-1][2], lambda s: ("size", b) if s == ("size", ("fld", b, "m_points")) else s), ("size", b))[0] == "num" and not any(loops[-1][0] in set(sym.subterms(c)) for c in conds):
                    # a part that loses points counts as not handed over
                    item = (b[2], conds, loops[:-1], node) if loops[-1][1] == ZERO and loops[-1][2][0] == "size" else (sym.num(-1), conds, loops[:-1], node) if loops[-1][1][0] == "num" else None
        got.setdefault(tgt, []).append(item)
    return got


def the_split(r):
    vs = {t for kind, t, v, conds, loops, fn, node in r.ev.trace if kind == "C" and t[1] == "mltk::Data::splitSample"}
    return vs.pop() if len(vs) == 1 else None


def pairs(f):
    """locals handed, in this order, to the constructor of a train/test pair"""
    out = []
    for i in f.walk(f.body):
        n = f.N[i]
        if n["c"] == "CXXMemberCallExpr" and n.get("f") and n["f"]["fq"].split("::")[-1] in ("emplace_back", "push_back"):
            ids = []
            for a in n.get("a", []):
                for y in f.walk(a):
                    q = f.N[y]
                    if q["c"] == "DeclRefExpr" and q.get("dk") == "var" and "mltk::Data<" in str(q.get("t", "")) and "vector" not in str(q.get("t", "")):
                        ids.append(q["id"])
            if len(ids) == 2:
                out.append(tuple(ids))
    return out


def folds(rep, f):
    r = Run(f)
    V = the_split(r)
    if V is None:
        return rep.unk("folds", name(f), "no single split found", f.loc())
    V = r.res(V)
    got = contents(r, V)
    prs = pairs(f)
    if len(prs) != 1:
        return rep.unk("folds", name(f), "construction of the train/test pair not found", f.loc())
    nf = V[3]
    cnt = []
    for k in prs[0]:
        c = ZERO
        v = r.local(k)
        v = r.res(v) if v is not None else None
        if v is not None and v[0] == "idx" and v[1] == V:
            c = w(ifel(T(sym.cmp_("==", v[2], FOLD)), 1, 0))
        elif v is not None:
            c = None
        for tgt, items in got.items():
            if tgt[0] == "loc" and tgt[1] == k:
                for it in items:
                    e = None if it is None or not it[2] or it[2][0][0] != ("bv", 0) else total(it[0], it[1], it[2][1:], FOLD)
                    c = None if e is None or c is None else sym.add(c, e)
        cnt.append(c)
    if None in cnt or ZERO in cnt:
        return rep.unk("folds", name(f), "what goes into the training or the test set is not understood", f.loc())
    tr, te = cnt
    bind = small(f, nf)
    both = sym.subst(sym.add(tr, te), {("bv", 0): RND})
    ok, why = judge(both, T(ONE), bind=bind, ragged=False, trials=80)
    rep.put(ok, "folds", name(f), "part f is used %s times in fold #0 (%s)" % (sym.show(sym.add(tr, te))[:400], why), f.loc())
    lp = [it[2][0] for items in got.values() for it in items if it and it[2]]
    hi = lp[0][2] if lp else nf
    ok, why = judge(w(sumi(lp[0][1] if lp else 0, hi, lambda k: T(sym.subst(te, {("bv", 0): w(k)})))), T(ONE), bind=bind, ragged=False, trials=80)
    rep.put(ok, "tested", name(f), "part f is tested when %s (%s)" % (sym.show(te)[:300], why), f.loc())


def pair(rep, f):
    r = Run(f)
    V = the_split(r)
    if V is None:
        return rep.unk("folds", name(f), "no single split found", f.loc())
    V = r.res(V)
    got = contents(r, V)
    nf = V[3]
    cnt = {}
    for side in ("train", "test"):
        c = ZERO
        for tgt, items in got.items():
            if tgt[0] == "fld" and tgt[2] == side:
                for it in items:
                    e = None if it is None else total(it[0], it[1], it[2], FOLD)
                    c = None if e is None or c is None else sym.add(c, e)
        cnt[side] = c
    if None in cnt.values() or ZERO in cnt.values():
        return rep.unk("folds", name(f), "what goes into the training or the test set is not understood", f.loc())
    bind = small(f, nf)
    both = sym.add(cnt["train"], cnt["test"])
    ok, why = judge(both, T(ONE), bind=bind, ragged=False, trials=80)
    rep.put(ok, "folds", name(f), "part f is used %s times (%s)" % (sym.show(both)[:400], why), f.loc())
    ok, why = judge(w(sumi(0, nf, lambda k: T(sym.subst(cnt["test"], {FOLD: w(k)})))), T(ONE), bind=bind, ragged=False, trials=80)
    rep.put(ok, "tested", name(f), "parts in the test set: %s (%s)" % (sym.show(cnt["test"])[:300], why), f.loc())


def mode(t):
    """tests of the dataset's type become one flag"""
    def g(s):
        if s[0] == "cmp" and s[1] in ("==", "!=") and any(x[0] == "str" for x in s[2:] if isinstance(x, tuple)) and any(x[0] == "fld" and x[2] == "type" for y in s[2:] for x in sym.subterms(y)):
            return CLS if s[1] == "==" else sym.not_(CLS)
        return s
    return sym.rewrite(t, g)


def parts(rep, f):
    r = Run(f)
    N = ("size", ("this",))
    nparts = ("par", 0, "")

    def canon(t):
        t = r.res(t)

        def g(s):
            if s == ("call", "mltk::Data::copy", ("this",)):
                return ("this",)
            if s[0] == "par" and s[1] == 0:
                return nparts
            if s in (("size", ("fld", ("this",), "m_points")), ("fld", ("this",), "m_size")):
                return N
            if s[0] == "size" and s[1][0] == "loc" and sized.get(s[1][1]):
                return nparts
            return s
        return mode(sym.rewrite(sym.rewrite(t, g), g))
    # containers of parts: vectors of datasets created with as many entries as parts
    sized = {}
    for k, d in f.vars.items():
        vs = [v for v in r.vals.get(k, ()) if v[0] == "obj" and len(v) > 2]
        if vs and sym.rewrite(vs[0][2], lambda s: nparts if s[0] == "par" and s[1] == 0 else s) == nparts:
            sized[k] = True
    # containers that hold every point of the dataset once
    whole = {}
    for kind, t, v, conds, loops, fn, node in r.ev.trace:
        if kind == "K" and t[0] == "loc" and t[1] not in sized:
            whole.setdefault(t[1], []).append((tuple(canon(c) for c in conds), loops))
    full = {}
    for k, es in whole.items():
        if len(es) == 1 and len(es[0][1]) == 1 and es[0][1][0][0] is not None:
            bv, lo, hi = es[0][1][0]
            if lo == ZERO and canon(hi) == N:
                full[k] = es[0][0]
    P = ("par", 82, "")
    tot, bad = ZERO, None
    fe = [e for e in feeds(r) if e[0][0] == "idx" and root(e[0])[0] == "loc"]
    for tgt, src, conds, loops, fn, node, t in fe:
        if src is None:
            bad = "source"
            continue
        s = canon(src)
        cs = [canon(c) for c in conds]
        ls = [(b, canon(lo), canon(hi)) if b is not None else (None, None, None) for b, lo, hi in loops]
        x = None
        q = s
        while q[0] == "fld" and q[2] in ("second", "first"):
            q = q[1]
        if q[0] == "idx":
            b = q[1]
            if b in (("this",), ("fld", ("this",), "m_points")):
                x = q[2]
            elif b[0] == "loc" and b[1] in full and set(full[b[1]]) <= set(cs):
                x = q[2]
                ls = [(bv, lo, N if hi == ("size", b) else hi) for bv, lo, hi in ls]
        e = total(x, cs, ls, P) if x is not None else None
        if e is None:
            bad = "source %s" % sym.show(s)[:120]
            continue
        tot = sym.add(tot, e)
    loc = f.loc()
    if bad or not fe:
        rep.unk("parts", name(f), "which points are handed out is not understood (%s)" % (bad or "no insertion"), loc)
    else:
        def bind(ne, t):
            rnd = lambda s: random.Random("%s|%s" % (s, ne.seed))
            n = rnd("n").choice([2, 3, 4, 5, 6, 7])
            if t == N:
                return float(n)
            if t == nparts:
                return float(rnd("F").choice([1, 2, 3]))
            if t == P:
                return float(rnd("p").randrange(n))
            if t == CLS or t[0] == "par" and t[1] == 1:
                return float(rnd(repr(t[:2])).randrange(2))
            return None
        ok, why = judge(tot, T(ONE), bind=bind, ragged=False, trials=120)
        rep.put(ok, "parts", name(f), "point p goes into %s parts (%s)" % (sym.show(tot)[:500], why), loc)
    balanced(rep, f, r, nparts, canon)


def balanced(rep, f, r, nparts, canon):
    """stratified: the part of a point is a running counter of its label, modulo the number of parts;
    not stratified: the parts differ by at most one point"""
    for kind, t, v, conds, loops, fn, node in r.ev.trace:
        if kind != "C" or t[1] != "mltk::Data::insertPoint" or len(t) < 4 or len(loops) != 1 or loops[0][0] is None:
            continue
        tgt, src = t[2], t[3]
        while tgt[0] == "phi" and isinstance(tgt[2], tuple):
            tgt = tgt[2]
        if tgt[0] != "idx":
            continue
        cs = [canon(c) for c in conds]
        if not any(CLS in set(sym.subterms(c)) and any(s[0] == "par" and s[1] == 1 for s in sym.subterms(sym.rewrite(("and",) + tuple(cs), lambda s: s))) for c in cs):
            continue
        x = tgt[2]
        loc = fn.loc(node)
        if any(sym.not_(CLS) in (c,) + tuple(c[1:] if c[0] == "or" else ()) for c in cs):
            spread(rep, f, x, cs, loops[0], nparts, canon, loc)
            continue
        if x[0] != "call" or x[1] != "mod" or r.res(x[3]) != nparts and canon(x[3]) != nparts:
            rep.unk("balanced", name(f), "the part is %s" % sym.show(x)[:200], loc)
            continue
        c = x[2]
        cell = c[2] if c[0] == "phi" else None
        ends = [e for e in r.ends if e[0].get("bv") == loops[0][0]]
        nxt = None
        if isinstance(cell, tuple):
            for info, b, env, e in ends:
                keep = e.env
                e.env = env
                val = next((vv for k, vv in env.items() if sym.cell(k) and (k == cell or k[0] == "comp" and k[1] == cell)), None)
                e.env = keep
                if val is not None:
                    nxt = val
        elif isinstance(cell, int):
            for info, b, env, e in ends:
                if cell in env:
                    nxt = env[cell]
        if nxt is None:
            rep.unk("balanced", name(f), "the counter %s is not understood" % sym.show(c)[:160], loc)
            continue
        d = sym.sub(nxt, c)
        rep.put(True if d == ONE else False if d[0] == "num" else None, "balanced", name(f), "the counter of a label advances by %s for each of its points" % sym.show(d)[:200], loc)


def spread(rep, f, x, conds, loop, nparts, canon, loc):
    bv, lo, hi = loop
    x, lo, hi = canon(x), canon(lo), canon(hi)
    N = ("size", ("this",))
    if lo != ZERO or hi != N:
        return rep.unk("balanced", name(f), "points %s..%s" % (sym.show(lo), sym.show(hi)), loc)
    I = ("par", 84, "")
    x = norm(sym.subst(x, {bv: I}))
    for n in range(1, 13):
        for k in range(1, 6):
            got = [0] * k
            for i in range(n):
                ne = numeval.NumEval(1, 2, bind=lambda ne, t: {N: float(n), nparts: float(k), I: float(i)}.get(t))
                try:
                    q = ne.ev(x)
                except (numeval.Undefined, numeval.Undecided) as e:
                    return rep.unk("balanced", name(f), "the part is %s (%s)" % (sym.show(x)[:200], e), loc)
                if q != int(q) or not 0 <= q < k:
                    return rep.bad("balanced", name(f), "point %d of %d goes to part %s of %d" % (i, n, q, k), loc)
                got[int(q)] += 1
            if max(got) - min(got) > 1:
                return rep.bad("balanced", name(f), "%d points in %d parts: %s" % (n, k, got), loc)
    rep.ok("balanced", name(f), "the part of point i is %s" % sym.show(x)[:200], loc)


def byclass(rep, f):
    r = Run(f)
    fe = [e for e in feeds(r) if e[0][0] == "idx"]
    if not fe:
        return rep.unk("parts", name(f), "no insertion", f.loc())
    N = ("size", ("this",))
    done = False
    for tgt, src, conds, loops, fn, node, t in fe:
        if src is None or len(loops) != 1:
            continue
        g = lambda t: sym.rewrite(r.res(t), lambda s: ("this",) if s == ("call", "mltk::Data::copy", ("this",)) else s)
        s, bv, lo, hi = g(src), loops[0][0], g(loops[0][1]) if loops[0][1] else None, g(loops[0][2]) if loops[0][2] else None
        pt = ("idx", ("this",), bv)
        if s != pt or hi != N:
            continue
        done = True
        # the only hand-out depends on what the parts hold so far: some points are dropped
        filled = len(fe) == 1 and any(s[0] == "phi" and s[2][0] == "size" for c in conds for s in sym.subterms(c))
        rep.put(True if lo == ZERO and not conds else False if filled or lo[0] == "num" and not conds or conds and all(not opaque(c) for c in conds) and lo == ZERO else None, "parts", name(f), "points %s..%s are handed out when %s" % (sym.show(lo), sym.show(hi), [sym.show(c)[:80] for c in conds] or "always"), fn.loc(node))
        i = g(tgt[2])
        rep.put(same_class(i, pt), "parts", name(f) + " class", "a point goes to part %s" % sym.show(i)[:200], fn.loc(node))
        break
    if not done:
        rep.unk("parts", name(f), "which points are handed out is not understood", f.loc())


def same_class(i, pt):
    """the position of the point's label in the class list"""
    ss = list(sym.subterms(i))
    cs = ("fld", ("this",), "m_classes")
    if i[0] == "fst" or any(s[0] == "fst" for s in ss):
        b = next(s for s in ss if s[0] == "fst")
        lab = ("fld", pt, "y") in set(ss)
        lst = any(s[0] == "idx" and s[1] == cs for s in ss)
        if i == b:
            return True if lab and lst else None
        # a function of that position: has to be the position itself
        A = ("par", 85, "")
        j = sym.rewrite(i, lambda s: A if s == b else s)
        if lab and lst and not opaque(j):
            r = judge(j, T(A), bind=lambda ne, t: float(random.Random("c%s" % ne.seed).randrange(4)) if t == A else None, ragged=False)[0]
            return r
        return None
    return None


def repeated(rep, f):
    r = Run(f, inner=("mltk::validation::kfoldsplit",))
    cs = [(t, conds, loops, fn, node) for kind, t, v, conds, loops, fn, node in r.ev.trace if kind == "C" and t[1] == "mltk::validation::kfoldsplit"]
    q = next((("par", k, "") for k, x in enumerate(f.params) if x["n"] == "qtde"), None)
    if len(cs) != 1 or q is None or len(cs[0][2]) != 1 or cs[0][2][0][0] is None:
        return rep.unk("repeat", name(f), "no single call of the folding in a loop", f.loc())
    t, conds, loops, fn, node = cs[0]
    bv, lo, hi = loops[0]
    lo, hi = r.res(lo), r.res(hi)
    cnt = w(sumi(lo, hi, lambda k: T(ONE)))
    ok, why = judge(cnt, T(q), bind=lambda ne, t: float(random.Random("q%s" % ne.seed).randrange(1, 6)) if t[0] == "par" and t[1] == q[1] else None, ragged=False)
    if conds:
        ok = None
    rep.put(ok, "repeat", name(f), "the folding is done for %s..%s" % (sym.show(lo), sym.show(hi)), fn.loc(node))
    rep.put(True if r.res(t[2]) in (("par", 0, ""), ("call", "mltk::Data::copy", ("par", 0, ""))) and t[3][:2] == ("par", 1) else False if t[3][0] == "par" and t[3][:2] != ("par", 1) else None, "repeat", name(f) + " arguments", "each execution folds %s into %s parts" % (sym.show(t[2]), sym.show(t[3])), fn.loc(node))
