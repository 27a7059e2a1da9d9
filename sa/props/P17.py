"""K-means assigns to the nearest centre and moves centres to the mean."""
import ir, sym
from golden import *
from sym import ZERO, ONE

NS = "mltk::clusterer::KMeans::"
M = ("fld", ("this",), "m_centers")
CL = ("fld", ("this",), "m_clusters")
ST = (NS + "assign_clusters", NS + "compute_centers", NS + "clusters_variance")
PTS = ("fld", ("fld", ("this",), "samples"), "m_points")


def live(t):
    """values a member has inside a loop are those of the member"""
    def g(s):
        if s[0] == "phi" and isinstance(s[2], tuple) and s[2][0] in sym.ADDR and s[2][0] != "loc":
            return norm(live(s[2]))
        if s[0] == "phi" and isinstance(s[2], tuple) and s[2][0] == "size":
            return s[2]
        return s
    for _ in range(3):
        u = sym.rewrite(t, g)
        if u == t:
            break
        t = u
    return norm(t)


def trace(f, stop=()):
    ev = sym.Ev(f, this=("this",), stop=stop)
    ev.trace = []
    ev.hooked = []
    ev.hook = lambda e, info, b: ev.hooked.append((e, info, b, dict(e.env)))
    ev.ret = ev.run()
    return ev


def chosen(t):
    """there is at least one centre, so the nearest one exists"""
    def g(s):
        if s[0] == "cmp" and s[1] == "<" and s[2][0] == "arg" and s[3] == s[2][5]:
            return ONE
        if s[0] == "cmp" and s[1] == "<=" and s[2] == ZERO and s[3][0] == "arg":
            return ONE
        return s
    return sym.rewrite(t, g)


def eucl(a, b):
    return sqrt(sumi(0, size(a), lambda j: (a[j] - b[j]) ** 2))


def assign(p, rep, g, f, d):
    """assign_clusters(points)"""
    who = name(f)
    P = par(0)
    mc = T(M)
    near = lambda i: argm("min", 0, size(mc), lambda c: d(P[i], mc[c]))
    t, ev = g.run(f)
    g.put("assign", who + " cost", f, chosen(t) if t is not None else None, sumi(0, size(P), lambda i: d(P[i], mc[near(i)]) ** 2), ragged=False)
    ev = trace(f)
    empt, push, other = [], [], []
    for k, t, v, conds, loops, fn, node in ev.trace:
        if k not in "WF" or not isinstance(t, tuple):
            continue
        r = sym.root(t[1] if t[0] in ("size", "comp") else t)
        a = t[1] if t[0] == "size" else t
        if not sym.prefixw(CL, sym.wild(a)):
            continue
        if t[0] == "size" and a[0] == "idx" and a[1] == CL and conds == () and len(loops) == 1 and a[2] == loops[0][0] and loops[0][1] == ZERO and loops[0][2] == ("size", CL):
            empt.append((t, fn, node))
        elif t[0] == "idx" and t[1][0] == "idx" and t[1][1] == CL and v is not None:
            push.append((t, v, conds, loops, fn, node))
        elif k == "W" and t[0] == "size" and any(q[0][1] == a for q in push):
            pass
        elif k == "F":
            pass
        else:
            other.append((t, fn, node))
    loc = f.loc()
    rep.put(True if empt and not other else (False if not empt and push else None), "empty", who, "the clusters are emptied (%d places) before the points are assigned again" % len(empt), loc)
    if len(push) != 1:
        rep.put(False if not push and not other else None, "assign", who + " position", "%d places put a point in a cluster" % len(push), loc)
        return
    t, v, conds, loops, fn, node = push[0]
    ok = None
    why = "puts %s into cluster %s" % (sym.show(v)[:60], sym.show(t[1][2])[:200])
    n = ("size", ("par", 0, ""))
    ls = [tuple(norm(x) if isinstance(x, tuple) else x for x in l) for l in loops]
    if len(ls) == 1 and ls[0][1] == ZERO and ls[0][2] == n:
        bv = ls[0][0]
        i = T(I)
        a = sym.subst(norm(v), {bv: I})
        c = sym.subst(norm(t[1][2]), {bv: I})
        if conds:
            ok, why = False, why + " only under a condition"
        else:
            r, w1 = judge(c, near(i), ragged=False)
            r2, w2 = judge(a, i)
            ok = False if r is False or r2 is False else (True if r and r2 else None)
            why += " (%s; %s)" % (w1, w2)
    elif len(ls) == 1:
        r, w1 = judge(ls[0][2], T(n))
        r2, w2 = judge(ls[0][1], 0)
        ok = False if r is False or r2 is False else None
        why += " for positions %s to %s" % (sym.show(ls[0][1])[:60], sym.show(ls[0][2])[:60])
    rep.put(ok, "assign", who + " position", "each point " + why, fn.loc(node) if fn is f else loc)


def check(p, rep):
    rep.rule("assign", "a point goes to the cluster of its nearest centre, the cost is the sum of the squared distances")
    rep.rule("empty", "no point of an earlier assignment stays in a cluster")
    rep.rule("centers", "a centre is the mean of the points of its cluster, and stays where it is without points")
    rep.rule("init", "initial centres are points of the dataset, drawn from all of them")
    rep.rule("loop", "every step assigns the points of the dataset and then moves the centres; it ends when the cost settles")
    rep.rule("variance", "the variance sums the squared distances of the points to the mean of their cluster")
    g = Golden(p, rep)
    mc, cl, S = T(M), T(CL), T(("fld", ("this",), "samples"))
    for f in sorted(p.fns.values(), key=lambda f: f.key):
        if not f.sq.startswith(NS) or "Euclidean" not in f.q:
            continue
        d = eucl
        nm = f.sq[len(NS):]
        if nm == "evaluate":
            P = par(0)
            g.ret("assign", f, argm("min", 0, size(mc), lambda c: d(P, mc[c])), ragged=False)
        elif nm == "assign_clusters":
            assign(p, rep, g, f, d)
        elif nm == "compute_centers":
            c, j = T(I), T(J)
            t, ev = g.run(f)
            ev.assume |= {I, J}
            v = norm(sym.index(ev.load(("idx", M, I)), J))
            ev.assume -= {I, J}
            # one cluster per centre
            v = sym.rewrite(v, lambda s: ("size", M) if s == ("size", CL) else s)
            q = sym.subst(live(v), {("cmp", "<", I, ("size", M)): ONE, ("cmp", "<=", ZERO, I): ONE})
            mean = sumi(0, size(cl[c]), lambda k: S[cl[c][k]][j]) / size(cl[c])
            g.put("centers", name(f), f, q, ifel(lt(0, size(cl[c])), mean, mc[c][j]), "leaves center", ragged=False)
            e = q
            if e[0] == "ite":
                # the answer when the cluster is empty
                e = sym.subst(e, {("cmp", "<", ZERO, ("size", ("idx", CL, I))): ZERO})
            by = any(x[0] == "poly" and any(a == ("size", ("idx", CL, I)) and n < 0 for m, _ in x[1] for a, n in m) for x in sym.subterms(e))
            rep.put(False if by and q[0] != "ite" else (None if by else True), "centers", name(f) + " without points", "a cluster without points leaves its center at %s" % sym.show(e)[:200], f.loc())
        elif nm == "train":
            train(p, rep, f)
        elif nm == "clusters":
            ev = trace(f, ST)
            cs = [t for k, t, *_ in ev.trace if k == "C" and t[1] == NS + "assign_clusters"]
            ok = len(cs) == 1 and live(cs[0][3]) == PTSN and isinstance(ev.ret, tuple) and live(ev.ret) == CL
            rep.put(True if ok else (False if cs and len(cs) == 1 and live(cs[0][3]) != PTSN else None), "assign", name(f), "answers %s after assigning %s" % (sym.show(ev.ret)[:80] if isinstance(ev.ret, tuple) else "?", ", ".join(sym.show(c[3])[:60] for c in cs)), f.loc())
        elif nm == "clusters_variance":
            Q = par(0)
            def one(c):
                mean = lambda j: sumi(0, size(Q[c]), lambda k: S[Q[c][k]][j]) / size(Q[c])
                return sumi(0, size(Q[c]), lambda k: sumi(0, dim(S), lambda j: (S[Q[c][k]][j] - mean(j)) ** 2))
            g.ret("variance", f, sumi(0, size(Q), one), ragged=False)
    rep.floor("assign", 4)
    rep.floor("init", 4)


DRAW = "operator()"


def loopcond(e, info):
    n = e.N[info["node"]]
    if n["c"] in ("DoStmt", "WhileStmt"):
        return e.ex(n["k"][0])
    return None


def peeled(t):
    if t[0] == "call" and t[1] == "drawn":
        return t[2]
    if t[0] == "call" and str(t[1]).startswith("operator") and "()" not in str(t[1]):
        return t
    return t


def train(p, rep, f):
    who = name(f)
    conds, weights, dists = [], {}, {}
    ev = sym.Ev(f, this=("this",), stop=ST)
    ev.trace = []

    def hook(e, info, b):
        if e.fn is not f or info.get("node") is None:
            return
        n = e.N[info["node"]]
        if n["c"] in ("DoStmt", "WhileStmt"):
            conds.append((info["node"], loopcond(e, info)))
        for k, v in list(e.env.items()):
            if isinstance(k, int) and isinstance(v, tuple) and v[:2] == ("obj", "std::discrete_distribution") and len(v) == 4 and v[2][0] == "begin" and v[3] == ("end", v[2][1]):
                e.assume.add(I)
                if "bv" in info:
                    dists.setdefault(v[2][1], (e.load(("idx", v[2][1], I)), e.sizeof(v[2][1]), info))
                e.assume.discard(I)
    ev.hook = hook
    ev.run()
    n = size(T(PTSN))
    # ---- initial centres
    cover = {}
    ws = [x for x in ev.trace if x[0] == "W" and isinstance(x[1], tuple) and x[1][0] == "idx" and x[1][1] == M and isinstance(x[2], tuple)]
    for k, t, v, cs, loops, fn, node in ws:
        v = live(bare(v))
        at = fn.loc(node) if fn is f else f.loc()
        w_ = "%s = %s" % (sym.show(t), sym.show(v)[:200])
        if v[0] != "idx" or v[1] not in (PTSN, ("loc",)) and not points(ev, f, v[1]):
            rep.unk("init", who + " " + sym.show(t), "the center %s" % w_, at)
            continue
        d = peeled(v[2])
        ok, why = None, "drawn by %s" % sym.show(d)[:120]
        if d[0] == "call" and d[1] == DRAW and d[2][0] == "obj" and d[2][1] == "std::uniform_int_distribution" and len(d[2]) == 4:
            a, w1 = judge(norm(d[2][2]), 0)
            b, w2 = judge(norm(d[2][3]), n - 1)
            ok = True if a and b else (False if a is False or b is False else None)
            why = "drawn from %s to %s" % (sym.show(d[2][2]), sym.show(d[2][3])[:80])
        elif d[0] == "call" and d[1] == DRAW and d[2][0] == "obj" and d[2][1] == "std::discrete_distribution" and len(d[2]) == 4 and d[2][2][0] == "begin":
            D = d[2][2][1]
            if D in dists and loops:
                wv, sz, info = dists[D]
                i = T(info["bv"])
                bvs = {info["bv"]: w(T(K_) + 1)}
                last = T(M)[T(K_)]
                dd = lambda k: eucl(last, T(PTSN)[k])
                wv = unpts(ev, f, sym.subst(live(wv), bvs))
                wv = sym.subst(wv, {("cmp", "<", I, ("size", PTSN)): ONE, ("cmp", "<=", ZERO, I): ONE})
                rs = [judge(wv, dd(I), ragged=False)]
                if rs[0][0] is not True:
                    rs.append(judge(wv, dd(I) / sumi(0, n, dd), ragged=False))
                sz = unpts(ev, f, live(sz))
                r2, _ = judge(sz, n)
                ok = True if any(r[0] for r in rs) and r2 else (False if all(r[0] is False for r in rs) or r2 is False else None)
                why = "drawn with the weights %s" % sym.show(wv)[:300]
        elif d[0] == "num" or d[0] in ("bv", "poly"):
            ok, why = None, "at the position %s" % sym.show(d)[:80]
        rep.put(ok, "init", who + " " + sym.show(t), "the center %s is a point of the dataset %s" % (sym.show(t), why), at)
        cover.setdefault(cs, []).append((t[2], loops))
    NC = (("size", M), ("fld", ("this",), "n_clusters"))
    for cs, xs in cover.items():
        have = set()
        for ix, loops in xs:
            if ix == ZERO and not loops:
                have.add(0)
            elif len(loops) == 1 and ix == loops[0][0] and live(loops[0][2]) in NC and loops[0][1][0] == "num":
                have.add("from %d" % loops[0][1][1])
        full = "from 0" in have or {0, "from 1"} <= have
        rep.put(True if full else (False if have and all(isinstance(l, tuple) for _, ls in xs for l in ls) and len(have) == len(xs) else None), "init", who + " all, if " + " and ".join(sym.show(c) for c in cs[-1:]), "every center is initialised (%s)" % ", ".join(map(str, sorted(have, key=str))), f.loc())
    # ---- steps
    A, Cc = NS + "assign_clusters", NS + "compute_centers"
    calls = [(t, cs, fn, node) for k, t, v, cs, loops, fn, node in ev.trace if k == "C" and isinstance(t, tuple) and t[0] == "call" and t[1] in (A, Cc)]
    asg = [x for x in calls if x[0][1] == A]
    cmpc = [x for x in calls if x[0][1] == Cc]
    ok = None
    why = "%d assignments, %d moves of the centers" % (len(asg), len(cmpc))
    if len(asg) == 1 and len(cmpc) == 1 and asg[0][2] is f and cmpc[0][2] is f:
        arg = live(asg[0][0][3]) if len(asg[0][0]) > 3 else None
        l1 = [x for x in f.ancestors(asg[0][3]) if f.N[x]["c"] in ir.LOOPS]
        l2 = [x for x in f.ancestors(cmpc[0][3]) if f.N[x]["c"] in ir.LOOPS]
        same = l1 == l2 and len(l1) == 1
        order = calls.index(asg[0]) < calls.index(cmpc[0])
        data = arg == PTSN
        unc = not asg[0][1] and not cmpc[0][1]
        ok = True if same and order and data and unc else (False if not same or not order or not unc else (None if arg is None else False))
        why += "; assigns %s" % (sym.show(arg)[:80] if arg else "?") + ("" if order else ", after moving them") + ("" if unc else ", under a condition")
    elif not asg or not cmpc:
        ok = False
    rep.put(ok, "loop", who + " step", "each step assigns the points of the dataset, then moves the centers (%s)" % why, f.loc())
    if ok:
        lp = [x for x in f.ancestors(asg[0][3]) if f.N[x]["c"] in ir.LOOPS][0]
        cv = [c for nd, c in conds if nd == lp]
        call = asg[0][0]
        r, why = None, "not resolved"
        if cv and isinstance(cv[-1], tuple):
            c = cv[-1]
            now, old, eps = ("par", 81, ""), ("par", 82, ""), ("par", 83, "")

            def g(s):
                if s[0] == "call" and s[1] == A:
                    return now
                if s[0] == "phi" and isinstance(s[2], int) and isinstance(f.vars.get(s[2]), dict):
                    # the cost of the step before: the variable ends each step with this step's cost
                    return old
                if s[0] == "fld" and s[2] == "EPS" or s[0] == "phi" and isinstance(s[2], tuple) and s[2][0] == "fld" and s[2][2] == "EPS":
                    return eps
                return s
            c = sym.rewrite(c, g)
            from formula import vabs
            r, why = judge(c, lt(T(eps), vabs(T(now) - T(old))))
        rep.put(r, "loop", who + " ends", "goes on while %s; defined as the cost still changing by more than EPS (%s)" % (sym.show(cv[-1])[:200] if cv else "?", why), f.loc(lp))


PTSN = ("fld", ("this",), "samples")


def bare(v):
    while v[0] == "fld" and v[2] == "x":
        v = v[1]
    return v


def points(ev, f, b):
    """a local copy of the list of the dataset's points, shuffled or not"""
    if b[0] == "phi" and isinstance(b[2], tuple):
        b = b[2]
    if b[0] != "loc" or not isinstance(b[1], int):
        return False
    d = f.vars.get(b[1]) or {}
    ini = ev.env.get(b[1])
    return isinstance(ini, tuple) and norm(live(ini)) == PTSN


def unpts(ev, f, t):
    return sym.rewrite(t, lambda s: PTSN if s[0] in ("loc", "phi") and points(ev, f, s) else s)
