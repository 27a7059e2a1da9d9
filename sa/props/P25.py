"""Ensembles: the vote of the members, their training, and AdaBoost's coefficients."""
import random
import ir, sym
from golden import *
from props.models import S, P0
from props import trained

C = S.m_classes
L = this.m_learners
NS = "mltk::ensemble::"


def pred(l):
    return T(("call", "mltk::Learner::evaluate", w(l), w(P0), ZERO))


def vote(n, weight):
    """the first class with the largest sum of the weights of the members predicting it"""
    return C[argm("max", 0, size(C), lambda c: sumi(0, n, lambda m: ifel(eq(pred(L[m]), C[c]), weight(m), 0)))]


VT = ("fld", ("this",), "voting_type")


def world(ne, t, mode="hard"):
    """distinct classes; predictions are classes or, now and then, a label that is none"""
    base = ("fld", ("fld", ("this",), "samples"), "m_classes")
    perm = [3.0, -1.0, 1.0, 7.0, 2.0, 5.0, 9.0, 11.0]
    random.Random(ne.seed).shuffle(perm)
    if t[0] == "idx" and t[1] == base:
        k = int(round(ne.ev(t[2])))
        return perm[k] if 0 <= k < len(perm) else 1000.0 + k
    if t[0] == "call" and t[1].endswith("::evaluate"):
        n = int(round(ne.ev(("size", base))))
        r = random.Random("%r|%s" % (tuple(ne.addr(x) if x[0] in numeval.ADDRS else round(ne.ev(x), 9) for x in t[2:]), ne.seed))
        return r.choice(perm[:n] + ([77.0] if ne.seed % 3 == 0 else []))
    if t == VT:
        return 100.0 + random.Random(mode).random()
    if t[0] == "idx" and t[1] in (("fld", ("this",), "weights"), ("fld", ("this",), "_alpha")):
        return float(random.Random("%r|%s" % (t[1], ne.ev(t[2]))).choice([1, 1, 2, 0.5] + ([-0.5] if t[1][2] == "_alpha" else [])))
    return None


def check(p, rep):
    rep.rule("vote", "the class with the largest sum of its voters' weights, the first one on ties; every member votes once")
    rep.rule("member", "every member is given its training set and then trained, once, unconditionally")
    rep.rule("boost", "AdaBoost: weighted error rates, coefficients and normalised point weights")
    g = Golden(p, rep)
    kw = dict(bind=world, ragged=False, trials=48)
    for f in sorted(p.fns.values(), key=lambda f: f.key):
        if f.sq == NS + "VotingClassifier::evaluate":
            g.ret("vote", f, vote(size(L), lambda m: 1), "VotingClassifier::evaluate, hard", **kw)
            g.ret("vote", f, vote(size(L), lambda m: this.weights[m]), "VotingClassifier::evaluate, soft", **dict(kw, bind=lambda ne, t: world(ne, t, "soft")))
        elif f.sq == NS + "BaggingClassifier::evaluate":
            g.ret("vote", f, vote(this.n_estimators, lambda m: 1), **kw)
        elif f.sq == NS + "PerceptronCommittee::evaluate":
            g.ret("vote", f, vote(size(L), lambda m: 1), **kw)
        elif f.sq == NS + "AdaBoostClassifier::evaluate":
            g.ret("vote", f, vote(this.n_estimators, lambda m: this._alpha[m]), **kw)
        elif f.sq == NS + "AdaBoostClassifier::train":
            boost(p, rep, f)
        if f.sq.endswith("::train") and f.sq.startswith(NS) and f.sq.split("::")[2] in ("VotingClassifier", "BaggingClassifier", "PerceptronCommittee", "AdaBoostClassifier"):
            trained.members(p, rep, f, "member", sampled="Bagging" in f.sq)
    rep.floor("vote", 5)
    rep.floor("member", 4)
    rep.floor("boost", 3)


def boost(p, rep, f):
    who = name(f)
    ev = sym.Ev(f, this=("this",), stop=("mltk::Data::sampling",))
    ev.trace = []
    ev.run()
    A = ("fld", ("this",), "_alpha")
    W = ("fld", ("this",), "weights")
    al = ev.load(("idx", A, I))
    if al[0] == "phi" and al[2][0] == "idx":
        base = al[2][1]
    elif al == ("idx", A, I):
        base = A
    else:
        base = None
    loops = lambda x: len(x[4])
    ws = [x for x in ev.trace if x[0] == "W" and x[1][0] == "idx" and x[1][1] == base and loops(x) == 1]
    wt = [x for x in ev.trace if x[0] == "W" and x[1] == W and loops(x) == 1]
    if base is None and wt:
        # the coefficients do not depend on the rounds before: read them off the final value
        ws = [("W", ("idx", A, I), al, (), ((I, ZERO, ("fld", ("this",), "n_estimators")),), f, f.body)]
    if not ws or not wt:
        rep.unk("boost", who, "no update of the coefficients or of the point weights found", f.loc())
        return
    x = ws[-1]
    m, lo, hi = x[4][0]
    Wi, E = T(("par", 90, "")), None
    n, K = size(S), size(C)

    def free(t):
        def g(s):
            if s[0] == "phi" and s[2] == W:
                return w(Wi)
            if s[0] == "phi" and s[2][0] == "idx" and s[2][1] == W:
                return ("idx", w(Wi), s[2][2])
            if s[0] == "phi":
                return s[2]
            return s
        return sym.rewrite(t, g)
    ep = lambda i: ifel(eq(T(("call", "mltk::Learner::evaluate", w(L[T(m)]), w(S[i]), ZERO)), S[i].y), 0, 1)
    err = sumi(0, n, lambda i: Wi[i] * ep(i)) / sumi(0, n, lambda i: Wi[i])
    alpha = log(K - 1) + ifel(lt(0, err), log((1 - err) / err), 1)
    nw = lambda i: Wi[i] * exp(alpha * ep(i))

    def bind(ne, t):
        if t[0] in ("idx",) and t[1] == w(Wi):
            return 0.1 + random.Random("%r|%s" % (round(ne.ev(t[2])), ne.seed)).random()
        if t[0] == "call" and t[1].endswith("::evaluate"):
            return float(random.Random("%r|%s" % (tuple(ne.addr(x) if x[0] in numeval.ADDRS else round(ne.ev(x), 9) for x in t[2:]), ne.seed)).choice([1, 2]))
        if t[0] == "fld" and t[2] == "y":
            return float(random.Random("%r|%s" % (ne.addr(t), ne.seed)).choice([1, 2]))
        if t[0] == "size" and norm(t[1]) == w(S) or t == ("size", w(Wi)):
            return 4.0
        return None
    kw = dict(bind=bind, ragged=False, trials=48)
    r, why = judge(free(x[2]), alpha, **kw)
    rep.put(r, "boost", who + " coefficient", "log((1-err)/err) (1 when err is 0) + log(K-1) is defined; found %s (%s)" % (sym.show(x[2])[:300], why), x[5].loc(x[6]))
    full = not x[3] and lo == ZERO and hi == ("fld", ("this",), "n_estimators")
    rep.put(True if full else (None if x[3] else False), "boost", who + " every member", "the coefficient is computed for members %s..%s" % (sym.show(lo), sym.show(hi)), x[5].loc(x[6]))
    y = wt[-1]
    k = sym.fresh()
    tot = sumi(0, n, nw)
    v = free(sym.index(y[2], k))
    if y[3]:
        c = sym.ONE
        for z in y[3]:
            c = sym.bool2("and", c, z)
        v = sym.ite(free(c), v, free(sym.index(wt[-2][2], k)) if len(wt) > 1 and not wt[-2][3] else ("idx", w(Wi), k))
    r, why = judge(v, nw(T(k)) / tot, **kw)
    rep.put(r, "boost", who + " point weights", "w*exp(alpha*miss) divided by their sum is defined; found %s (%s)" % (sym.show(v)[:300], why), y[5].loc(y[6]))
    # the weights of the first round
    seq = [x for x in ev.trace if x[0] in ("W", "F") and x[1] == W]
    pre = [x for x in seq if loops(x) == 0 and seq.index(x) < seq.index(wt[0])]
    if pre and not pre[-1][3]:
        x = pre[-1]
        v = free(sym.index(x[2], k))
        r, why = judge(v, 1 / n, **kw)
        rep.put(r, "boost", who + " initial weights", "1/size is defined; found %s (%s)" % (sym.show(v)[:200], why), x[5].loc(x[6]))
    else:
        rep.unk("boost", who + " initial weights", "no whole assignment before the first round", f.loc())
