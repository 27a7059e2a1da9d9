"""Training update rules: what one visited training point does to the model."""
import random
import ir, sym
from golden import *
from sym import ZERO, ONE

C = "mltk::classifier::"
SOL = ("fld", ("this",), "solution")
KK = ("bv", 905)
S = this.samples
RATE, GAMMA, FLEX = this.rate, this.gamma, this.flexible
# atoms of the state before the point and of the point itself
W, B, NM, P, A, F = ("par", 90, ""), T(("par", 91, "")), T(("par", 92, "")), ("par", 93, ""), ("par", 94, ""), ("par", 96, "")
ROW, POS = ("par", 97, ""), ("par", 99, "")
KM = ("par", 98, "")
Y, X, AL = T(("fld", P, "y")), T(P), T(("fld", P, "alpha"))
w_ = lambda k: T(W)[k]
n = size(S)
d = size(T(P))


def f_lin():
    return B + sumi(0, d, lambda k: w_(k) * X[k])


def perceptron():
    hit = T(sym.cmp_("<=", w(Y * f_lin()), ZERO))
    nw = lambda k: w_(k) + RATE * Y * X[k]
    return {"w": ifel(hit, nw(T(KK)), w_(KK)), "bias": ifel(hit, B + RATE * Y, B), "norm": ifel(hit, sqrt(sumi(0, d, lambda k: nw(k) * nw(k))), NM)}


def balanced():
    pred = ifel(lt(f_lin(), 0), -1, 1)
    hit = T(sym.not_(w(eq(Y, pred))))
    return {"w": ifel(hit, w_(KK) + RATE * Y * X[KK], w_(KK)), "bias": ifel(hit, B + RATE * Y, B)}


def lms():
    e = Y - f_lin()
    return {"w": w_(KK) + RATE * e * X[KK], "bias": B + RATE * e}


def sgn(x):
    return ifel(lt(x, 0), -1, 1)


def margin(q):
    hit = T(sym.cmp_("<=", w(Y * f_lin()), w(GAMMA * NM - AL * FLEX)))
    alive = lambda k: T(sym.bool2("and", w(lt(0, NM)), sym.not_(w(eq(w_(k), 0)))))
    sh = {1: lambda k: GAMMA * sgn(w_(k)), 2: lambda k: w_(k) * GAMMA / NM, 3: lambda k: w_(k) * GAMMA * fpow(vabs(w_(k)), T(sym.num(q)) - 2) * fpow(NM, 1 - T(sym.num(q)))}[q]
    nw = lambda k: w_(k) + RATE * (Y * X[k] - ifel(alive(k), sh(k), 0))
    nn = {1: sumi(0, d, lambda k: vabs(nw(k))), 2: sqrt(sumi(0, d, lambda k: nw(k) * nw(k))), 3: fpow(sumi(0, d, lambda k: fpow(vabs(nw(k)), q)), 1 / T(sym.num(q)))}[q]
    lam = ifel(eq(NM, 0), 1, 1 - RATE * GAMMA / NM)
    return {"w": ifel(hit, nw(T(KK)), w_(KK)), "bias": ifel(hit, B + RATE * Y, B), "norm": ifel(hit, nn, NM), "alpha": ifel(hit, AL * lam + RATE, AL), "others": ifel(hit, T(A)[KK] * lam, T(A)[KK]),
            "_alpha": ifel(hit, AL + RATE, AL)}


def dual():
    k = lambda i, j: T(("idx", ("idx", KM, w(i)), w(j)))
    wx = sumi(0, n, lambda r: T(A)[r] * T(("fld", w(S[r]), "y")) * k(POS, r))
    hit = T(sym.cmp_("<=", w(Y * (B + wx)), ZERO))
    return {"bias": ifel(hit, B + RATE * Y, B), "multipliers": ifel(T(sym.bool2("and", w(hit), w(eq(T(KK), T(POS))))), T(A)[KK] + RATE, T(A)[KK]),
            "norm": ifel(hit, sqrt(NM * NM + 2 * RATE * Y * wx + RATE * RATE * k(POS, POS)), NM)}


def fmdual(late=False):
    k = lambda i, j: T(("idx", ("idx", KM, w(i)), w(j)))
    f = lambda r: T(F)[r]
    hit = T(sym.cmp_("<=", w(Y * f(POS)), w(GAMMA * NM)))
    lam = ifel(eq(NM, 0), 1, 1 - RATE * GAMMA / NM)
    g = lam * f(POS) + RATE * Y * (k(POS, POS) + 1) + B * (1 - lam) if late else f(POS)
    return {"bias": ifel(hit, B + RATE * Y, B), "alpha": ifel(hit, AL * lam + RATE, AL), "others": ifel(hit, T(A)[KK] * lam, T(A)[KK]),
            "values": ifel(hit, lam * f(KK) + RATE * Y * (k(POS, KK) + 1) + B * (1 - lam), f(KK)),
            "norm": ifel(hit, sqrt(NM * NM * lam * lam + 2 * RATE * Y * lam * (g - B) + RATE * RATE * k(POS, POS)), NM)}


TABLE = {C + "PerceptronPrimal": [("", None, perceptron)], C + "BalancedPerceptron": [("", None, balanced)], "mltk::regressor::LMSPrimal": [("", None, lms)],
         C + "PerceptronDual": [("", None, dual)], C + "PerceptronFixedMarginDual": [("", None, fmdual)],
         C + "PerceptronFixedMarginPrimal": [(", norm %d" % q, q, lambda q=q: margin(q)) for q in (1, 2, 3)],
         C + "IMApFixedMargin": [(", norm %d" % q, q, lambda q=q: margin(q)) for q in (1, 2, 3)]}


# learners that keep the model they evaluate in members of their own
OWN = {C + "BalancedPerceptron": {"w": "weights", "bias": "bias"}}


def base_of(t, k=None):
    """the memory whose value a term left by a loop is: address, or variable"""
    for _ in range(8):
        if t[0] == "phi" and isinstance(t[2], tuple):
            t = t[2]
        elif t[0] == "phi":
            return t[2]
        elif t[0] == "out":
            if isinstance(t[2], int):
                return t[2]
            return None
        elif t[0] == "idx" and k is not None and t[2] == k:
            return t[1]
        else:
            return t if t[0] in ("fld", "loc", "glob") else None
    return None


def run(f, hook=None):
    ev = sym.Ev(f, this=("this",), stop=("mltk::random_init", "mltk::Data::shuffle"))
    ev.assume = {KK}
    ev.hook = hook
    ev.run()
    return ev


def value(ev, b):
    return ev.env.get(b) if isinstance(b, int) else ev.load(b)


def check(p, rep):
    rep.rule("step", "one visited point changes weights, bias, norm and multipliers as the learner's update rule says, and nothing when the rule does not apply")
    rep.rule("visit", "a pass runs over all training points, each position once")
    for cls, modes in sorted(TABLE.items()):
        for f in sorted(p.named(cls + "::train"), key=lambda f: f.key):
            one(p, rep, f, cls, modes)
    rep.rule("order", "a pass that reorders the visiting sequence only exchanges two of its entries")
    rep.rule("start", "an initial solution is measured on the training points with its own weights")
    initial(p, rep)
    rep.floor("start", 1)
    rep.floor("step", 8)


def initial(p, rep):
    """the decision values IMAp computes for an initial solution use the weights of that solution"""
    for f in p.named(C + "IMAp::train"):
        ev = run(f)
        for node, t, v, conds, loops in ev.stores:
            if t[0] != "idx" or t[1][0] != "loc" or not loops or t[2] != loops[0][0]:
                continue
            bases = {s[1] for s in sym.subterms(v) if s[0] == "idx" and s[2] == loops[-1][0] and s[1][0] in ("fld", "loc")} - {t[1]}
            ws = [b for b in bases if b[0] == "fld" and b[2] == "w"]
            if ws and len(loops) == 2:
                rep.put(all(b == ("fld", SOL, "w") for b in ws), "start", "%s:%s" % (name(f), sym.show(t)), "the decision values of the initial solution are taken with %s" % ", ".join(sym.show(b) for b in ws), f.loc(node))


def one(p, rep, f, cls, modes):
    who = name(f)
    ev = run(f)
    st = {"w": None, "bias": None, "norm": None}
    st["w"] = base_of(ev.load(("idx", ("fld", SOL, "w"), KK)), KK)
    for a in ("bias", "norm"):
        t = ev.load(("fld", SOL, a))
        st[a] = base_of(t)
        if st[a] is None:
            st[a] = ("fld", SOL, a)
    if cls in OWN:
        st.update({a: ("fld", ("this",), m) for a, m in OWN[cls].items()})
    caps = []

    def hook(e, info, b):
        if "bv" not in info:
            return
        T0 = e.tag(info["node"])
        got = {"w": e.load(("idx", st["w"], KK)) if st["w"] else None, "bias": value(e, st["bias"]), "norm": value(e, st["norm"])}
        caps.append((T0, info, got, e, len(e.loops), b, {k: v for k, v in e.env.items()}, list(e.dirty)))
    run(f, hook)
    # the loop over the points: bounded by a number of points, changing the bias or the weights
    def changes(c, a):
        v = c[2][a]
        return v is not None and v[0] not in ("phi", "out") and any(s[0] == "phi" and s[1] == c[0] for s in sym.subterms(v))
    loops = [c for c in caps if c[1].get("hi", ZERO)[0] == "size" and any(changes(c, a) and any(s[0] == "fld" and s[2] == "y" and c[1]["bv"] in set(sym.subterms(s)) for s in sym.subterms(c[2][a])) for a in ("w", "bias"))]
    if not loops:
        rep.unk("step", who, "no loop over the training points found", f.loc())
        return
    depth = min(c[4] for c in loops)
    loops = [c for c in loops if c[4] == depth]
    if len(loops) != 1:
        rep.unk("step", who, "several loops over the training points", f.loc())
        return
    T0, info, got, e, _, b, env, dirty = loops[0]
    bv = info["bv"]
    loc = e.fn.loc(info["node"])
    # the visited point
    ps = {s[1] for a in ("w", "bias") if got[a] is not None for s in sym.subterms(got[a]) if s[0] == "fld" and s[2] == "y" and bv in set(sym.subterms(s))}
    ps = {norm(bare(x)) for x in ps}
    if len(ps) != 1:
        rep.unk("step", who, "visited point not identified", loc)
        return
    pt = ps.pop()
    r = visited(pt, bv, info)
    rep.put(r, "visit", who, "the pass visits %s for %s..%s" % (sym.show(pt), sym.show(info["lo"]), sym.show(info["hi"])), loc)
    keep = e.env, e.dirty
    e.env, e.dirty = env, dirty
    e.loops.append(info)
    own, others = ("fld", pt0(got, bv), "alpha"), None
    got["alpha"] = e.load(own)
    got["others"] = e.load(("fld", ("idx", own[1][1], KK), "alpha")) if own[1][0] == "idx" else None
    got["multipliers"] = e.load(("idx", ("fld", ("this",), "alpha"), KK))
    fb = None
    if cls == C + "PerceptronFixedMarginDual":
        fs = {s[2][1] for s in sym.subterms(got["bias"]) if s[0] == "phi" and s[1] == T0 and isinstance(s[2], tuple) and s[2][0] == "idx" and s[2][1][0] == "loc" and bare(s[2][2]) == pt[2]}
        if len(fs) == 1:
            fb = fs.pop()
            got["values"] = e.load(("idx", fb, KK))
    order(rep, who, e, T0, bv, pt, loc)
    e.loops.pop()
    e.env, e.dirty = keep

    def free(t):
        def g(s):
            if s[0] in ("idx", "fld", "phi") and bare(s) in (pt, pt[:2] + (POS,)):
                return P
            if s[0] in ("idx", "phi", "bv") and bare(s) == pt[2]:
                return POS
            if s[0] == "phi":
                m = s[2]
                if isinstance(m, tuple) and m[0] == "idx" and m[1] == ("fld", ("this",), "alpha"):
                    return ("idx", A, POS if bare(m[2]) == pt[2] else m[2])
                if isinstance(m, tuple) and m[0] == "idx" and fb is not None and m[1] == fb:
                    return ("idx", F, POS if bare(m[2]) == pt[2] else m[2])
                if m == st["bias"]:
                    return w(B)
                if m == st["norm"]:
                    return w(NM)
                if isinstance(m, tuple) and m[0] == "idx" and m[1] == st["w"]:
                    return ("idx", W, m[2])
                if isinstance(m, tuple) and m[0] == "fld" and m[2] in ("alpha", "y") and bare(m[1]) == pt:
                    return ("fld", P, m[2])
                if isinstance(m, tuple) and m[0] == "fld" and m[2] == "alpha":
                    return ("idx", A, m[1][2]) if m[1][0] == "idx" else s
                return s
            if st["w"] and s == st["w"]:
                return W
            if s[0] == "fld" and s[2] == "K":
                return KM
            if s[0] == "fld" and s[2] == "computed":
                return ONE
            return s
        def g2(s):
            # a weight, the bias or the norm that no loop changed before
            if s[0] == "idx" and st["w"] and s[1] == st["w"]:
                return ("idx", W, s[2])
            if s[0] == "size" and (s[1] == ("idx", w(S), ZERO) or s[1] == ("fld", w(S), "#dim")):
                return w(d)
            if s[0] == "fld" and s[2] == "alpha" and s[1] == ("idx", w(S), KK):
                return ("idx", A, KK)
            return s
        t = sym.rewrite(norm(t), g)
        t = sym.rewrite(norm(t), g2)
        # the dimension
        return sym.rewrite(t, lambda s: w(d) if s[0] == "ite" and s[2] == ZERO and s[3] == w(d) else s)

    def bind(ne, t):
        if t in (("size", P), ("size", W)):
            return 3.0
        zero = random.Random("zero%s" % ne.seed).random() < 0.12
        if zero and (t in (w(B), w(NM), ("fld", P, "alpha")) or t[0] == "idx" and t[1] == W):
            # the model before the first update: the rule is at its boundary
            return 0.0
        if t == POS:
            return 1.0
        if t == w(n):
            return 4.0
        if t == ("fld", P, "y"):
            return float(random.Random("y%s" % ne.seed).choice([1, -1])) if cls != "mltk::regressor::LMSPrimal" else None
        if t == w(NM):
            if random.Random("z%s" % ne.seed).random() < 0.15:
                return 0.0
            return abs(ne.hash(t)) if hasattr(ne, "hash") else 0.2 + random.Random("n%s" % ne.seed).random() * 2
        if t[0] == "idx" and t[1] == W and random.Random("w%r%s" % (ne.ev(t[2]), ne.seed)).random() < 0.2:
            return 0.0
        return None
    for label, q, mk in modes:
        spec = mk()
        for a, sp in sorted(spec.items()):
            v = got.get(a)
            if a[0] == "_":
                continue
            if v is None:
                rep.unk("step", "%s%s: %s" % (who, label, a), "value not found", loc)
                continue
            v = free(v)
            if q is not None:
                v = sym.subst(v, {w(this.q): sym.num(q)})
            r, why = judge(v, sp, bind=bind, ragged=False, trials=60)
            if r is False and a == "alpha" and "_alpha" in spec and judge(v, spec["_alpha"], bind=bind, ragged=False, trials=60)[0]:
                # the loop that shrinks all multipliers reaches the point through another name
                r = None
            key = None
            if r is False and cls == C + "PerceptronFixedMarginDual" and a == "norm" and judge(v, fmdual(late=True)["norm"], bind=bind, ragged=False, trials=60)[0]:
                key = "step|PerceptronFixedMarginDual|norm from the value after the update"
            rep.put(r, "step", "%s%s: %s" % (who, label, a), "one point leaves %s; the rule leaves %s (%s)" % (sym.show(v)[:500], sym.show(norm(w(sp)))[:300], why), loc, key)


def order(rep, who, e, T0, bv, pt, loc):
    """entries i and k of the visiting sequence are exchanged, or nothing is written"""
    if pt[2][0] != "idx" or pt[2][2] != bv:
        return
    seq = pt[2][1]
    cells = [k for k in e.env if sym.cell(k) and k[0] == "idx" and k[1] == seq]
    if any(k[0] == "comp" and sym.prefix(seq, k[1]) for k in e.env if sym.cell(k)):
        rep.unk("order", who, "the visiting sequence is written in an inner loop", loc)
        return
    if not cells:
        rep.ok("order", who, loc)
        return
    ks = [k for k in cells if k[2] != bv]
    if len(ks) != 1 or len(cells) != 2:
        rep.unk("order", who, "the visiting sequence is written at %d places" % len(cells), loc)
        return
    old, K2 = ("par", 95, ""), ("par", 89, "")

    def g(s):
        if s == ks[0][2]:
            return K2
        if s[0] in ("phi", "idx"):
            m = s[2] if s[0] == "phi" else s
            if isinstance(m, tuple) and m[0] == "idx" and m[1] == seq:
                return ("idx", old, K2 if m[2] in (ks[0][2], K2) else m[2])
        return s
    hits = set()
    for pos, want in ((bv, K2), (K2, bv)):
        v = e.env[("idx", seq, bv if pos == bv else ks[0][2])]
        v = sym.rewrite(norm(v), g)
        for same in (False, True):
            u = sym.rewrite(v, lambda s: (num_(same) if s in (("cmp", "==", bv, K2), ("cmp", "==", K2, bv)) else s))
            for leaf in leaves(u):
                if same:
                    if leaf not in (("idx", old, bv), ("idx", old, K2)):
                        hits.add(leaf)
                elif leaf not in (("idx", old, want), ("idx", old, pos)):
                    hits.add(leaf)
    a, b = (sym.rewrite(norm(e.env[("idx", seq, x)]), g) for x in (bv, ks[0][2]))
    def far(t, p, q):
        if t[0] == "ite":
            if t[1] in (("cmp", "==", bv, K2), ("cmp", "==", K2, bv)):
                return far(t[3], p, q)
            return ("ite", t[1], far(t[2], p, q), far(t[3], p, q))
        return 0 if t == ("idx", old, p) else 1 if t == ("idx", old, q) else t
    r = not hits
    if r:
        fa, fb = far(a, bv, K2), far(b, K2, bv)
        cs = {s[1] for t in (fa, fb) for s in sym.subterms(t) if isinstance(s, tuple) and s[:1] == ("ite",)} if fa != fb else ()
        if fa != fb:
            # with one condition between them both of its outcomes decide
            r = False if len(cs) <= 1 and not any(isinstance(x, tuple) for x in leaves_(fa) | leaves_(fb)) else None
    rep.put(r, "order", who, "after a visit the sequence holds %s at the visited position and %s at the other" % (sym.show(a)[:200], sym.show(b)[:200]), loc)


def num_(b):
    return ONE if b else ZERO


def leaves_(t):
    return leaves_(t[2]) | leaves_(t[3]) if isinstance(t, tuple) and t[0] == "ite" else {t}


def leaves(t):
    if t[0] == "ite":
        return leaves(t[2]) | leaves(t[3])
    return {t}


def pt0(got, bv):
    for a in ("w", "bias"):
        for s in sym.subterms(got[a]) if got[a] is not None else ():
            if s[0] == "fld" and s[2] == "y" and bv in set(sym.subterms(s)):
                return s[1]


def bare(t):
    """an address without the loop marks of its parts"""
    for _ in range(6):
        u = sym.rewrite(norm(t), lambda s: s[2] if s[0] == "phi" and isinstance(s[2], tuple) else s)
        if u == t:
            break
        t = u
    return t


def visited(pt, bv, info):
    if pt[0] != "idx":
        return None
    if info["lo"] != ZERO:
        return False if info["lo"][0] == "num" and info["lo"] != ZERO and (pt[2] == bv or pt[2][0] == "idx" and pt[2][2] == bv) else None
    if info["hi"][0] == "size" and info["hi"][1][0] == "loc":
        # a copy of the points held in a local
        return None
    if pt[2] == bv:
        return True if norm(info["hi"]) in (("size", pt[1]), ("size", w(S))) else False
    if pt[2][0] == "idx" and pt[2][2] == bv:
        return True if norm(info["hi"]) in (("size", pt[1]), ("size", pt[2][1]), ("size", w(S))) else False
    return None
