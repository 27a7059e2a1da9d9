"""Predictions follow the decision rule of the model."""
import sym
from golden import *
from props.models import *
from props import P10

PRE = ("fld", ("this",), "precomputed")
BRUTE = ("cmp", "==") + tuple(sorted((("fld", ("this",), "algorithm"), ("str", "brute")), key=sym.key))


def nearest(dist):
    """the training points' positions in order of increasing distance to the point"""
    b, A, B = ("sb", 0), ("sb", 1), ("sb", 2)
    return T(("srt", b, b, w(size(S)), A, B, w(lt(dist(T(A)), dist(T(B))))))


def check(p, rep):
    rep.rule("linear", "linear models: bias plus the dot product of weights and point")
    rep.rule("kernel", "kernel models: bias plus the sum of alpha, label and kernel value over the training points")
    rep.rule("knn", "nearest neighbour models: the majority label, or the mean value, of the k nearest training points")
    rep.rule("multi", "one-vs-all and one-vs-one combination of binary members")
    rep.rule("weight", "weight vectors recovered from dual solutions")
    rep.rule("metric", "regression metrics")
    g = Golden(p, rep)
    for f, label, kind, dec, ok, u in models(p):
        g.ret("kernel" if u else "linear", f, guarded(ok, thresholded(dec) if kind == "class" else dec), label, under=u)
    n = size(S)
    k = fmin(this.k, n)
    euc = lambda i: sqrt(sumi(0, size(P0), lambda j: (S[i][j] - P0[j]) ** 2))
    ny = lambda i: T(w(S[nearest(euc)[i]].y))
    C = S.m_classes
    u = {PRE: sym.ZERO, BRUTE: sym.ONE}
    for f in sorted(p.fns.values(), key=lambda f: f.key):
        if f.sq == "mltk::regressor::KNNRegressor::evaluate":
            g.ret("knn", f, sumi(0, k, lambda i: ny(i)) / k, trials=16, ragged=False)
        elif f.sq == "mltk::classifier::KNNClassifier::evaluate":
            fq = lambda c: sumi(0, k, lambda i: eq(ny(i), C[c]))
            g.ret("knn", f, C[argm("max", 0, size(C), fq)], under=u, trials=16, ragged=False)
            top = sumi(0, size(C), fq, "max")
            pr = (top + 0.0001) / (this.k + size(C) * 0.0001)
            pr = ifel(lt(0, top), pr, 0)
            g.after("knn", f, ("fld", ("this",), "pred_prob"), ifel(lt(1 - pr, 1e-7), 1, pr), under=u, trials=16, ragged=False)
        elif f.sq == "mltk::metrics::MSE":
            a, b = par(0), par(1)
            g.ret("metric", f, sumi(0, size(a), lambda i: (a[i] - b[i]) ** 2) / size(a))
    r2 = rep
    g2 = Golden(p, rep)
    ru = {"request": "multi", "vote": "multi"}

    class G(Golden):
        def ret(self, rule, *a, **kw):
            return g2.ret(ru[rule], *a, **kw)
    P10.multi(p, G(p, rep))
    al = lambda i: T(("fld", w(S[i]), "alpha"))
    for f in sorted(p.fns.values(), key=lambda f: f.key):
        if f.sq == "mltk::classifier::DualClassifier::getWeight":
            g.elem("weight", f, sumi(0, n, lambda i: al(i) * S[i].y * S[i][I]))
        elif f.sq == "mltk::classifier::DualClassifier::getDualWeightProdInt":
            g.elem("weight", f, sumi(0, n, lambda i: sumi(0, n, lambda j: al(i) * al(j) * S[i].y * S[j].y * S[i][I] * S[j][I])))
    rep.floor("linear", 3)
    rep.floor("kernel", 3)
    rep.floor("knn", 2)
