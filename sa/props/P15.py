"""Distances: each named dissimilarity computes its published formula; metric axioms."""
import sym, formula, pointops
from formula import *
from report import AnchorError

x, y = vec(0), vec(1)
n = size(x)
# name -> (formula, symmetric, zero on identical points, defined for negative coordinates)
hass = vs(T(sym.ite(sym.cmp_("<=", sym.ZERO, w(fmin(x, y))),
                          w(1 - (1 + fmin(x, y)) / (1 + fmax(x, y))),
                          w(1 - (1 + fmin(x, y) + vabs(fmin(x, y))) / (1 + fmax(x, y) + vabs(fmin(x, y)))))))
SPEC = {
    "Euclidean": (sqrt(vs((x - y) ** 2)), 1, 1, 1),
    "Manhattan": (vs(vabs(x - y)), 1, 1, 1),
    "Chebyshev": (vmax(vabs(x - y)), 1, 1, 1),
    "Lorentzian": (vs(log(1 + vabs(x - y))), 1, 1, 1),
    "Canberra": (vs(vabs(x - y) / (vabs(x) + vabs(y))), 1, 1, 1),
    "Sorensen": (vs(vabs(x - y)) / vs(x + y), 1, 1, 0),
    "AvgManhattan": (vs(vabs(x - y)) / n, 1, 1, 1),
    "NonIntersection": (0.5 * vs(vabs(x - y)), 1, 1, 1),
    "Jaccard": (vs((x - y) ** 2) / (vs(x ** 2) + vs(y ** 2) - vs(x * y)), 1, 1, 1),
    "Cosine": (1 - vs(x * y) / (sqrt(vs(x ** 2)) * sqrt(vs(y ** 2))), 1, 1, 1),
    "Dice": (1 - 2 * vs(x * y) / (vs(x ** 2) + vs(y ** 2)), 1, 1, 1),
    "Chord": (sqrt(2 - 2 * vs(x * y) / (vs(x ** 2) * vs(y ** 2))), 1, 0, 0),
    "Bhattacharyya": (-log(vs(sqrt(x * y))), 1, 0, 0),
    "SquaredChord": (vs((sqrt(x) - sqrt(y)) ** 2), 1, 1, 0),
    "Matusita": (sqrt(vs((sqrt(x) - sqrt(y)) ** 2)), 1, 1, 0),
    "Hellinger": (sqrt(2 * vs((sqrt(x) - sqrt(y)) ** 2)), 1, 1, 0),
    "SquaredEuclidean": (vs((x - y) ** 2), 1, 1, 1),
    "Clark": (sqrt(vs(((x - y) / (vabs(x) + vabs(y))) ** 2)), 1, 1, 1),
    "Neyman": (vs((x - y) ** 2 / x), 0, 1, 0),
    "Pearson": (vs((x - y) ** 2 / y), 0, 1, 0),
    "Squared": (vs((x - y) ** 2 / (x + y)), 1, 1, 0),
    "ProbabilisticSymmetric": (2 * vs((x - y) ** 2 / (x + y)), 1, 1, 0),
    "Divergence": (2 * vs((x - y) ** 2 / (x + y) ** 2), 1, 1, 0),
    "AdditiveSymmetric": (2 * vs((x - y) ** 2 * (x + y) / (x * y)), 1, 1, 0),
    "Average": (sqrt(vs((x - y) ** 2) / n), 1, 1, 1),
    "SquaredChiSquared": (vs((x - y) ** 2 / vabs(x + y)), 1, 1, 0),
    "KullbackLeibler": (vs(x * log(x / y)), 0, 1, 0),
    "Jeffreys": (vs((x - y) * log(x / y)), 1, 1, 0),
    "KDivergence": (vs(x * log(2 * x / (x + y))), 0, 1, 0),
    "Topsoe": (vs(x * log(2 * x / (x + y))) + vs(y * log(2 * y / (x + y))), 1, 1, 0),
    "JensenShannon": (0.5 * (vs(x * log(2 * x / (x + y))) + vs(y * log(2 * y / (x + y)))), 1, 1, 0),
    "JensenDifference": (0.5 * vs((x * log(x) + y * log(y)) / 2 - ((x + y) / 2) * log((x + y) / 2)), 1, 1, 0),
    "MaxSymmetric": (fmax(vs((x - y) ** 2 / x), vs((x - y) ** 2 / y)), 1, 1, 0),
    "MinSymmetric": (fmin(vs((x - y) ** 2 / x), vs((x - y) ** 2 / y)), 1, 1, 0),
    "AverageL1Linf": ((vs(vabs(x - y)) + vmax(vabs(x - y))) / 2, 1, 1, 1),
    "KumarJohnson": (vs((x ** 2 + y ** 2) ** 2 / (2 * fpow(x * y, 1.5))), 1, 0, 0),
    "Taneja": (vs(((x + y) / 2) * log((x + y) / (2 * sqrt(x * y)))), 1, 1, 0),
    "Hassanat": (hass, 1, 1, 1),
}


def samesize(t):
    m = {s: ("size", ("par", 0, "")) for s in sym.subterms(t) if s[0] == "size" and s[1][0] == "par"}
    return sym.subst(t, m) if m else t


def check(p, rep):
    rep.rule("formula", "value graph of every named dissimilarity equals its published formula")
    rep.rule("symmetric", "value graph is invariant under exchanging the two points")
    rep.rule("identity", "value graph is zero when both points are the same")
    found = set()
    for f in sorted(p.fns.values(), key=lambda f: f.line):
        if f.n != "operator()" or not f.sq.startswith("mltk::metrics::dist::") or f.d.get("lambda") or len(f.params) != 2:
            continue
        name = f.sq.split("::")[-2]
        if not any(b.startswith("mltk::metrics::dist::DistanceMetric<") for b in p.all_bases(f.rec)):
            continue
        found.add(name)
        t, ev = sym.value_of(f)
        t = samesize(canon_par(t))
        # other instance calls of the metric family resolve through inlining
        if name in SPEC:
            spec, s_, z_, neg_ = SPEC[name]
            r, why = compare(t, spec)
            if r and neg_:
                r, why = compare(t, spec, lo=-2.0)
            rep.put(r, "formula", "%s distance" % name, "computes %s, published formula is %s: %s" % (sym.show(t)[:200], sym.show(w(spec))[:200], why), f.loc(), "formula|" + name)
        else:
            s_, z_ = 0, 0
        if s_:
            sw = sym.subst(t, {("par", 0, ""): ("par", 1, ""), ("par", 1, ""): ("par", 0, "")})
            sw = samesize(sw)
            r, why = compare(sw, samesize(t)) if not opaque(t) else (None, "unresolved")
            rep.put(r, "symmetric", "%s distance" % name, "d(x,y) != d(y,x): " + why, f.loc(), "symmetric|" + name)
        if z_:
            zt = sym.subst(t, {("par", 1, ""): ("par", 0, "")})
            r, why = compare(zt, 0)
            rep.put(r, "identity", "%s distance" % name, "d(x,x) is %s" % sym.show(zt)[:120], f.loc(), "identity|" + name)
    # the point arithmetic the dissimilarities are built from
    pointops.check(p, rep)
    if not found:
        raise AnchorError("no distance functors found")
    rep.floor("formula", 30)
