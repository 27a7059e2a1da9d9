"""Statistics."""
import pointops, sym
from golden import *


def check(p, rep):
    rep.rule("formula", "each statistic's value graph equals its definition")
    g = Golden(p, rep)
    D = par(0)
    n = size(D)

    def feat_ok(j, feat):
        return T(sym.bool2("or", sym.cmp_("<", w(feat), ZERO), sym.cmp_("!=", w(D.fnames[j]), w(feat))))

    def center(j):
        return sumi(0, n, lambda i: D[i][j]) / n

    def sq(feat, i):
        return sumi(0, dim(D), lambda j: ifel(feat_ok(j, feat), (D[i][j] - center(j)) ** 2, 0))
    for f in sorted(p.fns.values(), key=lambda f: f.key):
        if not f.file.endswith("core/Statistics.hpp"):
            continue
        pt = pointops.is_point(f.params[0]["t"]) if f.params else False
        nm = f.n
        feat = par(1)
        kw = {}
        if nm == "mean":
            spec = vs(vec(0)) / size(par(0)) if pt else sumi(0, n, lambda i: D[i][feat]) / n
        elif nm in ("var", "std_dev") and pt:
            v = vs((vec(0) - vs(vec(0)) / n) ** 2) / n
            spec = v if nm == "var" else sqrt(v)
        elif nm == "std_dev":
            m = sumi(0, n, lambda i: D[i][feat]) / n
            spec = ifel(eq(n, 1), 0, sqrt(sumi(0, n, lambda i: (D[i][feat] - m) ** 2) / (n - 1)))
        elif nm == "var":
            spec = sumi(0, n, lambda i: sq(feat, i)) / n
        elif nm == "covar":
            a, b = vec(0), vec(1)
            spec = vs((a - vs(a) / size(a)) * (b - vs(b) / size(b))) / (size(b) - 1)
        elif nm == "radius":
            q = par(2)
            r2 = sumi(0, n, lambda i: sqrt(sq(feat, i)), "max")
            spec = (r2, sumi(0, n, lambda i: sumi(0, dim(D), lambda j: ifel(feat_ok(j, feat), vabs(D[i][j]), 0), "max"), "max"))
            for qv, s in zip((2, 1), spec):
                t, ev = g.run(f)
                g.put("formula", "stats::radius q=%d" % qv, f, norm(sym.subst(canon_par(t), {("par", 2, ""): sym.num(qv)})), s)
            continue
        elif nm in ("distCenters", "distCentersWithoutFeats"):
            y = lambda i: T(("fld", w(D[i]), "y"))
            np_ = sumi(0, n, lambda i: ifel(eq(y(i), 1), 1, 0))
            nn = sumi(0, n, lambda i: ifel(eq(y(i), 1), 0, 1))
            cp = lambda j: sumi(0, n, lambda i: ifel(eq(y(i), 1), D[i][j], 0)) / np_
            cn = lambda j: sumi(0, n, lambda i: ifel(eq(y(i), 1), 0, D[i][j])) / nn
            d2 = lambda j: (cp(j) - cn(j)) ** 2
            if nm == "distCenters":
                spec = sqrt(sumi(0, dim(D), lambda j: ifel(feat_ok(j, feat), d2(j), 0)))
            else:
                F = par(1)
                spec = sqrt(vabs(sumi(0, dim(D), lambda j: sumi(0, size(F), lambda k: ifel(eq(D.fnames[j], F[k]), d2(j), 0)))))
        else:
            continue
        g.ret("formula", f, spec, "stats::%s(%s)" % (nm, "point" if pt else "data"), **kw)
    rep.floor("formula", 8)
