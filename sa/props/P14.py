"""Kernel values and matrices."""
import sym, ir
from golden import *

TYPES = {"INNER_PRODUCT": 0, "POLYNOMIAL": 1, "GAUSSIAN": 2}
K, H, HW = (("fld", ("this",), x) for x in ("K", "H", "HwithoutDim"))
TYPE = ("fld", ("this",), "type")
prm = T(("fld", ("this",), "param"))


def kfun(a, b, n, ty, skip=None):
    """the documented kernel of two points over the first n coordinates, optionally without one"""
    w_ = (lambda i, e: e) if skip is None else (lambda i, e: ifel(eq(i, skip), 0, e))
    d = sumi(0, n, lambda i: w_(i, a[i] * b[i]))
    if ty == 0:
        return d
    if ty == 1:
        return ifel(lt(1, prm), fpow(d, prm), d)
    return exp(-prm * sumi(0, n, lambda i: w_(i, (a[i] - b[i]) ** 2)))


def check(p, rep):
    rep.rule("function", "the kernel value equals its documented formula, per kernel type")
    rep.rule("matrix", "every element of a kernel-derived matrix equals its definition, per kernel type")
    rep.rule("norm", "norms computed from the kernel matrix equal their definition")
    rep.rule("cache", "changing type or parameter, or asking for it, invalidates the cached matrix")
    g = Golden(p, rep)
    d = par(0)
    y = lambda i: d[i].y
    al = lambda i: d[i].m_alpha if False else T(("fld", w(d[i]), "alpha"))
    n = size(d)
    for f in sorted(p.fns.values(), key=lambda f: f.key):
        if not f.sq.startswith("mltk::Kernel::"):
            continue
        for tn, ty in TYPES.items():
            u = {TYPE: sym.num(ty)}
            if f.n == "function":
                g.ret("function", f, kfun(par(0), par(1), par(2), ty), "Kernel::function %s" % tn, under=u)
            elif f.n == "functionWithoutDim":
                g.ret("function", f, kfun(par(0), par(1), par(3), ty, par(2)), "Kernel::functionWithoutDim %s" % tn, under=u)
            elif f.n == "compute":
                g.elem("matrix", f, ifel(this.computed, this.K[I][J], kfun(d[I], d[J], dim(d), ty)), "Kernel::compute K %s" % tn, base=K, depth=2, under=u)
            elif f.n == "generateMatrixH":
                g.elem("matrix", f, kfun(d[I], d[J], dim(d), ty) * y(I) * y(J), "Kernel::generateMatrixH %s" % tn, base=H, depth=2, under=u)
            elif f.n == "generateMatrixHwithoutDim":
                g.elem("matrix", f, kfun(d[I], d[J], dim(d), ty, par(1)) * y(I) * y(J), "Kernel::generateMatrixHwithoutDim %s" % tn, base=HW, depth=2, under=u)
        if f.n in ("norm", "featureSpaceNorm"):
            pos = (lambda i, e: e) if f.n == "norm" else (lambda i, e: ifel(lt(0, al(i)), e, 0))
            g.ret("norm", f, sqrt(sumi(0, n, lambda i: pos(i, al(i) * y(i) * sumi(0, n, lambda j: pos(j, al(j) * y(j) * this.K[i][j]))))))
        if f.n in ("setType", "setParam", "recompute"):
            g.after("cache", f, ("fld", ("this",), "computed"), 0)
        if f.n in ("setType", "setParam"):
            g.after("cache", f, ("fld", ("this",), {"setType": "type", "setParam": "param"}[f.n]), par(0))
        if f.n in ("getType", "getParam"):
            g.ret("cache", f, T(("fld", ("this",), f.n[3:].lower())))
