"""Reference decision rules of the models (shared by the prediction properties)."""
import ir, sym
from golden import *
from props.P14 import kfun

W = T(("fld", w(this.solution), "w"))
bias = this.solution.bias
P0 = par(0)
S = this.samples
RAW = ("par", 1, "")


def linear(W=W, b=bias, n=None):
    return b + sumi(0, size(W) if n is None else n, lambda i: W[i] * P0[i])


def kernelsum(ty):
    k = T(("fld", ("this",), "kernel"))

    def kf(a, b):
        t = w(kfun(a, b, dim(S), ty))
        return T(sym.subst(t, {("fld", ("this",), "param"): w(k.param)}))
    return bias + sumi(0, size(S), lambda r: this.solution.alpha[r] * S[r].y * kf(P0, S[r]))


def guarded(ok, v):
    return ifel(ok, v, 0)


def thresholded(f):
    return ifel(T(RAW), f, ifel(lt(f, 0), -1, 1))


KT = w(T(("fld", ("this",), "kernel")).type)
FULL = {("mltk::classifier::PrimalClassifier::evaluate",): "primal"}


def ancestors(p, rec):
    out, todo = set(), [rec]
    while todo:
        r = todo.pop()
        if r in out:
            continue
        out.add(r)
        todo += [b["t"] if isinstance(b, dict) else b for b in p.records.get(r, {}).get("bases", [])]
    return {ir.short(x or "") for x in out}


def models(p):
    """(function, label, kind, decision value, guard, substitution)"""
    for f in sorted(p.fns.values(), key=lambda f: f.key):
        if f.n != "evaluate" or not f.rec or f.body < 0:
            continue
        c = f.sq
        if c == "mltk::classifier::PrimalClassifier::evaluate":
            yield f, "primal classifier", "class", linear(), eq(size(W), size(P0)), {}
            continue
        elif c == "mltk::classifier::DualClassifier::evaluate":
            for ty, n in enumerate(("inner product", "polynomial", "gaussian")):
                yield f, "dual classifier, %s kernel" % n, "class", kernelsum(ty), eq(dim(S), size(P0)), {KT: sym.num(ty)}
            continue
        elif c == "mltk::regressor::PrimalRegressor::evaluate":
            yield f, "primal regressor", "value", linear(), eq(size(W), size(P0)), {}
            continue
        elif c == "mltk::regressor::DualRegressor::evaluate":
            yield f, "dual regressor", "value", linear(), eq(size(W), size(P0)), {}
            continue
        if c.split("::")[-2] in ("KNNClassifier", "KNNRegressor", "OneVsAll", "OneVsOne"):
            continue        # decision rules of their own (P29, P10)
        anc = ancestors(p, f.rec)
        kind = "class" if "mltk::classifier::PrimalClassifier" in anc else "value" if anc & {"mltk::regressor::PrimalRegressor", "mltk::regressor::DualRegressor"} else None
        label = c.replace("mltk::", "").replace("::evaluate", "")
        if kind:
            own = {x["n"] for x in p.records[f.rec].get("fields", [])}
            uses = {f.N[i]["n"] for i in f.walk_all() if f.N[i]["c"] == "MemberExpr" and f.N[i].get("dk") == "field"}
            Wt, b = (this.weights, this.bias) if {"weights", "bias"} <= own & uses else (W, bias)
            n = size(Wt)
            if "w" in uses and Wt is W and any(f.N[i]["c"] == "CXXMemberCallExpr" and ir.short(f.N[i]["f"]["fq"]) == "mltk::Data::dim" for i in f.calls()):
                n = dim(S)       # trained on as many coordinates as the training data has
            yield f, label, kind, linear(Wt, b, n), eq(n, size(P0)), {}
        elif "mltk::classifier::DualClassifier" in anc:
            for ty, n in enumerate(("inner product", "polynomial", "gaussian")):
                yield f, label + ", %s kernel" % n, "class", kernelsum(ty), eq(dim(S), size(P0)), {KT: sym.num(ty)}
