"""Raw decision values."""
import sym
from golden import *
from props.models import *


def check(p, rep):
    rep.rule("raw", "with raw output requested the decision value itself is returned")
    rep.rule("label", "otherwise 1 for a non-negative decision value and -1 for a negative one")
    rep.rule("request", "one-vs-all asks its members for raw output and takes the largest")
    rep.rule("vote", "one-vs-one lets every pair of classes vote by the sign of its member's decision")
    g = Golden(p, rep)
    for f, label, kind, dec, ok, u in models(p):
        if kind != "class":
            continue
        g.ret("raw", f, guarded(ok, dec), label, under=dict(u, **{}) | {RAW: sym.ONE})
        g.ret("label", f, guarded(ok, ifel(lt(dec, 0), -1, 1)), label, under=dict(u) | {RAW: sym.ZERO})
    multi(p, g)
    rep.floor("raw", 4)
    rep.floor("label", 4)


def pred(l, raw):
    return T(("call", "mltk::Learner::evaluate", w(l), w(P0), sym.num(raw)))


def multi(p, g):
    C = S.m_classes
    B = this.base_learners
    for f in p.named("mltk::classifier::OneVsAll::evaluate"):
        g.ret("request", f, C[argm("max", 0, size(B), lambda i: pred(B[i], 1))])
    for f in p.named("mltk::classifier::OneVsOne::evaluate"):
        def votes(c):
            return sumi(0, size(B), lambda i: sumi(0, size(B[i]), lambda j: ifel(eq(C[i], C[j]), 0, ifel(eq(pred(B[i][j], 0), 1), eq(c, i), eq(c, j)))))
        g.ret("vote", f, C[argm("max", 0, size(C), votes)])
