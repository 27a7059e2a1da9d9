"""Dimension guards of linear and kernel models."""
import sym
from golden import *
from props.models import *


def check(p, rep):
    rep.rule("guard", "the prediction for a point whose size differs from the model's dimension is the error value 0")
    rep.rule("guard-first", "no coordinate of the point is read before the dimension test")
    g = Golden(p, rep)
    for f, label, kind, dec, ok, u in models(p):
        full = guarded(ok, thresholded(dec) if kind == "class" else dec)
        g.ret("guard", f, full, label, under=u, strict=True)
        t, ev = g.run(f)
        t = norm(sym.subst(t, u))
        # outside the guarded branch nothing of the point but its size occurs
        rest = sym.subst(t, {w(norm(w(ok))): sym.ZERO})
        leak = [s for s in sym.subterms(rest) if s[0] in ("idx", "el") and s[1] == ("par", 0, "")]
        rep.put(None if opaque(rest) else not leak, "guard-first", label, "with a point of the wrong size the result is %s" % sym.show(rest)[:300], f.loc())
    rep.floor("guard", 5)
