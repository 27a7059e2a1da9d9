"""Term specifications: tiny algebra for writing reference formulas, and comparison of a
function's value graph against one."""
import sym, numeval
from sym import *


class T:
    """Operator-overloaded wrapper around terms."""
    def __init__(self, t):
        self.t = t if isinstance(t, tuple) else sym.num(t)

    def __add__(s, o): return T(sym.add(s.t, w(o)))
    __radd__ = __add__
    def __sub__(s, o): return T(sym.sub(s.t, w(o)))
    def __rsub__(s, o): return T(sym.sub(w(o), s.t))
    def __mul__(s, o): return T(sym.mul(s.t, w(o)))
    __rmul__ = __mul__
    def __truediv__(s, o): return T(sym.div(s.t, w(o)))
    def __rtruediv__(s, o): return T(sym.div(w(o), s.t))
    def __neg__(s): return T(sym.neg(s.t))
    def __pow__(s, o): return T(sym.call("pow", [s.t, w(o)]))
    def __getattr__(s, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return T(("fld", s.t, n))
    def __getitem__(s, i): return T(("idx", s.t, w(i)))


def w(x):
    return x.t if isinstance(x, T) else (x if isinstance(x, tuple) else sym.num(x))


def fn(name):
    return lambda *a: T(sym.call(name, [w(x) for x in a]))


sqrt, log, exp, vabs, fmax, fmin, tanh, fpow = (fn(n) for n in ("sqrt", "log", "exp", "abs", "max", "min", "tanh", "pow"))
vs = lambda x: T(sym.vred("sum", w(x)))
vmax = lambda x: T(sym.vred("max", w(x)))
vmin = lambda x: T(sym.vred("min", w(x)))
size = lambda x: T(("size", w(x)[1] if w(x)[0] == "el" else w(x)))
par = lambda i: T(("par", i, ""))
vec = lambda x: T(("el", w(x) if not isinstance(x, int) else ("par", x, "")))


def sumi(lo, hi, f, kind="sum"):
    """sum of f(i) for lo <= i < hi"""
    b = sym.fresh()
    return T(sym.red(kind, w(f(T(b))), {"bv": b, "lo": w(lo), "hi": w(hi)}))


def argm(kind, lo, hi, f):
    """position of the first largest / smallest f(i)"""
    b = sym.fresh()
    return T(sym.binder("arg", kind, w(f(T(b))), {"bv": b, "lo": w(lo), "hi": w(hi)}))


def first(lo, hi, f):
    """first i with f(i), else hi"""
    b = sym.fresh()
    return T(sym.binder("fst", "first", w(f(T(b))), {"bv": b, "lo": w(lo), "hi": w(hi)}))


this = T(("this",))
ifel = lambda c, a, b: T(sym.ite(w(c), w(a), w(b)))
lt = lambda a, b: T(sym.cmp_("<", w(a), w(b)))
eq = lambda a, b: T(sym.cmp_("==", w(a), w(b)))


def canon_par(t):
    """drop parameter names"""
    m = {s: ("par", s[1], "") for s in sym.subterms(t) if s[0] == "par"}
    return sym.subst(t, m) if m else t


OPAQUE = {"out", "phi", "sym", "undef", "after", "new", "var", "comp"}


def opaque(t):
    for s in sym.subterms(t):
        if s[0] in OPAQUE or (s[0] == "call" and s[1] in ("maybe", "switch", "?")):
            return sym.show(s)[:80]
    return None


def compare(t, spec, **kw):
    """True / False / None, message"""
    t = canon_par(t)
    spec = w(spec)
    if t == spec:
        return True, "normal forms coincide"
    o = opaque(t)
    r, why = numeval.same(t, spec, **kw)
    if r is False and o:
        return None, "value not fully resolved (%s)" % o
    if r is None:
        return None, why
    return r, why
