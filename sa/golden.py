"""Reference value graphs: the value a function returns (or leaves in a field) is compared with
the term of its definition.  Equal normal forms hold; terms that differ at a common algebraic
point are violations; anything not fully resolved is undecided."""
import ir, sym, numeval, random
from formula import *
from sym import ZERO, ONE

I, J, K_ = ("bv", 901), ("bv", 902), ("bv", 903)


def norm(t):
    """points, datasets: accessor spellings are one thing"""
    return sym.rewrite(t, norm1)


def norm1(s):
    if s[0] == "par":
        return ("par", s[1], "")
    if s[0] == "fld" and s[2] in ("x", "m_points"):
        return s[1]
    if s[0] == "fld" and s[2] == "m_size":
        return ("size", s[1])
    if s[0] == "fld" and s[2] == "m_dim":
        return DIM(s[1])
    if s[0] == "ite" and s[1][0] == "cmp" and s[1][1] == "==" and s[1][2] == ZERO and s[1][3][0] == "size" and s[2] == ZERO and s[3] == ("size", ("idx", s[1][3][1], ZERO)):
        return DIM(s[1][3][1])
    return s


def DIM(b):
    return ("size", ("fld", b, "#dim"))


def dim(b):
    return T(DIM(w(b)))


def rank2(*ts):
    out = set()
    for t in ts:
        for s in sym.subterms(t):
            if s[0] in ("idx", "fld", "size") and s[1][0] == "idx":
                out.add(numeval.shape(s[1][1]))
            if s[0] == "fld" and s[2] == "#dim":
                out.add(numeval.shape(s[1]))
            if s[0] == "el" and s[1][0] == "idx":
                out.add(numeval.shape(s[1][1]))
    return out


def unlam(t, idx=(I, J, K_)):
    for k in idx:
        if t[0] == "lam":
            t = norm(sym.subst(t[2], {t[1]: k}))
        else:
            break
    return t


def judge(t, spec, strict=False, lo=-1.7, hi=2.0, trials=24, bind=None, under=None, ragged=True):
    """compare a resolved value with its definition"""
    t, spec = norm(unlam(t)), norm(w(spec))
    if under:
        t, spec = sym.subst(t, under), sym.subst(spec, under)
    if t == spec:
        return True, "normal forms coincide"
    o = opaque(t)
    r2 = rank2(t, spec)

    def uniform(x, s, d):
        if numeval.shape(x) in r2:
            return 2 + (d + s) % 3
        return 5 + s % 2

    def distinct(x, s, d):
        return 2 + random.Random("%r|%s" % (numeval.shape(x), s)).randrange(3)
    r, why = numeval.same(t, spec, trials=trials, binder=bind, lo=lo, hi=hi, sizes=uniform)
    if r is True and not o and bind is None:
        kinds = [{s_[1] for s_ in sym.subterms(x) if s_[0] == "arg"} for x in (t, spec)]
        if any(k + "l" in kinds[0] and k + "l" not in kinds[1] and k in kinds[1] for k in ("min", "max")):
            # first or last of equal values: compare where values tie
            def few(ne, x):
                return float(random.Random("%s|%s" % (x, ne.seed)).randint(1, 2)) if x[0] not in ("size",) else None
            rt, whyt = numeval.same(t, spec, trials=trials, binder=few, lo=lo, hi=hi, sizes=uniform)
            if rt is False:
                return False, "differs where values tie (%s)" % whyt
    if r is False and o:
        return None, "value not fully resolved (%s)" % o
    if r is not True or not ragged:
        return r, why
    r2_, why2 = numeval.same(t, spec, trials=trials, binder=bind, lo=lo, hi=hi, sizes=distinct)
    if r2_ is False:
        return (None if o or not strict else False), "differs for operands of different size (%s)" % why2
    return True, why


class Golden:
    def __init__(self, p, rep):
        self.p, self.rep = p, rep
        self.ev = {}

    def run(self, f):
        if f.key not in self.ev:
            self.ev[f.key] = sym.value_of(f)
        return self.ev[f.key]

    def put(self, rule, who, f, t, spec, what="returns", **kw):
        kw.setdefault("strict", False)
        key = kw.pop("key", None)
        if t is None:
            self.rep.unk(rule, who, "no value", f.loc())
            return None
        r, why = judge(t, spec, **kw)
        self.rep.put(r, rule, who, "%s %s; defined as %s (%s)" % (what, sym.show(norm(unlam(t)))[:700], sym.show(norm(w(spec)))[:400], why), f.loc(), key)
        return r

    def ret(self, rule, f, spec, who=None, **kw):
        t, ev = self.run(f)
        return self.put(rule, who or name(f), f, t, spec, **kw)

    def elem(self, rule, f, spec, who=None, base=None, depth=1, **kw):
        """element (I, J) of the container returned, or of the field base after the call"""
        t, ev = self.run(f)
        b = base if base is not None else t
        if b[0] == "lam":
            t = b
        elif b[0] in sym.ADDR:
            ix = (I, J, K_)[:depth]
            for k in ix:
                b = ("idx", b, k)
            ev.assume |= set(ix)
            t = ev.load(b)
            ev.assume -= set(ix)
        else:
            t = sym.index(b, I)
        return self.put(rule, (who or name(f)), f, t, spec, what="element [i] is" if depth == 1 else "element [i][j] is", **kw)

    def field(self, rule, f, n, spec, who=None, **kw):
        """a member of the object returned"""
        t, ev = self.run(f)
        v = ev.fieldof(t, n, None) if t is not None else None
        return self.put(rule, (who or name(f)) + " ." + n, f, v, spec, what="returns", **kw)

    def after(self, rule, f, addr, spec, who=None, **kw):
        """value of a memory cell when the function returns"""
        t, ev = self.run(f)
        return self.put(rule, (who or name(f)) + " " + sym.show(addr), f, ev.load(addr), spec, what="leaves", **kw)


def name(f):
    return f.sq.replace("mltk::", "")
