"""Element-wise arithmetic on points: operators, expression nodes, compound assignments,
reductions.  Shared by the properties that rely on it."""
import ir, sym, numeval
from formula import *

OPS = {"operator+": lambda a, b: a + b, "operator-": lambda a, b: a - b, "operator*": lambda a, b: a * b, "operator/": lambda a, b: a / b,
       "operator%": lambda a, b: T(("call", "mod", w(a), w(b)))}
UN = {"abs": vabs, "exp": exp, "log": log, "sin": fn("sin"), "cos": fn("cos")}
I = ("sym", "i")


def is_point(t):
    return t.replace("const ", "").strip("& ").startswith("mltk::Point<")


def simp(f):
    return tuple("expr" if ("mltk::A_" in q["t"] or "mltk::F_" in q["t"]) else ("point" if is_point(q["t"]) else q["t"].replace("const ", "").strip("& ").split("<")[0]) for q in f.params)


class Elem:
    """coordinate i of an expression-template object"""
    def __init__(self, p):
        self.p = p
        self.recs = {}
        self.opidx = {}
        for f in p.fns.values():
            if f.n == "operator[]" and f.rec and f.rec.startswith("mltk::") and len(f.params) == 1 and f.d.get("const"):
                self.opidx.setdefault(f.rec, f)

    def of(self, t, rec=None, depth=0):
        """rec: the record type of the object (template-id), from the return type"""
        if depth > 6:
            return None
        if t[0] == "obj" and t[1].startswith("mltk::"):
            rec = rec if rec and ir.short(rec) == t[1] else self.any_rec(t[1])
            f = self.opidx.get(rec)
            ctor = None
            for c in self.p.fns.values():
                if c.rec == rec and c.n == t[1].split("::")[-1] and len(c.params) == len(t) - 2 and not (len(c.params) == 1 and c.params[0]["t"].startswith("const " + rec)):
                    ctor = c
            if not f or not ctor:
                return None
            # constructor: member <- parameter
            _, ev = sym.value_of(ctor)
            mem = {}
            for s in ev.stores:
                if s[1][0] == "fld" and s[1][1] == ("this",):
                    mem[s[1]] = s[2]
            e, _ = sym.value_of(f)
            e = sym.subst(canon_par(e), {("par", 0, ""): I})
            m2 = {}
            for k, v in mem.items():
                m2[k] = sym.subst(canon_par(v), {("par", j, ""): x for j, x in enumerate(t[2:])})
            e = sym.subst(e, m2)
            return self.expand(e, depth)
        return T(sym.index(t, I))

    def expand(self, e, depth):
        m = {}
        for s in sym.subterms(e):
            if s[0] == "idx" and s[1][0] == "obj":
                x = self.of(s[1], None, depth + 1)
                if x is not None:
                    m[s] = w(x)
        return sym.subst(e, m) if m else e

    def any_rec(self, sh):
        for r in self.opidx:
            if ir.short(r) == sh:
                return r


def unx(t):
    """a.X()[i] is a[i]"""
    m = {s: s[1] for s in sym.subterms(t) if s[0] == "fld" and s[2] == "x" and s[1][0] in ("par", "this")}
    return sym.subst(t, m) if m else t


def isz(t, base):
    return t == ("size", base) or t == ("size", ("fld", base, "x"))


def check(p, rep, rule="elementwise", red="reduction", asg="assignment"):
    rep.rule(rule, "coordinate i of every point operator and function is that operation on coordinate i of the operands")
    rep.rule(red, "sum, dot product, norms, minimum and maximum equal their definitions")
    rep.rule(asg, "compound assignment updates exactly the coordinates of the range, each with the operand's same coordinate")
    el = Elem(p)
    done = {}
    for f in sorted(p.fns.values(), key=lambda f: (f.file, f.line, f.key)):
        if not f.file.endswith(("core/Point.hpp", "core/ExprOps.hpp", "core/ExprScalar.hpp")):
            continue
        nm, sq = f.n, f.sq
        who = "%s(%s)" % (sq, ", ".join(simp(f)))
        if sq == "mltk::" + nm and (nm in OPS and len(f.params) == 2 or nm in UN and len(f.params) == 1 and is_point(f.params[0]["t"]) or nm == "pow" and len(f.params) == 2 and is_point(f.params[0]["t"])):
            t, ev = sym.value_of(f)
            t = unx(canon_par(t))
            args = []
            for k, q in enumerate(f.params):
                args.append(T(("idx", ("par", k, ""), I)) if is_point(q["t"]) else par(k))
            got = el.of(t)
            if got is None:
                # eager implementations: a point filled coordinate by coordinate, or a plain term
                got = eager(t, ev)
            spec = OPS[nm](*args) if nm in OPS else (fpow(*args) if nm == "pow" else UN[nm](*args))
            if got is None:
                r, why = None, "result not recognised"
            else:
                r, why = compare(unx(canon_par(w(got))), spec)
            key = "%s|%s" % (rule, who)
            rep.put(r, rule, who, "coordinate i is %s, expected %s" % (sym.show(w(got)) if got is not None else "?", sym.show(w(spec))), f.loc(), key)
            continue
        if ir.short(f.rec or "") in ("mltk::BExprOp", "mltk::UExprOp") and nm == "size":
            t, _ = sym.value_of(f, inline=False)
            rec = p.records.get(f.rec, {})
            fl = {x["n"]: x["t"] for x in rec.get("fields", [])}
            m = {s: ("size", s[2]) for s in sym.subterms(t) if s[0] == "call" and str(s[1]).endswith("size") and len(s) == 3}
            t = sym.subst(t, m)
            ops = sorted(n for n in fl)
            A = [("size", ("fld", ("this",), n)) for n in ops]
            sc = ["A_Scalar<" in fl[n].split("mltk::")[1][:9] if "mltk::" in fl[n] else False for n in ops]
            A = [sym.ZERO if s_ else a for a, s_ in zip(A, sc)]
            t = sym.subst(t, {("size", ("fld", ("this",), n)): sym.ZERO for n, s_ in zip(ops, sc) if s_})
            # all vector operands have one size
            vecs = [a for a in A if a != sym.ZERO]
            if vecs and not opaque(t):
                t = sym.subst(t, {a: vecs[0] for a in vecs})
                ok = t in (vecs[0], sym.ite(sym.cmp_("==", vecs[0], sym.ZERO), vecs[0], vecs[0])) or (t[0] == "ite" and t[2] in (vecs[0], sym.ZERO) and t[3] in (vecs[0], sym.ZERO) and compare(t, vecs[0], lo=0.5)[0])
                rep.put(bool(ok), rule, "%s::size" % ir.short(f.rec) + ("/scalar" if any(sc) else ""), "size of the lazily evaluated result is %s, expected the size of its point operand" % sym.show(t), f.loc())
            continue
        if sq in ("mltk::dot", "mltk::max", "mltk::min", "mltk::norm", "mltk::Point::norm", "mltk::Point::sum"):
            t, ev = sym.value_of(f)
            t = unx(canon_par(t))
            x = vec(0)
            if sq == "mltk::dot":
                spec = vs(x * vec(1))
            elif sq == "mltk::max":
                spec = vmax(x)
            elif sq == "mltk::min":
                spec = vmin(x)
            elif sq == "mltk::Point::sum":
                spec = vs(fn("operator()")(par(0), vec(this)))
                if w(spec) != t:
                    spec = vs(vec(this))
            else:
                q = par(1) if sq == "mltk::norm" else par(0)
                v = x if sq == "mltk::norm" else vec(this)
                spec = ifel(eq(q, 0), vmax(vabs(v)), fpow(vs(fpow(vabs(v), q)), 1 / q))
                li = p.enums.get("mltk::NormType", {})
                vals = dict((e["n"], e["v"]) for e in li.get("vals", []) or []) if li else {}
            r, why = compare(t, spec)
            rep.put(r, red, who.split("(")[0], "computes %s, expected %s (%s)" % (sym.show(t), sym.show(w(spec)), why), f.loc())
            continue
        if f.rec and ir.short(f.rec) == "mltk::Point" and nm in ("operator+=", "operator-=", "operator*=", "operator/=", "operator=") and len(f.params) == 1:
            t, ev = sym.value_of(f)
            isvec = is_point(f.params[0]["t"]) or "std::vector" in f.params[0]["t"]
            sts = [s for s in ev.stores if s[1][0] == "idx"]
            who2 = "Point::%s(%s)" % (nm, simp(f)[0])
            if any(s[1][0] == "fld" and s[1][2] == "x" for s in ev.stores) and nm == "operator=":
                rep.ok(asg, who2)
                continue
            if len(sts) != 1 or not sts[0][4] or not isinstance(sts[0][4][-1][0], tuple):
                rep.unk(asg, who2, "%d coordinate stores" % len(sts), f.loc())
                continue
            s = sts[0]
            bv, lo, hi = s[4][-1]
            # before its own store the cell holds the operand's value
            val = sym.subst(s[2], {x: x[2] for x in sym.subterms(s[2]) if x[0] == "phi" and len(x) == 3 and x[2] == s[1]})
            tgt, val = unx(canon_par(s[1])), unx(canon_par(val))
            b = ("idx", ("par", 0, ""), bv) if isvec else ("par", 0, "")
            old = ("idx", ("this",), bv)
            spec = b if nm == "operator=" else w(OPS[nm[:-1]](T(old), T(b)))
            hi = unx(canon_par(hi))
            r, why = compare(val, spec)
            cond = [c for c in s[3]]
            full = lo == sym.ZERO and tgt == old and (isz(hi, ("par", 0, "")) if isvec and isz(hi, ("par", 0, "")) else isz(hi, ("this",))) and not cond
            if r and not full and opaque(hi):
                r = None
            rep.put(r if not r else bool(full), asg, who2, "stores %s = %s for i in [%s, %s); expected %s over every coordinate" % (sym.show(tgt), sym.show(val), sym.show(lo), sym.show(hi), sym.show(spec)), f.loc())
            if nm == "operator=" and isvec and isz(hi, ("par", 0, "")):
                # sizes must agree afterwards
                rs = [x for x in ev.stores if x[1][0] == "size" and x[2][1] == "resize"]
                okc = any(not x[3] or all(c == sym.not_(sym.cmp_("==", *[sym.subst(z, {}) for z in c[2:]])) if c[0] == "cmp" and c[1] == "!=" else False for c in x[3]) for x in rs)
                rep.put(bool(okc) if rs else None, asg, who2 + " size", "the target keeps its old size when it is larger than the assigned value, so coordinates of the old value remain", f.loc())


def eager(t, ev):
    """a result object filled by one full-range loop"""
    sts = [s for s in ev.stores if s[1][0] == "idx" and s[1][1][0] == "loc" and s[4]]
    if len(sts) == 1 and sts[0][1][2] == sts[0][4][-1][0] and sts[0][4][-1][1] == sym.ZERO and not sts[0][3]:
        return T(sym.subst(sts[0][2], {sts[0][4][-1][0]: I}))
    if t and t[0] in ("poly", "call"):
        return None
    return None
