"""Definite initialisation: members after every constructor, locals before every read, a value on
every returning path."""
import re
import ir, flow
from props.common import *

SCALAR = re.compile(r"^(unsigned |signed )?(int|char|short|long|long long|bool|float|double|long double|unsigned|size_t|wchar_t)( int)?$|^unsigned( long| long long| char| short| int)$")
NORETURN = {"exit", "abort", "terminate", "_Exit", "quick_exit", "__assert_fail", "__throw_bad_function_call", "rethrow_exception", "throw_with_nested", "unreachable", "__builtin_unreachable"}


def scalar(t, p=None):
    t = (t or "").strip()
    if t.endswith("&"):
        return False
    if t.endswith("const"):
        t = t[:-5].strip()
    if t.startswith("const "):
        t = t[6:]
    if t.endswith("*"):
        return True
    return bool(SCALAR.match(t)) or (p is not None and t in p.enums)


def noreturn(fn, n):
    return n["c"] == "CXXThrowExpr" or ("f" in n and "a" in n and ir.short(n["f"]["fq"]).split("::")[-1] in NORETURN)


def leaves_normally(fn, b):
    """does control leave the function normally at the end of block b (a predecessor of the exit)?"""
    for e in fn.cfg.blocks[b]["e"]:
        if isinstance(e, int) and noreturn(fn, fn.N[e]):
            return False
    return True


class Init:
    """members definitely assigned by constructors and methods"""

    def __init__(self, p):
        self.p = p
        self.memo = {}

    def inclass(self, rec):
        return {(b, f["n"]) for b, f in self.p.all_fields(rec) if f["init"]}

    def own(self, fn, i):
        """(record, member) of this object that the lvalue i denotes"""
        i = fn.strip(i)
        n = fn.N[i]
        if n["c"] == "MemberExpr" and n.get("dk") == "field" and n["k"] and fn.N[fn.strip(n["k"][0])]["c"] == "CXXThisExpr":
            return (n.get("rec"), n["n"])
        return None

    def gens(self, fn, i):
        """members assigned when node i is evaluated"""
        n = fn.N[i]
        c = n["c"]
        out = set()
        if c == "BinaryOperator" and n.get("op") == "=":
            out.add(self.own(fn, n["k"][0]))
            # a = b = v
        elif c == "CXXOperatorCallExpr" and n.get("op") == "=" and n["a"]:
            out.add(self.own(fn, n["a"][0]))
            a = fn.N[fn.strip(n["a"][0])]
            if a["c"] == "UnaryOperator" and a["op"] == "*" and fn.N[fn.strip(a["k"][0])]["c"] == "CXXThisExpr":
                out |= {("*", "*")}
        elif c == "UnaryOperator" and n.get("op") == "&":
            out.add(self.own(fn, n["k"][0]))
        elif c == "CXXOperatorCallExpr" and n.get("op") == ">>" and len(n["a"]) == 2:
            out.add(self.own(fn, n["a"][1]))
        if "f" in n and "a" in n and c not in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            o, a = fn.args(i)
            pk = n["f"].get("pk", "")
            for k, x in enumerate(a):
                if pk[k:k + 1] in ("R", "P"):
                    out.add(self.own(fn, x))
            if o is not None and fn.N[fn.strip(o)]["c"] == "CXXThisExpr" or c == "CXXMemberCallExpr" and "o" not in n:
                ts = self.p.call_targets(fn, i)
                if ts and not n["f"].get("stat"):
                    out |= set.intersection(*[self.must(t) for t in ts])
        out.discard(None)
        return out

    def must(self, fn):
        """members assigned on every path through fn"""
        if fn.key in self.memo:
            return self.memo[fn.key]
        self.memo[fn.key] = set()
        cfg = fn.cfg
        TOP = None
        inn = {cfg.entry: frozenset(self.start(fn))}
        work = [cfg.entry]
        out = {}
        n = 0
        while work and n < 20000:
            n += 1
            b = work.pop()
            s = set(inn[b])
            dead = False
            for e in cfg.blocks[b]["e"]:
                if isinstance(e, int):
                    if noreturn(fn, fn.N[e]):
                        dead = True
                        break
                    s |= self.gens(fn, e)
            if dead:
                continue
            s = frozenset(s)
            if out.get(b) == s:
                continue
            out[b] = s
            for x in cfg.succ[b]:
                new = s if x not in inn else inn[x] & s
                if x not in inn or new != inn[x]:
                    inn[x] = new
                    work.append(x)
                elif x not in out:
                    work.append(x)
        r = set(inn.get(cfg.exit, frozenset([("*", "*")])))
        self.memo[fn.key] = r
        return r

    def start(self, fn):
        s = set()
        if fn.d.get("kind") != "ctor":
            return s
        deleg = None
        for it in fn.d.get("inits", []):
            e = fn.strip(it["e"]) if it["e"] >= 0 else None
            if "field" in it:
                if it.get("written") or (e is not None and not self.trivial(fn, it)):
                    s.add((fn.rec, it["field"]))
            else:
                m = fn.N[e] if e is not None else {}
                t = self.p.fns.get(m.get("f", {}).get("fk"))
                if t is not None:
                    s |= self.must(t)
                else:
                    br = m.get("f", {}).get("rec") or it.get("base")
                    if br in self.p.records:
                        # constructor without a body of its own
                        s |= self.inclass(br)
                        if m.get("c") == "CXXInheritedCtorInitExpr":
                            s.add(("*", "*"))
        # in-class initialisers act unless the constructor delegates
        s |= {(fn.rec, f["n"]) for f in self.p.records.get(fn.rec, {}).get("fields", []) if f["init"]}
        return s

    def trivial(self, fn, it):
        """an implicit initialiser that leaves the member undefined"""
        e = fn.strip(it["e"])
        return fn.N[e]["c"] in ("ImplicitValueInitExpr",) and False


def plain(p, rec):
    """a record all of whose members are ours"""
    r = p.records.get(rec)
    return r is not None and not r.get("lambda")


def check(p, rep):
    rep.rule("member", "every constructor leaves every numeric, boolean, enumeration or pointer member with a value")
    rep.rule("local", "no local variable is read before it is assigned")
    rep.rule("return", "every path of a value-returning function returns a value")
    rep.floor("member", 200)
    rep.floor("return", 300)
    members(p, rep)
    locals_(p, rep)
    returns(p, rep)


def sig(f):
    return "%s(%s)" % (f.sq, ", ".join(re.sub(r"<.*>", "", a["t"]) for a in f.params))


def members(p, rep):
    I = Init(p)
    n = 0
    for rec, r in sorted(p.records.items()):
        if r.get("lambda") or "(lambda" in rec or not r["file"].endswith((".hpp", ".h", ".cpp")) or r.get("abstract"):
            continue
        flds = [(b, f) for b, f in p.all_fields(rec) if scalar(f["t"], p)]
        if not flds:
            continue
        sr = ir.short(rec)
        ctors = [f for f in p.methods(rec) if f.d.get("kind") == "ctor" and f.rec == rec]
        user = [f for f in ctors if not f.d.get("implicit") and not f.d.get("defaulted")]
        copies = [f for f in user if f.d.get("ck") in ("copy", "move")]
        todo = []
        for f in user:
            m = I.must(f)
            if ("*", "*") in m:
                rep.ok("member", sig(f), "", f.loc())
                continue
            if f in copies and assigns_whole(f):
                continue
            for b, x in flds:
                bad = (b, x["n"]) not in m
                rep.put(not bad, "member", "%s::%s after %s" % (ir.short(b), x["n"], sig(f)), "the constructor leaves the %s member %s without a value" % (x["t"], x["n"]), f.loc(), "member|%s::%s|%s" % (ir.short(b), x["n"], sig(f)))
                n += 1
        # the constructor the compiler provides
        if r.get("implicit_defctor") and not r.get("defctor_deleted"):
            for b, x in flds:
                okf = x["init"] or (b != rec and base_default(p, I, b, x))
                rep.put(okf, "member", "%s::%s after %s()" % (ir.short(b), x["n"], sr), "the default constructor leaves the %s member %s without a value" % (x["t"], x["n"]), "%s:%d" % (r["file"], x["l"]), "member|%s::%s|%s()" % (ir.short(b), x["n"], sr))


def base_default(p, I, b, x):
    """does the default constructor of base b give x a value?"""
    cs = [f for f in p.methods(b) if f.d.get("kind") == "ctor" and f.d.get("ck") not in ("copy", "move") and all(a.get("def") for a in f.params) and not f.d.get("implicit") and not f.d.get("defaulted")]
    if not cs:
        return x["init"]
    return (b, x["n"]) in I.must(cs[0]) or ("*", "*") in I.must(cs[0])


def assigns_whole(f):
    return any(n["c"] == "CXXOperatorCallExpr" and n.get("op") == "=" and n["a"] and f.N[f.strip(n["a"][0])]["c"] == "UnaryOperator" for n in f.N)


# ---------- locals ----------
def uses(fn):
    """variable -> {node: events} for every reference"""
    out = {}
    par = fn.parent
    for i, n in enumerate(fn.N):
        if n["c"] == "LambdaExpr":
            for cp in n.get("caps", []):
                if "id" in cp:
                    out.setdefault(cp["id"], {}).setdefault(i, []).append("set" if cp.get("ref") else "read")
            continue
        if n["c"] != "DeclRefExpr" or n.get("dk") != "var":
            continue
        ev, at = context(fn, i)
        if ev:
            d = out.setdefault(n["id"], {}).setdefault(at, [])
            for e in ev:
                d.append(e)
    return out


def context(fn, i):
    par = fn.parent
    while i in par:
        q = par[i]
        n = fn.N[q]
        c = n["c"]
        if c == "ImplicitCastExpr" and n.get("ck") == "LValueToRValue":
            return ["read"], q
        if c in ("ImplicitCastExpr", "ParenExpr", "MaterializeTemporaryExpr", "ExprWithCleanups"):
            i = q
            continue
        if c in ("BinaryOperator",) and n.get("op") == "=":
            if n["k"][0] == i:
                return ["set"], q
            return ["read"], q
        if c == "BinaryOperator" and n.get("op") == ",":
            return None, None
        if c == "CompoundAssignOperator":
            return ["read", "set"] if n["k"][0] == i else ["read"], q
        if c == "UnaryOperator":
            if n.get("op") in ("++", "--"):
                return ["read", "set"], q
            if n.get("op") == "&":
                return ["set"], q
            return None, None
        if c in ir.EXPLICIT_CASTS:
            return (["read"], q) if c != "CStyleCastExpr" or n.get("t") != "void" else (None, None)
        if "f" in n and "a" in n:
            o, a = fn.args(q)
            pk = n["f"].get("pk", "")
            if i in a:
                k = a.index(i)
                return (["set"], q) if pk[k:k + 1] in ("R", "P") else (["read"], q) if pk[k:k + 1] == "v" else (["maybe"], q)
            return ["set"], q
        if c == "DeclStmt":
            return ["set"], q        # bound to a reference
        if c in ("UnaryExprOrTypeTraitExpr", "SizeOfPackExpr", "CXXTypeidExpr", "DecltypeExpr"):
            return None, None
        return ["set"], q
    return None, None


def locals_(p, rep):
    for fn in p.fns.values():
        if fn.d.get("implicit"):
            continue
        cand = [v for v, d in fn.vars.items() if "init" not in d and not d.get("static") and scalar(d["t"], p) and not d["t"].startswith("const ")]
        if not cand:
            continue
        us = uses(fn)
        rangev = {n["lvid"] for n in fn.N if n["c"] == "CXXForRangeStmt" and "lvid" in n}
        for v in cand:
            d = fn.vars[v]
            if v in rangev or d["n"].startswith("__"):
                continue
            U = us.get(v, {})

            def classify(f, it, U=U, d=d, fn=fn):
                if not isinstance(it, int) or f is not fn:
                    return None
                ev = []
                if it == d["decl"]:
                    ev.append("decl")
                ev += U.get(it, [])
                return tuple(ev) or None

            def step(s, e, f, i):
                if e == "decl":
                    return "U"
                if s == "U" and e == "read":
                    return "E"
                if e in ("set", "maybe") and s != "E":
                    return "A"
                return s
            F = flow.Flow(p, classify, step, descend=lambda a, b, c: False)
            ex = F.run(fn, ["N"])
            bad = [k for k in F.errors if k[2] == "E"]
            c = "%s: %s" % (fn.sq, d["n"])
            if bad or "E" in ex:
                at = F.errors.get(bad[0])[1] if bad else d["decl"]
                rep.bad("local", c, "%s may be read before it is assigned at %s" % (d["n"], fn.loc(at)), fn.loc(d["decl"]), "local|%s|%s" % (fn.sq, d["n"]))
            else:
                rep.ok("local", c, "", fn.loc(d["decl"]))


def returns(p, rep):
    for fn in p.fns.values():
        if fn.d.get("kind") in ("ctor", "dtor") or fn.d.get("ret") in ("void", None) or fn.d.get("implicit") or fn.d.get("defaulted") or fn.n == "main":
            continue
        cfg = fn.cfg
        live = cfg.reach([cfg.entry])
        bad = None
        for b in cfg.pred[cfg.exit]:
            if b not in live or not leaves_normally(fn, b):
                continue
            es = [e for e in cfg.blocks[b]["e"] if isinstance(e, int)]
            dt = [e for e in cfg.blocks[b]["e"] if not isinstance(e, int)]
            if not any(fn.N[e]["c"] == "ReturnStmt" for e in es) and fn.N[cfg.blocks[b].get("term", 0)]["c"] != "CXXTryStmt":
                # destructors of locals may follow the return in a block of their own
                if not es and all(only_after_return(fn, cfg, q) for q in cfg.pred[b]) and cfg.pred[b]:
                    continue
                bad = b
        c = fn.sq
        if bad is not None:
            es = [e for e in cfg.blocks[bad]["e"] if isinstance(e, int)]
            rep.bad("return", c, "a path reaches the end of the function without returning a value (last statement %s)" % (fn.text(es[-1])[:60] if es else "none"), fn.loc(es[-1] if es else None), "return|%s" % sig(fn))
        else:
            rep.ok("return", c, "", fn.loc())


def only_after_return(fn, cfg, b):
    return any(isinstance(e, int) and fn.N[e]["c"] == "ReturnStmt" for e in cfg.blocks[b]["e"])
