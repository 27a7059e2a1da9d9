"""Affine-relation analysis (Karr) over the sizes of containers, counters and iterator positions.

A state is a set of facts about variables (path sensitive) together with an affine space over
named integer quantities: ("size", object, member) for containers, ("num", object, member) for
scalar members, ("sum", object, member) for the sum of a container of counters, variables and
iterators (as positions).  Callees in the repository are interpreted inline; loops are solved by
the affine hull.  Operations outside the model taint the quantities they may change, so that what
depends on them is reported as unknown rather than as a violation."""
from fractions import Fraction as Q
import ir

ALGO_NOSIZE = {"std::iota", "std::sort", "std::shuffle", "std::fill", "std::reverse", "std::stable_sort", "std::nth_element", "std::swap_ranges", "std::partial_sort"}


# ---------------- affine spaces (generators) ----------------
def add(a, b, k=1):
    r = dict(a)
    for x, v in b.items():
        w = r.get(x, 0) + k * v
        if w:
            r[x] = w
        else:
            r.pop(x, None)
    return r


class Aff:
    """p + span(vs); vectors are sparse dicts; absent coordinates are 0"""
    __slots__ = ("p", "vs")

    def __init__(self, p=None, vs=()):
        self.p, self.vs = dict(p or {}), [dict(v) for v in vs]

    def copy(self):
        return Aff(self.p, self.vs)

    @staticmethod
    def reduce(vs):
        out = []
        for v in vs:
            for piv, b in out:
                if piv in v:
                    v = add(v, b, -v[piv] / b[piv])
            if v:
                piv = min(v, key=repr)
                out = [(q, add(b, v, -b[piv] / v[piv]) if piv in b else b) for q, b in out]
                out.append((piv, v))
        return [b for _, b in out]

    def ev(self, e, vec=None):
        """value of linear expression {dim: coef, 1: const} on the point, or on a vector"""
        if vec is None:
            return sum((c * (self.p.get(d, 0) if d != 1 else 1) for d, c in e.items()), Q(0))
        return sum((c * vec.get(d, 0) for d, c in e.items() if d != 1), Q(0))

    def const(self, e):
        """the constant value of e, or None"""
        return self.ev(e) if all(self.ev(e, v) == 0 for v in self.vs) else None

    def assign(self, d, e):
        pv = self.ev(e)
        for v in self.vs:
            x = self.ev(e, v)
            if x:
                v[d] = x
            else:
                v.pop(d, None)
        if pv:
            self.p[d] = pv
        else:
            self.p.pop(d, None)
        self.vs = [v for v in self.vs if v]

    def havoc(self, d):
        self.assign(d, {})
        self.vs.append({d: Q(1)})
        self.vs = self.reduce(self.vs)

    def meet0(self, e):
        """add e == 0; False when impossible"""
        for k, v in enumerate(self.vs):
            x = self.ev(e, v)
            if x:
                self.p = add(self.p, v, -self.ev(e) / x)
                rest = []
                for j, w in enumerate(self.vs):
                    if j != k:
                        y = self.ev(e, w)
                        rest.append(add(w, v, -y / x) if y else w)
                self.vs = [w for w in rest if w]
                return True
        return self.ev(e) == 0

    def drop(self, pred):
        self.p = {d: x for d, x in self.p.items() if not pred(d)}
        vs = [{d: x for d, x in v.items() if not pred(d)} for v in self.vs]
        self.vs = self.reduce([v for v in vs if v])

    def join(self, o):
        self.vs = self.reduce(self.vs + [dict(v) for v in o.vs] + [add(o.p, self.p, -1)])

    def contains(self, o):
        base = self.reduce(self.vs)
        for v in list(o.vs) + [add(o.p, self.p, -1)]:
            v = dict(v)
            for b in base:
                piv = min(b, key=repr)
                if piv in v:
                    v = add(v, b, -v[piv] / b[piv])
            if v:
                return False
        return True


def lin(*xs):
    r = {}
    for d, c in xs:
        r[d] = r.get(d, 0) + Q(c)
    return {d: c for d, c in r.items() if c}


def num(k):
    return {1: Q(k)} if k else {}


class State:
    __slots__ = ("env", "aff", "taint")

    def __init__(self, env=None, aff=None, taint=()):
        self.env, self.aff, self.taint = dict(env or {}), aff or Aff(), set(taint)

    def copy(self):
        return State(self.env, self.aff.copy(), self.taint)

    def key(self):
        z = frozenset(d for d in self.empties() if self.aff.const({d: Q(1)}) == 0)
        return frozenset(self.env.items()), z

    def empties(self):
        return [("size", o, "m_points") for o in ("this", ("arg", 0))]


class Analysis:
    """interp(fn, this object, state, arguments) -> list of (state, returned term)"""
    POINTS = "m_points"

    def __init__(self, p, datarec, track, labels=None, depth=12):
        self.p, self.rec, self.track, self.maxdepth = p, datarec, track, depth
        self.labels = labels            # (points member, label accessor, distribution member, class list member)
        self.frame = 0
        self.steps = 0
        self.assumed = {}               # short name of a boolean member function -> assumed value
        self.seen = set()
        self.gone = set()               # (label of a point taken out, the node that took it out)
        self.defined = set()
        self.listed_ok = True           # stored labels are in the class list
        self.posmember, self.placed = None, []      # a table of positions: (function, node, True/False/None, what)

    # ----- objects -----
    def fresh_object(self, st, name, members, kind="sym"):
        for kindm, m in members:
            d = (kindm, name, m)
            if kind == "sym":
                st.aff.havoc(d)
            else:
                st.aff.assign(d, {})

    # ----- running a function -----
    def run(self, fn, this, st, args=(), depth=0):
        """args: list of terms; returns [(state, term)]"""
        if depth > self.maxdepth or not fn.d.get("cfg"):
            return None
        self.frame += 1
        fr = self.frame
        st = st.copy()
        for k, prm in enumerate(fn.params):
            v = ("v", fr, prm["id"])
            st.aff.havoc(v)
            st.aff.havoc(("size", "local", v))
            st.aff.havoc(("sum", "local", v))
            if k < len(args):
                self.bind(st, fr, prm["id"], args[k])
        I = Frame(self, fn, this, fr, depth)
        out = I.go(st)
        return out

    def bind(self, st, fr, vid, t):
        v = ("v", fr, vid)
        if isinstance(t, tuple) and t and t[0] == "lin":
            st.aff.assign(v, dict(t[1]))
            if any(d in st.taint for d, _ in t[1]):
                st.taint.add(v)
            if len(t) > 2 and t[2] is not None:
                st.env[v] = t[2]
        elif t is not None:
            st.env[v] = t


def L(e, tag=None):
    return ("lin", tuple(sorted(e.items(), key=lambda x: repr(x[0]))), tag)


class Frame:
    def __init__(self, A, fn, this, fr, depth):
        self.A, self.fn, self.this, self.fr, self.depth = A, fn, this, fr, depth
        self.N = fn.N

    # ----- control flow -----
    def go(self, st0):
        g = self.fn.cfg
        ins = {b: {} for b in g.blocks}
        ins[g.entry][st0.key()] = st0
        done = {b: {} for b in g.blocks}
        rets = []
        work = [g.entry]
        visits = {}
        heads = self.loop_heads(g)
        while work:
            work.sort(key=lambda b: g.order.get(b, 0) if hasattr(g, "order") else -b)
            b = work.pop(0)
            pend = [(k, s) for k, s in ins[b].items() if k not in done[b] or not done[b][k].aff.contains(s.aff) or not s.taint <= done[b][k].taint]
            for k, s in pend:
                visits[(b, k)] = visits.get((b, k), 0) + 1
                if visits[(b, k)] > 60 or self.A.steps > 20000:
                    raise RuntimeError("affine analysis does not settle in " + self.fn.sq)
                self.A.steps += 1
                done[b][k] = s.copy()
                outs = [(s.copy(), None)]
                for e in g.blocks[b]["e"]:
                    nxt = []
                    for t, r in outs:
                        nxt += self.element(e, t)
                    outs = self.merge(nxt) if len(nxt) > 1 else nxt
                    if not outs:
                        break
                for t, _ in outs:
                    if b == g.exit:
                        rets.append((t, t.env.pop(("ret", self.fr), None)))
                        continue
                    succ = g.blocks[b]["s"]
                    for j, x in enumerate(succ):
                        if x < 0:
                            continue
                        u = t.copy()
                        if "cond" in g.blocks[b] and len(succ) == 2:
                            tm = g.blocks[b].get("term")
                            if isinstance(tm, int) and tm >= 0 and self.N[tm]["c"] == "ConditionalOperator":
                                u.env[("co", self.fr, tm)] = j == 0
                            us = self.assume(u, g.blocks[b]["cond"], j == 0, g.blocks[b], x)
                        else:
                            us = [u]
                        for u in us:
                            self.clean(u, heads.get(x, ()) if x in heads else None)
                            kk = u.key()
                            if len(ins[x]) > 24 and kk not in ins[x]:
                                u.env = {a: v for a, v in u.env.items() if a[0] in ("v", "ret") and not (isinstance(v, bool))}
                                kk = u.key()
                            o = ins[x].get(kk)
                            if o is None:
                                ins[x][kk] = u
                            elif o.aff.contains(u.aff) and u.taint <= o.taint:
                                continue
                            else:
                                o.aff.join(u.aff)
                                o.taint |= u.taint
                            if x not in work:
                                work.append(x)
        out = []
        for s, r in rets:
            fr = self.fr
            s.aff.drop(lambda d: d != 1 and (d[0] in ("v", "t", "lt") and d[1] == fr or d[0] in ("size", "sum") and d[1] == "local" and d[2][1] == fr))
            s.taint = {d for d in s.taint if not (d[0] in ("v", "t") and d[1] == fr)}
            s.env = {a: v for a, v in s.env.items() if not (a[0] in ("v", "c", "ret", "co", "lt") and a[1] == fr)}
            for o_s, o_r in out:
                if o_r == r and o_s.key() == s.key():
                    o_s.aff.join(s.aff)
                    o_s.taint |= s.taint
                    break
            else:
                out.append((s, r))
        return out

    def merge(self, xs):
        m = {}
        for s, r in xs:
            k = s.key()
            o = m.get(k)
            if o is None:
                m[k] = (s, r)
            else:
                o[0].aff.join(s.aff)
                o[0].taint |= s.taint
        return list(m.values())

    def loop_heads(self, g):
        return {}

    def clean(self, u, _):
        """temporaries and decided conditions do not survive a block"""
        fr = self.fr
        live = [d for v in [u.aff.p] + u.aff.vs for d in v if d[0] == "t" and d[1] == fr and not self.keep(d)]
        if live:
            s = set(live)
            u.aff.drop(lambda d: d in s)
        u.taint = {d for d in u.taint if not (d[0] == "t" and d[1] == fr and not self.keep(d))}

    def keep(self, d):
        # operands of conditional operators and short-circuits cross blocks
        p = self.fn.parent.get(d[2])
        hops = 0
        while p is not None and hops < 60:
            c = self.N[p]["c"]
            if c == "ConditionalOperator" or (c == "BinaryOperator" and self.N[p].get("op") in ("&&", "||")):
                return True
            if c.endswith("Stmt"):
                return False
            p = self.fn.parent.get(p)
            hops += 1
        return False

    # ----- expressions -----
    def T(self, i):
        return ("t", self.fr, i)

    def lv(self, st, i):
        """what an lvalue denotes: ("v",fr,id) | ("size"/"num" base ("m",obj,member)) | ("obj", name) |
        ("elem", container, index term) | ("attr", pointer term, name) | None"""
        if i is None or i < 0:
            return None
        i = self.fn.strip(i, casts=True)
        n = self.N[i]
        c = n["c"]
        if c == "CXXThisExpr":
            return ("obj", self.this)
        if c == "UnaryOperator" and n.get("op") in ("*", "&"):
            t = self.lv(st, n["k"][0])
            if n["op"] == "*" and t and t[0] == "v":
                return self.deref(st, t)
            return t
        if c == "UnaryOperator" and n.get("op") in ("++", "--") and not n.get("post"):
            return self.lv(st, n["k"][0])
        if c == "DeclRefExpr":
            v = ("v", self.fr, n.get("id"))
            b = st.env.get(v)
            if isinstance(b, tuple) and b and b[0] in ("ref",):
                return b[1]
            if isinstance(b, tuple) and b and b[0] in ("obj", "cont"):
                return b
            return v
        if c == "MemberExpr" and n.get("dk") == "field":
            b = self.lv(st, n["k"][0]) if n["k"] else ("obj", self.this)
            if b and b[0] == "obj":
                return ("m", b[1], n["n"])
            return None
        if c == "CXXOperatorCallExpr":
            op = n.get("op")
            o, a = self.fn.args(i)
            if op == "[]":
                base = self.lv(st, o)
                if base and base[0] == "obj":
                    base = ("m", base[1], "m_points")
                return ("elem", self.cont(base), self.ixterm(st, a[0])) if self.cont(base) else None
            if op in ("*", "->"):
                t = self.lv(st, o)
                return self.deref(st, t) if t and t[0] == "v" else t
            if op == "++":
                return self.lv(st, o)
            if op == "=":
                return self.lv(st, o)
        if "f" in n and "a" in n:
            nm = ir.short(n["f"]["fq"]).split("::")[-1]
            o, a = self.fn.args(i)
            if nm in ("back", "front") and o is not None:
                base = self.cont(self.lv(st, o))
                return ("elem", base, (nm,)) if base else None
            if nm == "at" and o is not None:
                base = self.cont(self.lv(st, o))
                return ("elem", base, self.ixterm(st, a[0])) if base else None
            if nm == "get" and o is not None:
                return self.lv(st, o)
            if nm in ("Y", "Alpha", "Id", "X") and o is not None:
                b = self.pointer(st, o)
                return ("attr", b, nm)
            if nm in ("move", "forward") and a:
                return self.lv(st, a[0])
        b = st.env.get(self.T(i))
        if isinstance(b, tuple) and b and b[0] in ("obj", "cont"):
            return b
        return None

    def cont(self, b):
        """container denoted by an lvalue"""
        if not b:
            return None
        if b[0] == "m":
            return (b[1], b[2])
        if b[0] == "v":
            return ("local", b)
        if b[0] == "cont":
            return b[1]
        return None

    def dsize(self, c):
        return ("size", c[0], c[1])

    def dsum(self, c):
        return ("sum", c[0], c[1])

    def deref(self, st, v):
        b = st.env.get(v)
        if isinstance(b, tuple) and b and b[0] == "it":
            return ("elem", b[1], v)
        if isinstance(b, tuple) and b and b[0] in ("ptr",):
            return ("pointee", b)
        return ("pointee", v)

    def ixterm(self, st, i):
        i = self.fn.strip(i, casts=True)
        n = self.N[i]
        if n["c"] == "DeclRefExpr":
            return ("v", self.fr, n["id"])
        if n["c"] == "IntegerLiteral":
            return n["v"]
        e = self.val(st, i)
        return L(e) if e is not None else ("node", self.fn.key, i)

    def epoch(self, st, c):
        return st.env.get(("ep", c), 0)

    def pointer(self, st, i):
        """identity of the point an expression (pointer or reference) leads to"""
        i = self.fn.strip(i, casts=True)
        n = self.N[i]
        if n["c"] == "CXXOperatorCallExpr" and n.get("op") in ("->", "*") :
            return self.pointer(st, self.fn.args(i)[0])
        if n["c"] == "UnaryOperator" and n.get("op") == "*":
            return self.pointer(st, n["k"][0])
        if n["c"] == "DeclRefExpr":
            v = ("v", self.fr, n["id"])
            b = st.env.get(v)
            if isinstance(b, tuple) and b:
                if b[0] == "ptr":
                    return b[1]
                if b[0] == "it":
                    return ("elem", b[1], v, self.epoch(st, b[1]))
                if b[0] == "ref" and b[1] and b[1][0] == "elem":
                    last = st.env.get(("last", b[1][1]))
                    if last is not None and self.is_last(st, b[1]):
                        return last
                    return b[1] + (self.epoch(st, b[1][1]),)
            return v
        t = self.lv(st, i)
        if t and t[0] == "elem":
            # the element just put at the end is the point put there
            last = st.env.get(("last", t[1]))
            if last is not None and self.is_last(st, t):
                return last
            return t + (self.epoch(st, t[1]),)
        if "f" in n and "a" in n:
            b = st.env.get(self.T(i))
            if isinstance(b, tuple) and b and b[0] == "ptr":
                return b[1]
            nm = ir.short(n["f"]["fq"]).split("::")[-1]
            if nm in ("make_shared", "make_point") and n["a"]:
                return self.pointer(st, n["a"][0])
            if nm in ("shared_ptr", "move", "forward") and n["a"]:
                return self.pointer(st, n["a"][0])
        if n["c"] in ("CXXConstructExpr",) and n.get("a"):
            return self.pointer(st, n["a"][0])
        return ("unk", self.fn.key, i)

    def is_last(self, st, t):
        ix = t[2]
        if ix == ("back",):
            return True
        e = dict(ix[1]) if isinstance(ix, tuple) and ix and ix[0] == "lin" else {ix: Q(1)} if isinstance(ix, tuple) and ix and ix[0] == "v" else num(ix) if isinstance(ix, int) else None
        if e is None:
            return False
        return st.aff.const(add(add(e, {self.dsize(t[1]): Q(1)}, -1), {1: Q(1)})) == 0

    def label(self, st, i):
        """symbolic label value of an expression"""
        i = self.fn.strip(i, casts=True)
        n = self.N[i]
        if n["c"] == "DeclRefExpr":
            v = ("v", self.fr, n["id"])
            b = st.env.get(v)
            if isinstance(b, tuple) and b and b[0] == "lab":
                return b[1]
            if n.get("dk") == "parm":
                return ("val", v)
            return ("unk", self.fn.key, i)
        t = self.lv(st, i)
        if t and t[0] == "attr" and t[2] == "Y":
            l = ("Y", t[1])
            return st.env.get(("alias", l), l)
        if t and t[0] == "elem":
            return ("unk", self.fn.key, i)
        b = st.env.get(self.T(i))
        if isinstance(b, tuple) and b and b[0] == "lab":
            return b[1]
        return ("unk", self.fn.key, i)

    def val(self, st, i):
        """linear value of an integer (or iterator) expression, or None"""
        if i is None or i < 0:
            return None
        i = self.fn.strip(i, casts=True)
        n = self.N[i]
        c = n["c"]
        if n.get("ice") is not None and isinstance(n["ice"], int) and c != "DeclRefExpr":
            return num(n["ice"])
        if c == "CXXBoolLiteralExpr":
            return num(0 if str(n["v"]) in ("False", "0", "false") else 1)
        if c == "BinaryOperator" and n.get("op") in ("==", "!="):
            a, b = self.val(st, n["k"][0]), self.val(st, n["k"][1])
            k = st.aff.const(add(a, b, -1)) if a is not None and b is not None else None
            return None if k is None else num(1 if (k == 0) == (n["op"] == "==") else 0)
        if c in ("IntegerLiteral",):
            try:
                return num(int(n["v"]))
            except Exception:
                return None
        if c == "FloatingLiteral":
            return None
        if c == "DeclRefExpr":
            v = ("v", self.fr, n.get("id"))
            b = st.env.get(v)
            if isinstance(b, tuple) and b and b[0] == "ref" and b[1]:
                return self.load(st, b[1])
            if n.get("dk") in ("var", "parm"):
                return {v: Q(1)}
            return None
        if c == "MemberExpr":
            t = self.lv(st, i)
            return self.load(st, t)
        if c == "ConditionalOperator":
            b = st.env.get(("co", self.fr, i))
            return None if b is None else self.val(st, n["k"][1 if b else 2])
        tmp = self.T(i)
        if st.env.get(("c", self.fr, i)) == "val":
            return {tmp: Q(1)}
        if c == "BinaryOperator" and n.get("op") in ("+", "-", "*"):
            a, b = self.val(st, n["k"][0]), self.val(st, n["k"][1])
            if a is None or b is None:
                return None
            if n["op"] == "+":
                return add(a, b)
            if n["op"] == "-":
                return add(a, b, -1)
            ka, kb = st.aff.const(a), st.aff.const(b)
            if kb is not None:
                return {d: x * kb for d, x in a.items() if x * kb}
            if ka is not None:
                return {d: x * ka for d, x in b.items() if x * ka}
            return None
        if c == "BinaryOperator" and n.get("op") in ("=",):
            return self.val(st, n["k"][0])
        if c == "UnaryOperator":
            if n["op"] == "-":
                a = self.val(st, n["k"][0])
                return None if a is None else {d: -x for d, x in a.items()}
            if n["op"] in ("++", "--") and not n.get("post"):
                return self.val(st, n["k"][0])
            return None
        if c == "CompoundAssignOperator":
            return self.val(st, n["k"][0])
        if c in ("CXXConstructExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr") and len(n.get("a", [])) == 1:
            return self.val(st, n["a"][0])
        if "f" in n and "a" in n:
            return self.callval(st, i, n)
        return None

    def load(self, st, t):
        if not t:
            return None
        if t[0] == "v":
            return {t: Q(1)}
        if t[0] == "m" and ("num", t[2]) in self.A.track:
            return {("num", t[1], t[2]): Q(1)}
        return None

    def callval(self, st, i, n):
        """value of pure std calls over containers and iterators"""
        nm = ir.short(n["f"]["fq"]).split("::")[-1]
        q = ir.short(n["f"]["fq"])
        o, a = self.fn.args(i)
        if q.startswith(("std::", "__gnu_cxx::")):
            if o is not None and nm in ("size", "begin", "cbegin", "end", "cend", "length"):
                b = self.lv(st, o)
                cc = self.cont(b)
                if cc is None:
                    return None
                if nm in ("begin", "cbegin"):
                    return {}
                return {self.dsize(cc): Q(1)}
            if n["c"] == "CXXOperatorCallExpr" and n.get("op") in ("+", "-", "+=", "-=", "++", "--"):
                xs = n["a"]
                x = self.val(st, xs[0])
                if n["op"] in ("++", "--"):
                    return None if st.env.get(("c", self.fr, i)) != "val" else {self.T(i): Q(1)}
                y = self.val(st, xs[1]) if len(xs) > 1 else None
                if x is None or y is None:
                    return None
                return add(x, y, 1 if n["op"][0] == "+" else -1)
            if nm == "distance":
                x, y = self.val(st, a[0]), self.val(st, a[1])
                return None if x is None or y is None else add(y, x, -1)
            if nm in ("next", "prev"):
                x = self.val(st, a[0])
                y = self.val(st, a[1]) if len(a) > 1 else num(1)
                return None if x is None or y is None else add(x, y, 1 if nm == "next" else -1)
            if nm in ("begin", "end", "cbegin", "cend", "size") and a:
                cc = self.cont(self.lv(st, a[0]))
                return None if cc is None else {} if nm.endswith("begin") else {self.dsize(cc): Q(1)}
            if nm in ("move", "forward") and a:
                return self.val(st, a[0])
        if nm == "size" and o is not None:
            t = self.pointer(st, o) if "Point<" in (n["f"].get("rec") or "") else None
            if t is not None:
                d = ("psize", self.dimkey(t))
                if d not in self.A.defined and d not in st.aff.p and not any(d in v for v in st.aff.vs):
                    self.A.defined.add(d)
                    st.aff.havoc(d)
                return {d: Q(1)}
        return None

    def dimkey(self, t):
        """points stored in one dataset have one size"""
        if t[0] == "elem" and t[1][1] == "m_points":
            return ("of", t[1][0])
        return t

    # ----- effects -----
    def setv(self, st, d, e, taint=False):
        if e is None:
            st.aff.havoc(d)
            st.taint.add(d)
            return
        tn = taint or any(x in st.taint for x in e if x != 1)
        st.aff.assign(d, e)
        if tn:
            st.taint.add(d)
        else:
            st.taint.discard(d)

    def forget(self, st, c, what=("size", "sum")):
        for k in what:
            d = (k, c[0], c[1])
            st.aff.havoc(d)
            st.taint.add(d)

    def kill(self, st, v):
        """variable v changes: facts that mention it no longer hold"""
        def has(t):
            return isinstance(t, tuple) and (t == v or any(has(x) for x in t))
        for a in [a for a, b in st.env.items() if a != v and (has(a) or has(b))]:
            b = st.env[a]
            if isinstance(b, tuple) and b and b[0] in ("lab", "ptr"):
                st.env[a] = self.rename(b, v)
            elif a[0] in ("ep", "last"):
                continue
            elif isinstance(b, tuple) and b and b[0] in ("pos",):
                st.env[a] = self.rename(b, v)
            else:
                st.env.pop(a, None)

    def rename(self, b, v):
        def r(t):
            if t == v:
                return ("old",) + v
            return tuple(r(x) for x in t) if isinstance(t, tuple) else t
        return r(b)

    def element(self, e, st):
        """CFG element -> [(state, None)]"""
        if isinstance(e, dict):
            return [(st, None)]
        n = self.N[e]
        c = n["c"]
        if c == "DeclStmt":
            for d in n.get("d", []):
                self.declare(st, d)
            return [(st, None)]
        if c == "BinaryOperator" and n.get("op") == "=":
            self.store(st, n["k"][0], n["k"][1], e)
            return [(st, None)]
        if c == "CompoundAssignOperator":
            self.compound(st, n["k"][0], n["k"][1], n["op"][:-1], e)
            return [(st, None)]
        if c == "UnaryOperator" and n.get("op") in ("++", "--"):
            old = self.val(st, n["k"][0])
            if n.get("post") and old is not None:
                self.setv(st, self.T(e), old)
                st.env[("c", self.fr, e)] = "val"
            self.compound(st, n["k"][0], None, n["op"][0], e)
            return [(st, None)]
        if c == "ReturnStmt":
            if n["k"]:
                st.env[("ret", self.fr)] = self.returned(st, n["k"][0])
            return [(st, None)]
        if "f" in n and "a" in n:
            return [(s, None) for s in self.call(st, e, n)]
        return [(st, None)]

    def returned(self, st, i):
        j = self.fn.strip(i, casts=True)
        n = self.N[j]
        if n["c"] == "CXXBoolLiteralExpr":
            return ("bool", bool(n["v"]) and str(n["v"]) not in ("False", "0", "false"))
        t = self.lv(st, j)
        if t and t[0] == "m" and ("size", t[2]) in self.A.track:
            return ("cont", (t[1], t[2]))
        if t and t[0] == "obj":
            return t
        if t and t[0] == "elem" and t[1][1] == self.A.labels[0]:
            return ("ptr", t + (self.epoch(st, t[1]),))
        if t and t[0] == "attr":
            return ("lab", self.label(st, j)) if t[2] == "Y" else None
        if n["c"] == "CXXConstructExpr" and len(n.get("a", [])) == 1:
            return self.returned(st, n["a"][0])
        if t and t[0] == "v":
            b = st.env.get(t)
            if isinstance(b, tuple) and b and b[0] == "boolv":
                return ("bool", b[1])
            if "vector<" in n.get("t", ""):
                # a local container is handed out by value
                h = ("h", self.fr, j)
                self.setv(st, ("size", "ret", h), {("size", "local", t): Q(1)})
                self.setv(st, ("sum", "ret", h), {("sum", "local", t): Q(1)})
                return ("cont", ("ret", h))
        e = self.val(st, j)
        if e is not None:
            h = ("r", self.fn.key, j)
            self.setv(st, h, e)
            return L({h: Q(1)})
        return None

    def dataobj(self, t):
        t = t.replace("const ", "").rstrip("& *")
        return ir.short(t.split("<")[0]) in ("mltk::Data", "Data")

    def declare(self, st, d):
        v = ("v", self.fr, d["id"])
        self.kill(st, v)
        st.env.pop(v, None)
        t = d["t"]
        init = d.get("init")
        if self.dataobj(t) and not t.rstrip().endswith("*"):
            b = self.lv(st, init) if init is not None and init >= 0 else None
            if t.rstrip().endswith("&") and b and b[0] == "obj":
                st.env[v] = b
                return
            name = ("D", self.fr, d["id"])
            st.env[v] = ("obj", name)
            src = b
            if src is None and init is not None and init >= 0:
                j = self.fn.strip(init, casts=True)
                m = self.N[j]
                if m["c"] == "CXXConstructExpr" and m.get("a"):
                    src = self.lv(st, m["a"][0])
                    if src is None or src[0] != "obj":
                        src = ("?",)
                elif m["c"] != "CXXConstructExpr":
                    src = ("?",)
            for k, m in self.A.track:
                dd = (k, name, m)
                if src is None:
                    self.setv(st, dd, {})
                elif src[0] == "obj":
                    self.setv(st, dd, {(k, src[1], m): Q(1)})
                else:
                    self.setv(st, dd, None)
            return
        if init is None or init < 0:
            if "vector<" in t:
                self.setv(st, ("size", "local", v), {})
                self.setv(st, ("sum", "local", v), {})
            else:
                st.aff.havoc(v)
                st.taint.discard(v)
            return
        j = self.fn.strip(init, casts=True)
        m = self.N[j]
        if t.rstrip().endswith("&"):
            r = self.lv(st, init)
            if r and r[0] in ("m", "elem", "v", "attr"):
                st.env[v] = ("ref", r)
                return
        if self.iterator(t):
            self.setit(st, v, init)
            return
        if t.replace("const ", "").strip() == "bool":
            self.setbool(st, v, init)
            return
        if self.container(t):
            self.setcont(st, ("local", v), init)
            return
        if "shared_ptr<" in t or t.rstrip().endswith("*") or "Point<" in t:
            st.env[v] = ("ptr", self.pointer(st, init))
            return
        self.setscalar(st, v, init)

    def setscalar(self, st, v, i):
        e = self.val(st, i)
        l = self.label(st, i)
        if e is None:
            st.aff.havoc(v)
            if self.position(st, i):
                st.taint.discard(v)     # an unknown number, but one and the same
            else:
                st.taint.add(v)
        else:
            self.setv(st, v, e)
        if l[0] != "unk":
            st.env[v] = ("lab", l)
        else:
            pl = self.position(st, i)
            if pl:
                st.env[v] = pl
            else:
                st.env.pop(v, None)

    def position(self, st, i):
        """("pos", container, label) when the expression is the place of a label in a container"""
        i = self.fn.strip(i, casts=True)
        n = self.N[i]
        if n["c"] == "DeclRefExpr":
            b = st.env.get(("v", self.fr, n["id"]))
            if isinstance(b, tuple) and b and b[0] == "it" and len(b) > 2 and b[2]:
                return ("pos", b[1], b[2])
            return b if isinstance(b, tuple) and b and b[0] == "pos" else None
        if n["c"] in ("BinaryOperator", "CXXOperatorCallExpr") and n.get("op") == "-":
            xs = n["a"] if n["c"] == "CXXOperatorCallExpr" else n["k"]
            if len(xs) == 2 and self.val(st, xs[1]) == {}:
                return self.position(st, xs[0])
            return None
        if n["c"] == "CXXConstructExpr" and len(n.get("a", [])) == 1:
            return self.position(st, n["a"][0])
        if "f" in n and "a" in n:
            q = ir.short(n["f"]["fq"])
            if q in ("std::find",):
                cc = self.range_cont(st, n["a"])
                if cc:
                    return ("pos", cc, self.label(st, n["a"][2]))
            if q in ("std::find_if",):
                cc = self.range_cont(st, n["a"])
                l = self.lambda_eq(st, n["a"][2])
                if cc:
                    return ("pos", cc, l or ("unk", self.fn.key, i))
            if q == "std::distance" and self.val(st, n["a"][0]) == {}:
                return self.position(st, n["a"][1])
        return None

    def lambda_eq(self, st, i):
        """label compared with the element in a one-line predicate"""
        i = self.fn.strip(i, casts=True)
        n = self.N[i]
        lk = n.get("lk")
        g = self.A.p.fns.get(lk) if lk else None
        if g is None and n.get("specs"):
            g = self.A.p.fns.get(n["specs"][0])
        if g is None:
            return None
        for j in g.walk():
            m = g.N[j]
            if m["c"] == "BinaryOperator" and m.get("op") == "==":
                for k in m["k"]:
                    k = g.strip(k, casts=True)
                    mm = g.N[k]
                    if mm["c"] == "DeclRefExpr" and mm.get("id") not in g.pid:
                        b = st.env.get(("v", self.fr, mm["id"]))
                        if isinstance(b, tuple) and b and b[0] == "lab":
                            return b[1]
                        return ("val", ("v", self.fr, mm["id"]))
        return None

    def range_cont(self, st, a):
        """container whose whole range begin()..end() is given"""
        i = self.fn.strip(a[0], casts=True)
        n = self.N[i]
        j = self.fn.strip(a[1], casts=True)
        m = self.N[j]
        if "f" in n and "f" in m and n.get("o") is not None and m.get("o") is not None:
            x, y = self.cont(self.lv(st, n["o"])), self.cont(self.lv(st, m["o"]))
            if x == y and ir.short(n["f"]["fq"]).endswith("begin") and ir.short(m["f"]["fq"]).endswith("end"):
                return x
        return None

    def iterator(self, t):
        return "__normal_iterator" in t or "iterator" in t.split("<")[0].split("::")[-1].lower()

    def container(self, t):
        return t.replace("const ", "").startswith(("std::vector<", "std::deque<"))

    def itcont(self, st, i):
        """container an iterator expression ranges over"""
        i = self.fn.strip(i, casts=True)
        n = self.N[i]
        if n["c"] == "DeclRefExpr":
            b = st.env.get(("v", self.fr, n["id"]))
            return b[1] if isinstance(b, tuple) and b and b[0] == "it" else None
        if n["c"] == "CXXConstructExpr" and n.get("a"):
            return self.itcont(st, n["a"][0])
        if "f" in n and "a" in n:
            nm = ir.short(n["f"]["fq"]).split("::")[-1]
            o, a = self.fn.args(i)
            if nm in ("begin", "end", "cbegin", "cend", "insert", "erase") and o is not None:
                b = self.lv(st, o)
                if b and b[0] == "obj":
                    return (b[1], "m_points")
                return self.cont(b)
            if nm in ("begin", "end", "cbegin", "cend") and a:
                return self.cont(self.lv(st, a[0]))
            if n["c"] == "CXXOperatorCallExpr" and n.get("op") in ("+", "-", "++", "--"):
                return self.itcont(st, n["a"][0])
            if nm in ("find", "find_if", "max_element", "min_element", "next", "prev", "lower_bound", "upper_bound", "remove_if", "remove", "unique") and a:
                return self.itcont(st, a[0])
        return None

    def setit(self, st, v, i):
        c = self.itcont(st, i)
        e = self.val(st, i)
        pos = self.position(st, i)
        if e is None:
            st.aff.havoc(v)
            st.taint.discard(v)
        else:
            self.setv(st, v, e)
        if c:
            st.env[v] = ("it", c, pos[2] if pos else None)
        else:
            st.env.pop(v, None)

    def setbool(self, st, v, i):
        j = self.fn.strip(i, casts=True)
        n = self.N[j]
        if n["c"] == "CXXBoolLiteralExpr":
            st.env[v] = ("boolv", str(n["v"]) not in ("False", "0", "false"))
        else:
            b = st.env.get(self.T(j))
            if isinstance(b, tuple) and b and b[0] == "bool":
                st.env[v] = ("boolv", b[1])
            else:
                st.env[v] = ("boole", j)

    def setcont(self, st, c, i):
        """container := expression"""
        for a in [a for a, b in st.env.items() if a == ("last", c)]:
            st.env.pop(a)
        j = self.fn.strip(i, casts=True)
        n = self.N[j]
        src = self.cont(self.lv(st, j))
        if src is None and n["c"] == "CXXConstructExpr" and len(n.get("a", [])) == 1:
            src = self.cont(self.lv(st, n["a"][0]))
        ds, dm = self.dsize(c), self.dsum(c)
        if src is not None and src != c:
            self.setv(st, ds, {self.dsize(src): Q(1)})
            self.setv(st, dm, {self.dsum(src): Q(1)})
            return
        if src == c:
            return
        if n["c"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            a = [x for x in n.get("a", []) if self.N[self.fn.strip(x)]["c"] != "CXXDefaultArgExpr"]
            if not a:
                self.setv(st, ds, {})
                self.setv(st, dm, {})
                return
            if self.N[self.fn.strip(a[0], casts=True)]["c"] in ("InitListExpr", "CXXStdInitializerListExpr"):
                return self.setinit(st, c, a[0])
            if len(a) >= 2 and self.itcont(st, a[0]):
                x, y = self.val(st, a[0]), self.val(st, a[1])
                self.setv(st, ds, add(y, x, -1) if x is not None and y is not None else None)
                self.setv(st, dm, None)
                return
            e = self.val(st, a[0])
            k = st.aff.const(self.val(st, a[1])) if len(a) > 1 and self.val(st, a[1]) is not None else 0 if len(a) == 1 else None
            self.setv(st, ds, e)
            self.setv(st, dm, None if k is None or e is None else {d: x * k for d, x in e.items() if x * k})
            return
        if n["c"] in ("InitListExpr", "CXXStdInitializerListExpr"):
            return self.setinit(st, c, j)
        self.forget(st, c)

    def setinit(self, st, c, i):
        i = self.fn.strip(i, casts=True)
        while self.N[i]["c"] not in ("InitListExpr",) and self.fn.kids(i):
            i = self.fn.kids(i)[0]
        ks = self.fn.kids(i) if self.N[i]["c"] == "InitListExpr" else []
        self.setv(st, self.dsize(c), num(len(ks)))
        tot = num(0)
        for k in ks:
            e = self.val(st, k)
            tot = None if tot is None or e is None else add(tot, e)
        self.setv(st, self.dsum(c), tot)

    def store(self, st, l, r, node):
        t = self.lv(st, l)
        lt = self.N[self.fn.strip(l)].get("t", "")
        if t and t[0] == "v":
            b = st.env.get(t)
            self.newval(st, t, r, lt)
            return
        self.put(st, t, r, node)

    def newval(self, st, v, r, t):
        if self.iterator(t):
            c, e, pos = self.itcont(st, r), self.val(st, r), self.position(st, r)
            self.kill(st, v)
            if e is None:
                st.aff.havoc(v)
                st.taint.discard(v)
            else:
                self.setv(st, v, e)
            if c:
                st.env[v] = ("it", c, pos[2] if pos else None)
            return
        if t.replace("const ", "").strip() == "bool":
            self.kill(st, v)
            self.setbool(st, v, r)
            return
        if self.container(t):
            self.setcont(st, ("local", v), r)
            return
        if "shared_ptr<" in t or "Point<" in t:
            x = self.pointer(st, r)
            self.kill(st, v)
            st.env[v] = ("ptr", x)
            return
        l, e, pos = self.label(st, r), self.val(st, r), self.position(st, r)
        # the old value may be part of the new one
        if e is None:
            st.aff.havoc(v)
            st.taint.add(v)
        else:
            self.setv(st, v, e)
        self.kill(st, v)
        if l[0] != "unk":
            st.env[v] = ("lab", l)
        elif pos:
            st.env[v] = pos
        else:
            st.env.pop(v, None)

    def put(self, st, t, r, node):
        """store into a member, element or attribute"""
        if not t:
            return
        if t[0] == "m":
            if ("size", t[2]) in self.A.track:
                self.setcont(st, (t[1], t[2]), r)
                self.bulk(st, (t[1], t[2]))
            elif ("num", t[2]) in self.A.track:
                self.setv(st, ("num", t[1], t[2]), self.val(st, r))
            else:
                st.env.pop(("mem", t[1], t[2]), None)
        elif t[0] == "attr" and t[2] == "Y":
            self.relabel(st, t[1], self.label(st, r), node)
        elif t[0] == "attr" and t[2] == "X":
            d = ("psize", self.dimkey(t[1]))
            s = self.lv(st, r)
            if s and s[0] == "attr" and s[2] == "X":
                if d[1][0] != "of":
                    self.setv(st, d, {("psize", self.dimkey(s[1])): Q(1)})
            else:
                st.aff.havoc(d)
                st.taint.add(d)
        elif t[0] == "elem":
            c = t[1]
            if c[1] == self.A.labels[0]:
                st.env.pop(("last", c), None)
                self.bulk(st, c)
            elif ("size", c[1]) in self.A.track:
                d = self.dsum(c)
                self.setv(st, d, None)

    def compound(self, st, l, r, op, node):
        t = self.lv(st, l)
        e = num(1) if r is None else self.val(st, r)
        k = 1 if op == "+" else -1 if op == "-" else None
        if not t:
            return
        if t[0] == "v":
            if e is None or k is None:
                st.aff.havoc(t)
                st.taint.add(t)
            else:
                self.setv(st, t, add({t: Q(1)}, e, k), t in st.taint)
            self.kill(st, t)
            b = st.env.get(t)
            if isinstance(b, tuple) and b and b[0] == "it":
                st.env[t] = ("it", b[1], None)
            elif b is not None and not (isinstance(b, tuple) and b[0] in ("ref", "obj")):
                st.env.pop(t, None)
        elif t[0] == "m" and ("num", t[2]) in self.A.track:
            d = ("num", t[1], t[2])
            self.setv(st, d, None if e is None or k is None else add({d: Q(1)}, e, k), d in st.taint)
        elif t[0] == "elem":
            c = t[1]
            d = self.dsum(c)
            self.setv(st, d, None if e is None or k is None else add({d: Q(1)}, e, k), d in st.taint)
            if c[1] == self.A.labels[2] and e is not None and k is not None:
                kk = st.aff.const(e)
                self.count(st, c[0], self.pos_label(st, l), k * (kk if kk is not None else 1), node)
            zero = ("zero", c)
            st.env.pop(zero, None)
        elif t[0] == "attr" and t[2] == "Y":
            self.relabel(st, t[1], ("unk", self.fn.key, node), node)

    def pos_label(self, st, l):
        """label whose counter the lvalue class_distribution[...] is"""
        i = self.fn.strip(l, casts=True)
        n = self.N[i]
        ix = None
        if n["c"] == "CXXOperatorCallExpr" and n.get("op") == "[]":
            ix = n["a"][1]
        elif "f" in n and n.get("a"):
            ix = n["a"][0]
        p = self.position(st, ix) if ix is not None else None
        if p and p[0] == "pos":
            return p[2] if p[1][1] == self.A.labels[3] else ("wrong", p[1][1])
        return ("unk", self.fn.key, i)

    def count(self, st, obj, lab, k, node):
        """the counter of a label changes by k; events of points are -k"""
        d = ("D", obj, lab)
        self.setv(st, d, add({d: Q(1)}, num(k)), d in st.taint)
        self.A.seen.add(("count", self.fn.key, node))

    def relabel(self, st, ptr, lab, node):
        stored = ptr[0] == "elem" and ptr[1][1] == self.A.labels[0]
        if stored:
            st.env[("relabelled", ptr[1][0])] = True
            old = ("Y", ptr)
            old = st.env.get(("alias", old), old)
            self.count(st, ptr[1][0], old, 1, node)
            self.count(st, ptr[1][0], lab, -1, node)
        st.env[("alias", ("Y", ptr))] = lab

    def bulk(self, st, c):
        """points or counters replaced as a whole: label by label accounting starts over"""
        if c[1] in (self.A.labels[0], self.A.labels[2]):
            st.env[("bulk", c[0])] = True

    # ----- calls -----
    def call(self, st, i, n):
        A = self.A
        q = ir.short(n["f"]["fq"])
        nm = q.split("::")[-1]
        o, a = self.fn.args(i)
        if n["c"] == "CXXOperatorCallExpr" and n.get("op") == "=" and o is not None:
            tgt = self.lv(st, o)
            if tgt and tgt[0] == "obj":
                ts = A.p.call_targets(self.fn, i)
                if ts and ts[0].d.get("cfg") and not ts[0].d.get("implicit"):
                    return self.inline(st, i, ts[0], tgt[1], a)
                for k, m in A.track:
                    src = self.lv(st, a[0])
                    self.setv(st, (k, tgt[1], m), {(k, src[1], m): Q(1)} if src and src[0] == "obj" else None)
                return [st]
            if tgt and tgt[0] == "v":
                self.newval(st, tgt, a[0], self.N[self.fn.strip(o)].get("t", ""))
                return [st]
            self.put(st, tgt, a[0], i)
            return [st]
        if n["c"] == "CXXOperatorCallExpr" and n.get("op") in ("++", "--") and n["a"]:
            t = self.lv(st, n["a"][0])
            old = self.val(st, n["a"][0])
            if len(n["a"]) == 2 and old is not None:
                self.setv(st, self.T(i), old)
                st.env[("c", self.fr, i)] = "val"
            if t:
                self.compound(st, n["a"][0], None, n["op"][0], i)
            return [st]
        if n["c"] == "CXXOperatorCallExpr" and n.get("op") in ("+=", "-=") and o is not None and q.startswith(("__gnu_cxx", "std::")):
            self.compound(st, o, a[0], n["op"][0], i)
            return [st]
        if q.startswith(("std::", "__gnu_cxx::", "operator")) or "mltk" not in q:
            return [self.std(st, i, n, q, nm, o, a)]
        # repository code
        if nm in A.assumed:
            st.env[self.T(i)] = ("bool", A.assumed[nm])
            return [st]
        ts = A.p.call_targets(self.fn, i)
        if o is not None:
            b = self.lv(st, o)
            if b and b[0] == "obj" and ts:
                return self.inline(st, i, ts[0], b[1], a)
        if any(self.touches(st, x) for x in a):
            if ts and ts[0].d.get("cfg"):
                return self.inline(st, i, ts[0], None, a)
        return [st]

    def touches(self, st, x):
        t = self.lv(st, x)
        return bool(t and t[0] in ("obj", "m", "cont"))

    def argterm(self, st, prm, x):
        t = prm["t"]
        b = self.lv(st, x)
        if b and b[0] == "obj":
            return b
        if b and b[0] in ("m", "cont") or b and b[0] == "v" and self.container(t.rstrip("& ")):
            c = self.cont(b)
            return ("cont", c)
        if "shared_ptr<" in t or "Point<" in t:
            return ("ptr", self.pointer(st, x))
        if self.iterator(t):
            e = self.val(st, x)
            return L(e) if e is not None else None
        e = self.val(st, x)
        l = self.label(st, x)
        if e is None:
            return ("lab", l) if l[0] != "unk" else None
        return L(e, ("lab", l) if l[0] != "unk" else None)

    def inline(self, st, i, g, this, a):
        A = self.A
        args = [self.argterm(st, prm, x) for prm, x in zip(g.params, a)]
        if g.d.get("implicit") or not g.d.get("cfg"):
            return [st]
        outs = A.run(g, this, st, args, self.depth + 1)
        if outs is None:
            for k, m in A.track:
                self.setv(st, (k, this, m), None)
            return [st]
        res = []
        for s, r in outs:
            if isinstance(r, tuple) and r and r[0] == "lin":
                self.setv(s, self.T(i), dict(r[1]))
                s.env[("c", self.fr, i)] = "val"
                h = [d for d, _ in r[1] if d != 1 and d[0] == "r"]
                s.aff.drop(lambda d: d in h)
                if len(r) > 2 and r[2]:
                    s.env[self.T(i)] = r[2]
            elif r is not None:
                s.env[self.T(i)] = r
            res.append(s)
        return res

    def std(self, st, i, n, q, nm, o, a):
        c = None
        if o is not None:
            b = self.lv(st, o)
            c = self.cont(b) if b and b[0] in ("m", "v", "cont") else None
            if b and b[0] == "attr":
                self.pointsize(st, b, nm, a)
                return st
        rec = n["f"].get("rec") or ""
        if c is not None and rec.startswith(("std::vector", "std::deque")):
            tracked = c[0] == "local" or ("size", c[1]) in self.A.track or c[0] == "ret"
            if not tracked:
                return st
            ds, dm = self.dsize(c), self.dsum(c)
            pts = c[1] == self.A.labels[0]
            if nm in ("push_back", "emplace_back"):
                e = self.val(st, a[0]) if a else None
                if self.A.posmember is not None and c[1] == self.A.posmember and a:
                    off = None if e is None or any(d in st.taint for d in e) or ds in st.taint else st.aff.const(add(e, {ds: Q(1)}, -1))
                    own = any("f" in self.fn.N[x] and ir.short(self.fn.N[x]["f"]["fq"]).split("::")[-1] in ("Id", "Y", "Alpha", "X") for x in self.fn.walk(a[0]))
                    self.A.placed.append((self.fn, i, True if off == 0 else False if off is not None or own else None, "the appended entry is %s" % ("its position" if off == 0 else "its position plus %s" % off if off is not None else "read from the point" if own else "not followed")))
                self.setv(st, ds, add({ds: Q(1)}, num(1)), ds in st.taint)
                self.setv(st, dm, None if e is None else add({dm: Q(1)}, e), dm in st.taint)
                self.added(st, c, a[0] if a else None, e, i)
            elif nm == "pop_back":
                self.removed(st, c, ("back",), i)
                self.setv(st, ds, add({ds: Q(1)}, num(-1)), ds in st.taint)
                self.setv(st, dm, None)
            elif nm == "clear":
                self.setv(st, ds, {})
                self.setv(st, dm, {})
                self.bulk(st, c)
            elif nm == "resize":
                e = self.val(st, a[0])
                same = e is not None and st.aff.const(add(e, {ds: Q(1)}, -1)) == 0
                self.setv(st, ds, e)
                if not same:
                    # new elements are zero; fewer elements change the sum
                    if pts:
                        self.bulk(st, c)
                    else:
                        self.setv(st, dm, None) if dm not in st.aff.p and not any(dm in v for v in st.aff.vs) else None
            elif nm == "assign":
                args = [x for x in a if self.N[self.fn.strip(x)]["c"] != "CXXDefaultArgExpr"]
                if len(args) == 2 and self.itcont(st, args[0]):
                    x, y = self.val(st, args[0]), self.val(st, args[1])
                    self.setv(st, ds, add(y, x, -1) if x is not None and y is not None else None)
                    self.setv(st, dm, None)
                else:
                    e = self.val(st, args[0])
                    k = self.val(st, args[1]) if len(args) > 1 else None
                    k = st.aff.const(k) if k is not None else None
                    self.setv(st, ds, e)
                    self.setv(st, dm, None if k is None or e is None else {d: x * k for d, x in e.items() if x * k})
                self.bulk(st, c)
            elif nm == "erase":
                args = a
                if len(args) == 1:
                    e = self.val(st, args[0])
                    if e is not None:
                        self.setv(st, self.T(i), e)
                        st.env[("c", self.fr, i)] = "val"
                    self.removed(st, c, self.where(st, args[0]), i)
                    self.setv(st, ("erpos", c[0], c[1]), e)
                    self.setv(st, ds, add({ds: Q(1)}, num(-1)), ds in st.taint)
                    if st.env.get(("zero", c)):
                        pass
                    else:
                        self.setv(st, dm, None)
                else:
                    x, y = self.val(st, args[0]), self.val(st, args[1])
                    self.setv(st, ds, None if x is None or y is None else add(add({ds: Q(1)}, y, -1), x), ds in st.taint)
                    self.setv(st, dm, None)
                    self.bulk(st, c)
            elif nm == "insert" or nm == "emplace":
                if len(a) == 2:
                    e = self.val(st, a[1])
                    self.setv(st, ds, add({ds: Q(1)}, num(1)), ds in st.taint)
                    self.setv(st, dm, None if e is None else add({dm: Q(1)}, e), dm in st.taint)
                    self.added(st, c, a[1], e, i)
                elif len(a) == 3 and self.itcont(st, a[1]):
                    x, y = self.val(st, a[1]), self.val(st, a[2])
                    self.setv(st, ds, None if x is None or y is None else add(add({ds: Q(1)}, y), x, -1), ds in st.taint)
                    self.setv(st, dm, None)
                    self.bulk(st, c)
                elif len(a) == 3:
                    x = self.val(st, a[1])
                    self.setv(st, ds, None if x is None else add({ds: Q(1)}, x), ds in st.taint)
                    self.setv(st, dm, None)
                    self.bulk(st, c)
            elif nm in ("reserve", "shrink_to_fit", "size", "empty", "begin", "end", "cbegin", "cend", "operator[]", "at", "front", "back", "data", "max_size", "capacity", "rbegin", "rend"):
                pass
            elif nm == "swap":
                self.forget(st, c)
                self.bulk(st, c)
            else:
                self.forget(st, c)
            if nm in ("push_back", "emplace_back", "pop_back", "clear", "resize", "assign", "erase", "insert") and pts and nm not in ("push_back", "emplace_back"):
                st.env[("ep", c)] = i
            return st
        # algorithms that grow or write containers through iterators
        for x in a:
            j = self.fn.strip(x, casts=True)
            m = self.N[j]
            mq = ir.short(m["f"]["fq"]) if "f" in m else ""
            if mq in ("std::back_inserter", "std::inserter", "std::front_inserter"):
                cc = self.cont(self.lv(st, m["a"][0]))
                if cc:
                    d = self.dsize(cc)
                    e = None
                    if q in ("std::copy", "std::transform", "std::move") and len(a) >= 3:
                        u, w = self.val(st, a[0]), self.val(st, a[1])
                        e = add(add({d: Q(1)}, w), u, -1) if u is not None and w is not None else None
                    self.setv(st, d, e)
                    self.setv(st, self.dsum(cc), None)
                    self.bulk(st, cc)
        if q in ("std::fill",) and a:
            cc = self.range_cont(st, a)
            k = self.val(st, a[2]) if len(a) > 2 else None
            k = st.aff.const(k) if k is not None else None
            if cc:
                self.setv(st, self.dsum(cc), {self.dsize(cc): Q(k)} if k else {} if k == 0 else None)
                self.bulk(st, cc)
        if q in ("std::for_each", "std::transform", "std::generate", "std::copy_if", "std::for_each_n") and a:
            for x in a:
                self.lambda_effects(st, x)
        return st

    def pointsize(self, st, b, nm, a):
        """the coordinates of a point are resized"""
        if b[2] != "X" or nm not in ("resize", "erase", "push_back", "emplace_back", "insert", "clear", "assign", "pop_back", "swap"):
            return
        k = self.dimkey(b[1])
        d = ("psize", k)
        if k[0] == "of":
            st.aff.havoc(d)
            st.taint.add(d)
        else:
            self.setv(st, d, self.val(st, a[0]) if nm == "resize" else {} if nm == "clear" else None)

    def lambda_effects(self, st, x):
        """a lambda run an unknown number of times: what it may change is unknown"""
        j = self.fn.strip(x, casts=True)
        n = self.N[j]
        g = self.A.p.fns.get(n.get("lk")) if n.get("lk") else None
        gs = [g] if g else [self.A.p.fns[k] for k in n.get("specs", []) if k in self.A.p.fns]
        for g in gs:
            for y in g.walk():
                m = g.N[y]
                if m["c"] == "MemberExpr" and m.get("dk") == "field" and ir.short(m.get("rec", "").split("<")[0]) == self.A.rec:
                    for k in ("size", "sum", "num"):
                        if (k, m["n"]) in self.A.track or k == "sum" and ("size", m["n"]) in self.A.track:
                            if self.mutating(g, y):
                                st.aff.havoc((k, self.this, m["n"]))
                                st.taint.add((k, self.this, m["n"]))
                                self.bulk(st, (self.this, m["n"]))
                elif "f" in m and "a" in m and m.get("o") is not None and g.N[g.strip(m["o"])]["c"] == "CXXThisExpr" and not m["f"].get("cst"):
                    for k, mm in self.A.track:
                        st.aff.havoc((k, self.this, mm))
                        st.taint.add((k, self.this, mm))
                elif m["c"] == "DeclRefExpr" and ("v", self.fr, m.get("id")) in st.env or m["c"] == "DeclRefExpr" and m.get("id") in self.fn.vars:
                    if self.mutating(g, y):
                        v = ("v", self.fr, m["id"])
                        st.aff.havoc(v)
                        st.taint.add(v)
                        self.forget(st, ("local", v))

    def mutating(self, g, y):
        par = g.parent
        x = y
        for _ in range(6):
            p = par.get(x)
            if p is None:
                return False
            n = g.N[p]
            if n["c"] in ("CompoundAssignOperator",) or n["c"] == "BinaryOperator" and n.get("op") == "=":
                return n["k"][0] == x
            if n["c"] == "UnaryOperator" and n.get("op") in ("++", "--"):
                return True
            if "f" in n and "a" in n:
                nm = ir.short(n["f"]["fq"]).split("::")[-1]
                if n["c"] == "CXXOperatorCallExpr" and n.get("op") in ("[]",):
                    x = p
                    continue
                return nm in ("push_back", "emplace_back", "insert", "erase", "clear", "resize", "assign", "pop_back", "operator=")
            x = p
        return False

    def where(self, st, i):
        """index term of an iterator expression begin()+i or an iterator variable"""
        i = self.fn.strip(i, casts=True)
        n = self.N[i]
        if n["c"] == "DeclRefExpr":
            return ("v", self.fr, n["id"])
        if n["c"] == "CXXConstructExpr" and n.get("a"):
            return self.where(st, n["a"][0])
        if n["c"] == "CXXOperatorCallExpr" and n.get("op") == "+" and self.val(st, n["a"][0]) == {}:
            return self.ixterm(st, n["a"][1])
        return ("node", self.fn.key, i)

    def added(self, st, c, x, e, node):
        la = self.A.labels
        if c[1] == la[0]:
            ptr = self.pointer(st, x) if x is not None else ("unk", self.fn.key, node)
            lab = ("Y", ptr)
            lab = st.env.get(("alias", lab), lab)
            self.count(st, c[0], lab, -1, node)
            st.env[("last", c)] = ptr
        elif c[1] == la[3]:
            st.env[("lastlabel", c[0])] = self.label(st, x)
            pend = st.env.pop(("pendcount", c[0]), None)
            if pend is not None:
                self.count(st, c[0], self.label(st, x), pend, node)
        elif c[1] == la[2]:
            k = st.aff.const(e) if e is not None else None
            if k is None:
                self.count(st, c[0], ("unk", self.fn.key, node), 1, node)
            elif k:
                dd = add({self.dsize((c[0], la[3])): Q(1)}, {self.dsize(c): Q(1)}, -1)
                lab = st.env.get(("lastlabel", c[0]))
                if st.aff.const(dd) == 0 and lab is not None:
                    self.count(st, c[0], lab, k, node)
                else:
                    st.env[("pendcount", c[0])] = k

    def removed(self, st, c, ix, node):
        la = self.A.labels
        if c[1] == la[0]:
            ptr = ("elem", c, ix, self.epoch(st, c))
            if ix == ("back",) and ("last", c) in st.env:
                ptr = st.env[("last", c)]
            lab = ("Y", ptr)
            lab = st.env.get(("alias", lab), lab)
            self.A.gone.add((lab, node))
            self.count(st, c[0], lab, 1, node)
            st.env.pop(("last", c), None)

    # ----- conditions -----
    def assume(self, st, i, pol, blk, succ):
        """states in which the condition has the given outcome"""
        i = self.fn.strip(i, casts=True)
        n = self.N[i]
        c = n["c"]
        if c == "UnaryOperator" and n.get("op") == "!":
            return self.assume(st, n["k"][0], not pol, blk, succ)
        if c == "CXXBoolLiteralExpr":
            return [st] if (str(n["v"]) not in ("False", "0", "false")) == pol else []
        if c == "BinaryOperator" and n.get("op") in ("&&", "||"):
            # the operands were branched on before; decide what follows from the last one
            both = n["op"] == "&&"
            if pol == both:
                out = []
                for s in self.assume(st, n["k"][0], pol, blk, succ):
                    out += self.assume(s, n["k"][1], pol, blk, succ)
                return out
            return self.assume(st, n["k"][1], pol, blk, succ) if blk.get("term") != i else [st]
        if c == "DeclRefExpr":
            v = ("v", self.fr, n.get("id"))
            b = st.env.get(v)
            if isinstance(b, tuple) and b and b[0] == "boolv":
                return [st] if b[1] == pol else []
            if n.get("t", "").replace("const ", "") == "bool":
                if isinstance(b, tuple) and b and b[0] == "boole":
                    r = self.assume(st, b[1], pol, blk, succ) if self.stable(b[1]) else [st]
                    for s in r:
                        s.env[v] = ("boolv", pol)
                    return r
                st.env[v] = ("boolv", pol)
                return [st]
        if c == "MemberExpr" and n.get("t", "").replace("const ", "") == "bool":
            t = self.lv(st, i)
            if t and t[0] == "m" and ("num", t[2]) in self.A.track:
                return self.cmp(st, {("num", t[1], t[2]): Q(1)}, num(1 if pol else 0), "==", i, blk)
        b = st.env.get(self.T(i))
        if isinstance(b, tuple) and b and b[0] == "bool":
            return [st] if b[1] == pol else []
        if "f" in n and "a" in n:
            nm = ir.short(n["f"]["fq"]).split("::")[-1]
            if nm == "empty" and n.get("o") is not None:
                cc = self.cont(self.lv(st, n["o"]))
                if cc:
                    return self.cmp(st, {self.dsize(cc): Q(1)}, {}, "==" if pol else "!=", i, blk)
        op, xs = None, None
        if c == "BinaryOperator" and n.get("op") in ("==", "!=", "<", ">", "<=", ">="):
            op, xs = n["op"], n["k"]
        elif c == "CXXOperatorCallExpr" and n.get("op") in ("==", "!=", "<", ">", "<=", ">=") and len(n["a"]) == 2:
            op, xs = n["op"], n["a"]
        if op:
            if not pol:
                op = {"==": "!=", "!=": "==", "<": ">=", ">": "<=", "<=": ">", ">=": "<"}[op]
            r = self.listed(st, xs, op) if self.A.listed_ok else None
            if r is False:
                return []
            a, b = self.val(st, xs[0]), self.val(st, xs[1])
            self.zero_fact(st, xs, op)
            for x in xs:
                t = self.lv(st, x)
                if t and t[0] == "elem" and self.A.labels and t[1][1] == self.A.labels[3] and op in ("==", "!="):
                    st.env[("searched", t[1][0])] = True
            if a is not None and b is not None:
                return self.cmp(st, a, b, op, i, blk)
        elif pol is False or pol is True:
            e = self.val(st, i)
            if e is not None and "bool" not in n.get("t", ""):
                return self.cmp(st, e, {}, "!=" if pol else "==", i, blk)
        return [st]

    def stable(self, i):
        return all(self.N[x]["c"] not in ("CallExpr", "CXXMemberCallExpr") or True for x in [i]) and not any("f" in self.N[x] for x in self.fn.walk(i))

    def zero_fact(self, st, xs, op):
        for x, y in (xs, (xs[1], xs[0])):
            j = self.fn.strip(x, casts=True)
            t = self.lv(st, j)
            if t and t[0] == "elem" and ("size", t[1][1]) in self.A.track:
                e = self.val(st, y)
                k = st.aff.const(e) if e is not None else None
                if op == "==" and k == 0 or op in ("<", "<=") and x == xs[0] and k in (0, 1) and not (op == "<=" and k == 1) and not (op == "<" and k == 0):
                    st.env[("zero", t[1])] = True
                else:
                    st.env.pop(("zero", t[1]), None)

    def listed(self, st, xs, op):
        """False when the outcome says that the label of a stored point is not in the class list"""
        for x, y, flip in ((xs[0], xs[1], False), (xs[1], xs[0], True)):
            p = self.position(st, x)
            if not p or p[1][1] != self.A.labels[3] or not self.stored(p[2], p[1][0]):
                continue
            e = self.val(st, y)
            if e is None:
                continue
            obj = p[1][0]
            isend = any(st.aff.const(add(e, {("size", obj, m): Q(1)}, -1)) == 0 for m in (self.A.labels[2], self.A.labels[3]))
            if not isend:
                continue
            o = op if not flip else {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            if o in ("==", ">=", ">"):
                return False
        return None

    def stored(self, lab, obj):
        """label of a point that is or was in the dataset"""
        return lab[0] == "Y" and lab[1][0] == "elem" and lab[1][1] == (obj, self.A.labels[0])

    def cmp(self, st, a, b, op, node, blk):
        d = add(a, b, -1)
        k = st.aff.const(d)
        if k is not None:
            ok = {"==": k == 0, "!=": k != 0, "<": k < 0, ">": k > 0, "<=": k <= 0, ">=": k >= 0}[op]
            return [st] if ok else []
        if op in ("==", ">=", "<="):
            for g in [x for x in st.env if x[0] == "lt" and x[1] == self.fr]:
                # the difference was below zero when it was tested and has the same value now
                if op in ("==", ">=") and st.aff.const(add(d, {g: Q(1)}, -1)) == 0 or op in ("==", "<=") and st.aff.const(add(d, {g: Q(1)})) == 0:
                    return []
        if op == "==":
            return [st] if st.aff.meet0(d) else []
        if self.loop_cond(node):
            g = ("lt", self.fr, node)
            if op in ("<", ">"):
                st.aff.assign(g, d if op == "<" else {x: -c for x, c in d.items()})
                st.env[g] = True
            else:
                st.env.pop(g, None)
                st.aff.assign(g, {})
        if op == "<=" and not b and self.nonneg(a) or op == ">=" and not a and self.nonneg(b) or op == "<" and b == {1: Q(1)} and self.nonneg(a):
            return [st] if st.aff.meet0({d_: x for d_, x in (add(a, b, -1)).items() if d_ != 1}) else []
        if op in (">=", "<=") and self.loop_exit(st, node, blk, a, b, op):
            return [st] if st.aff.meet0(d) else []
        return [st]

    def nonneg(self, e):
        """a single counter or size"""
        return len(e) == 1 and all(d != 1 and d[0] in ("size", "num", "psize", "sum") and c == 1 for d, c in e.items())

    def loop_exit(self, st, node, blk, a, b, op):
        """a loop counter that only moves by one towards the bound has met it when the test fails"""
        hit = None
        for e, sign in ((a, 1), (b, -1)):
            vs = [v for v in e if v != 1 and v[0] == "v" and v[1] == self.fr and abs(e[v]) == 1]
            for v in vs:
                s = self.steps(v[2])
                if s:
                    hit = s if hit is None else 0
        if not hit:
            return False
        return self.loop_cond(node)

    def loop_cond(self, node):
        x = node
        for y in self.fn.ancestors(node):
            c = self.N[y]["c"]
            if c in ("ForStmt", "WhileStmt"):
                return True
            if c.endswith("Stmt") and c != "DeclStmt":
                return False
        return False

    def steps(self, vid):
        """+1/-1 when every change of the variable after its initialisation is by that step"""
        m = getattr(self.fn, "_steps", None)
        if m is None:
            m = self.fn._steps = {}
        if vid in m:
            return m[vid]
        s = set()
        for i in self.fn.walk():
            n = self.N[i]
            t = None
            if n["c"] == "UnaryOperator" and n.get("op") in ("++", "--"):
                t, k = n["k"][0], 1 if n["op"] == "++" else -1
            elif n["c"] == "CompoundAssignOperator":
                t = n["k"][0]
                j = self.fn.strip(n["k"][1], casts=True)
                one = self.N[j]["c"] == "IntegerLiteral" and str(self.N[j]["v"]) == "1"
                k = {"+=": 1, "-=": -1}.get(n["op"], 0) if one else 0
            if t is not None:
                j = self.fn.strip(t, casts=True)
                if self.N[j]["c"] == "DeclRefExpr" and self.N[j].get("id") == vid:
                    s.add(k)
        m[vid] = s.pop() if len(s) == 1 else 0
        return m[vid]
