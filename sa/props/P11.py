"""Termination of training: every loop reachable from a training entry point makes progress towards
a bound on each pass, and the main loop of every learner leaves on each of its configured limits."""
import ir
from props.common import *

LIMITS = ("MAX_IT", "MAX_UP", "MAX_EPOCH", "max_time")
TABLE = {
    "mltk::classifier::BalancedPerceptron": "MAX_EPOCH MAX_UP max_time",
    "mltk::classifier::PerceptronPrimal": "MAX_IT MAX_UP max_time",
    "mltk::classifier::PerceptronFixedMarginPrimal": "MAX_IT MAX_UP max_time",
    "mltk::classifier::PerceptronDual": "MAX_IT MAX_UP max_time",
    "mltk::classifier::PerceptronFixedMarginDual": "MAX_IT MAX_UP max_time",
    "mltk::classifier::IMApFixedMargin": "MAX_IT MAX_UP max_time",
    "mltk::classifier::IMAp": "MAX_IT max_time",
    "mltk::classifier::IMADual": "MAX_IT max_time",
    "mltk::classifier::SMO": "MAX_EPOCH",
    "mltk::regressor::LMSPrimal": "MAX_IT MAX_UP max_time",
    "mltk::clusterer::KMeans": "MAX_IT max_time",
}
REL = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b, "==": lambda a, b: a == b, "!=": lambda a, b: a != b}


class Loop:
    def __init__(self, fn, header):
        self.fn, self.header, self.blocks, self.latches = fn, header, {header}, []


def loops_of(fn):
    c = getattr(fn, "_loops", None)
    if c is not None:
        return c
    cfg = fn.cfg
    live = cfg.reach([cfg.entry])
    ls = {}
    for b in live:
        for s in cfg.succ[b]:
            if s in (cfg.dom.get(b) or ()):
                L = ls.setdefault(s, Loop(fn, s))
                L.latches.append(b)
                st = [b]
                while st:
                    x = st.pop()
                    if x not in L.blocks and x in live:
                        L.blocks.add(x)
                        st.extend(cfg.pred[x])
    r = fn._loops = sorted(ls.values(), key=lambda l: len(l.blocks))
    for L in r:
        L.inner = [m for m in r if m is not L and m.blocks < L.blocks]
        L.outer = [m for m in r if m is not L and L.blocks < m.blocks]
        # the statement
        L.stmt = None
        for b in sorted(L.blocks):
            t = cfg.blocks[b].get("term")
            if t is not None and fn.N[t]["c"] in ir.LOOPS and (L.stmt is None):
                # the terminator whose own blocks lie in the loop and in no inner loop
                if not any(b in m.blocks for m in L.inner):
                    L.stmt = t
    return r


def path(L, a, b, avoid):
    """is b reachable from the end of block a inside L without entering avoid (b itself may be avoided)?"""
    cfg = L.fn.cfg
    st, seen = [s for s in cfg.succ[a] if s in L.blocks], set()
    while st:
        x = st.pop()
        if x == b:
            return True
        if x in seen or x in avoid:
            continue
        seen.add(x)
        st.extend(s for s in cfg.succ[x] if s in L.blocks)
    return False


def every_cycle(L, through):
    """does every pass round L (header to header) go through one of the blocks?"""
    if L.header in through:
        return True
    return not path(L, L.header, L.header, set(through))


# ---------- effects on members and locals ----------
def lval(fn, i):
    """identity of an lvalue: ('f', name) for this->name (also through an own local reference), ('v', id) for a local"""
    i = fn.strip(i)
    f = field_of(fn, i)
    if f:
        return ("f", f)
    n = fn.N[i]
    if n["c"] == "DeclRefExpr" and "id" in n:
        v = fn.vars.get(n["id"])
        if v and v["t"].endswith("&") and v.get("init") is not None:
            return lval(fn, v["init"])
        return ("v", n["id"])
    return None


def const_val(fn, i):
    i = resolve(fn, fn.strip(i, casts=True))
    n = fn.N[fn.strip(i, casts=True)]
    if n["c"] in ("IntegerLiteral", "FloatingLiteral"):
        try:
            return float(n["v"])
        except (KeyError, ValueError):
            return None
    if n["c"] == "UnaryOperator" and n.get("op") == "-":
        v = const_val(fn, n["k"][0])
        return -v if v is not None else None
    return None


def same(fn, i, lv):
    i = fn.strip(i, casts=True)
    return lval(fn, i) == lv


def effect(fn, i):
    """(lvalue, 'inc'|'dec'|'set', amount/expr) of a node that writes a scalar"""
    n = fn.N[i]
    if n["c"] == "UnaryOperator" and n.get("op") in ("++", "--"):
        lv = lval(fn, n["k"][0])
        return lv and (lv, "inc" if n["op"] == "++" else "dec", 1.0)
    if n["c"] == "CXXOperatorCallExpr" and n.get("op") in ("++", "--"):
        lv = lval(fn, n["a"][0])
        return lv and (lv, "inc" if n["op"] == "++" else "dec", 1.0)
    if n["c"] == "CompoundAssignOperator" or (n["c"] == "CXXOperatorCallExpr" and n.get("op") in ("+=", "-=")):
        a = n["k"] if n["c"] == "CompoundAssignOperator" else n["a"]
        lv = lval(fn, a[0])
        if not lv:
            return None
        v = const_val(fn, a[1])
        if n["op"] in ("+=", "-=") and v:
            return lv, "inc" if (v > 0) == (n["op"] == "+=") else "dec", abs(v)
        if n["op"] == "+=" and grows(fn, a[1]):
            return lv, "up", None        # never decreases
        return lv, "set", a[1]
    if n["c"] == "BinaryOperator" and n.get("op") == "=":
        lv = lval(fn, n["k"][0])
        if not lv:
            return None
        r = fn.N[fn.strip(n["k"][1], casts=True)]
        if r["c"] == "BinaryOperator" and r.get("op") in ("+", "-"):
            for x, y in ((0, 1), (1, 0)):
                if same(fn, r["k"][x], lv) and (r["op"] == "+" or x == 0):
                    v = const_val(fn, r["k"][y])
                    if v:
                        return lv, "inc" if (v > 0) == (r["op"] == "+") else "dec", abs(v)
                    if r["op"] == "+" and grows(fn, r["k"][y]):
                        return lv, "up", None
        return lv, "set", n["k"][1]
    return None


def clock_call(fn, i):
    """the node (through casts) that reads elapsed time"""
    n = fn.N[fn.strip(i, casts=True)]
    if "f" in n and n["f"].get("fq"):
        q = ir.short(n["f"]["fq"])
        if q.endswith("Timer::elapsed") or q.endswith("::getElapsedTime"):
            return True
        if q.startswith(("std::chrono::", "clock")):
            return True
    return False


def grows(fn, i):
    """expressions that are never negative: elapsed times"""
    return clock_call(fn, i)


class Effects:
    """per method: members certainly incremented on every path / possibly written, through calls on this"""

    def __init__(self, p):
        self.p = p
        self.may_, self.must_ = {}, {}

    def own(self, fn, i):
        """repo callees of a call on *this (or lambdas called directly)"""
        n = fn.N[i]
        if "f" not in n or "a" not in n:
            return []
        o = n.get("o")
        r = []
        if o is not None and fn.N[fn.strip(o)]["c"] == "CXXThisExpr":
            r = self.p.call_targets(fn, i)
        elif n["c"] == "CXXOperatorCallExpr" and n.get("op") == "()":
            r = self.p.call_targets(fn, i)
        return r

    def may(self, fn, depth=0):
        if fn.key in self.may_:
            return self.may_[fn.key]
        out = self.may_[fn.key] = {}
        for i in fn.walk():
            e = effect(fn, i)
            if e and e[0][0] == "f":
                out.setdefault(e[0][1], set()).add(e[1])
            if depth < 6:
                for g in self.own(fn, i):
                    for k, v in self.may(g, depth + 1).items():
                        out.setdefault(k, set()).update(v)
        return out

    def must(self, fn, depth=0):
        if fn.key in self.must_:
            return self.must_[fn.key]
        self.must_[fn.key] = set()
        cfg = fn.cfg
        live = cfg.reach([cfg.entry])
        by = {}
        for i in fn.walk():
            e = effect(fn, i)
            ps = fn.pos(i)
            if ps is None:
                continue
            if e and e[0][0] == "f" and e[1] == "inc":
                by.setdefault(e[0][1], set()).add(ps[0])
            if depth < 6:
                t = self.own(fn, i)
                if t:
                    for k in set.intersection(*[self.must(g, depth + 1) for g in t]):
                        by.setdefault(k, set()).add(ps[0])
        out = {k for k, bs in by.items() if cfg.entry in bs or cfg.exit not in cfg.reach([cfg.entry], avoid=bs)}
        self.must_[fn.key] = out
        return out


class Lp:
    """effects inside one loop"""

    def __init__(self, E, L):
        self.E, self.L, self.fn = E, L, L.fn
        self.inc, self.dec, self.sets, self.up = {}, {}, {}, {}
        fn = L.fn
        for i in fn.walk():
            ps = fn.pos(i)
            if ps is None or ps[0] not in L.blocks:
                continue
            e = effect(fn, i)
            if e:
                d = {"inc": self.inc, "dec": self.dec, "set": self.sets, "up": self.up}[e[1]]
                d.setdefault(e[0], []).append((ps[0], i, e[2]))
            t = E.own(fn, i)
            if t:
                must = set.intersection(*[E.must(g) for g in t])
                for g in t:
                    for k, kinds in E.may(g).items():
                        if "set" in kinds:
                            self.sets.setdefault(("f", k), []).append((ps[0], i, None))
                        if "dec" in kinds:
                            self.dec.setdefault(("f", k), []).append((ps[0], i, None))
                        if "inc" in kinds:
                            (self.inc if k in must else self.up).setdefault(("f", k), []).append((ps[0], i, None))
            # address taken / bound to a non-const reference parameter
            n = fn.N[i]
            if "f" in n and "a" in n and not t:
                o, a = fn.args(i)
                pk = n["f"].get("pk", "")
                for j, x in enumerate(a):
                    if pk[j:j + 1] in ("R", "P"):
                        y = fn.strip(x)
                        if fn.N[y]["c"] == "UnaryOperator" and fn.N[y].get("op") == "&":
                            y = fn.strip(fn.N[y]["k"][0])
                        lv = lval(fn, y)
                        if lv:
                            self.sets.setdefault(lv, []).append((ps[0], i, None))
            elif n["c"] == "DeclStmt":
                for d in n.get("d", []):
                    if "init" in d:
                        self.sets.setdefault(("v", d["id"]), []).append((ps[0], i, d["init"]))

    def changed(self, lv):
        return lv in self.inc or lv in self.dec or lv in self.sets or lv in self.up


# ---------- conditions ----------
def leaves(fn, c, outcome, E, depth=0, bind=None):
    """comparisons any one of which, when true, makes condition c have the outcome:
    list of (fn, node, polarity, bind)"""
    c = fn.strip(c, casts=True)
    n = fn.N[c]
    if n["c"] == "UnaryOperator" and n.get("op") == "!":
        return leaves(fn, n["k"][0], not outcome, E, depth, bind)
    if n["c"] == "BinaryOperator" and n.get("op") in ("&&", "||"):
        if (n["op"] == "||") == outcome:
            return leaves(fn, n["k"][0], outcome, E, depth, bind) + leaves(fn, n["k"][1], outcome, E, depth, bind)
        return []
    if n["c"] == "DeclRefExpr" and n.get("dk") == "var" and depth < 4:
        x = one_init(fn, n["id"])
        if x is not None and fn.vars[n["id"]]["t"].replace("const ", "") in ("bool", "auto", "_Bool"):
            return leaves(fn, x, outcome, E, depth + 1, bind)
        return [(fn, c, outcome, bind)]
    if "f" in n and "a" in n and depth < 4:
        t = E.own(fn, c)
        if len(t) == 1:
            g = t[0]
            rets = [i for i in g.walk() if g.N[i]["c"] == "ReturnStmt" and g.kids(i)]
            b = {}
            o, a = fn.args(c)
            for k, pr in enumerate(g.params):
                if k < len(a):
                    b[pr["id"]] = (fn, a[k], bind)
            out = []
            for r in rets:
                e = g.kids(r)[0]
                s = g.N[g.strip(e, casts=True)]
                if s["c"] == "CXXBoolLiteralExpr":
                    if bool(s.get("v")) == outcome:
                        # 'if (x) return true;': the guard that decides it
                        ps = g.pos(r)
                        if ps:
                            gd = immediate_guard(g, ps[0])
                            if gd:
                                out += leaves(g, gd[1], gd[2], E, depth + 1, b)
                else:
                    if len(rets) == 1 or not any(g.N[g.strip(g.kids(x)[0], casts=True)].get("v") in (not outcome, str(not outcome).lower()) for x in rets if x != r):
                        out += leaves(g, e, outcome, E, depth + 1, b)
            return out
    return [(fn, c, outcome, bind)]


def immediate_guard(fn, blk):
    """(branch block, condition, outcome) of a branch one of whose edges leads (through empty blocks) to blk"""
    cfg = fn.cfg
    seen = set()
    b = blk
    while b not in seen:
        seen.add(b)
        ps = cfg.pred[b]
        if len(ps) != 1:
            # several short-circuit predecessors: each is a sufficient condition; take all is left to the caller
            return None
        q = ps[0]
        x = cfg.blocks[q]
        if "cond" in x and len(x["s"]) == 2:
            return q, x["cond"], x["s"][0] == b
        b = q
    return None


def exit_tests(L, E):
    """[(block, fn, node, polarity, bind)] comparisons that make the loop end when true.
    A test that sets a flag the loop later leaves on counts with the block that sets the flag."""
    fn, cfg = L.fn, L.fn.cfg
    out = []
    for b in sorted(L.blocks):
        x = cfg.blocks[b]
        if "cond" not in x or len(x["s"]) != 2:
            continue
        for k, s in enumerate(x["s"]):
            if s < 0 or leaves_loop(L, s):
                o = k == 0
                c = x["cond"]
                # a short-circuit block decides only its own operand
                c, o2 = last_operand(fn, c, o)
                for t in leaves(fn, c, o2, E):
                    out.append((b,) + t)
    # flags
    more = []
    for b, f, c, o, bind in out:
        n = f.N[c]
        if f is fn and n["c"] in ("DeclRefExpr", "MemberExpr"):
            lv = lval(fn, c)
            if lv is None:
                continue
            for i in fn.walk():
                e = effect(fn, i)
                ps = fn.pos(i)
                if not e or e[0] != lv or ps is None or ps[0] not in L.blocks or e[1] != "set":
                    continue
                v = fn.N[fn.strip(e[2], casts=True)] if e[2] is not None else None
                if v is None:
                    continue
                if v["c"] in ("CXXBoolLiteralExpr", "IntegerLiteral"):
                    if (str(v.get("v")).lower() in ("true", "1")) == o and not resets(fn, L, lv, o):
                        cs = direct_guards(fn, ps[0])
                        for q, gc, go in cs:
                            gc, go = last_operand(fn, gc, go)
                            for t in leaves(fn, gc, go, E):
                                more.append((ps[0] if q not in L.blocks else q,) + t)
                else:
                    for t in leaves(fn, e[2], o, E):
                        if t[0] is fn and lval(fn, t[1]) == lv:
                            continue
                        more.append((ps[0],) + t)
    return out + more


def resets(fn, L, lv, o):
    for i in fn.walk():
        e = effect(fn, i)
        ps = fn.pos(i)
        if e and e[0] == lv and ps and ps[0] in L.blocks and e[1] == "set":
            v = fn.N[fn.strip(e[2], casts=True)]
            if not (v["c"] in ("CXXBoolLiteralExpr", "IntegerLiteral") and (str(v.get("v")).lower() in ("true", "1")) == o):
                return True
    return False


def direct_guards(fn, blk):
    """branches with an edge straight into blk (through blocks with one successor)"""
    cfg = fn.cfg
    out, st, seen = [], [blk], set()
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        for q in cfg.pred[b]:
            x = cfg.blocks[q]
            if "cond" in x and len(x["s"]) == 2:
                out.append((q, x["cond"], x["s"][0] == b))
            elif len(cfg.succ[q]) == 1 and not any(isinstance(e, int) for e in x["e"]):
                st.append(q)
    return out


def last_operand(fn, c, o):
    c = fn.strip(c)
    n = fn.N[c]
    while n["c"] == "BinaryOperator" and n.get("op") in ("&&", "||"):
        c = fn.strip(n["k"][1])
        n = fn.N[c]
    return c, o


def leaves_loop(L, s, seen=None):
    """the successor is outside the loop"""
    return s not in L.blocks


# ---------- evaluation of a comparison ----------
class Cant(Exception):
    pass


class Ev:
    """value of an expression with one counter (or the clock) and one limit symbolic"""

    def __init__(self, E, L, lp, limit, c, l, s=0.0):
        self.E, self.L, self.lp, self.limit, self.c, self.l, self.s = E, L, lp, limit, c, l, s
        self.counters, self.clock = set(), False
        self.lim = self.stale = False

    def ev(self, fn, i, bind=None, depth=0):
        i = fn.strip(i, casts=True)
        n = fn.N[i]
        c = n["c"]
        if depth > 12:
            raise Cant("depth")
        if c in ("IntegerLiteral", "FloatingLiteral"):
            return float(n["v"])
        if c == "CXXBoolLiteralExpr":
            return 1.0 if str(n.get("v")).lower() in ("true", "1") else 0.0
        if clock_call(fn, i):
            self.clock = True
            ps = fn.pos(i)
            if fn is self.L.fn and (ps is None or ps[0] not in self.L.blocks):
                self.stale = True
            return self.c
        f = field_of(fn, i)
        if f:
            if f == self.limit:
                self.lim = True
                return self.l
            if f == "start_time":
                return self.s
            if f in LIMITS:
                raise Cant("other limit")
            self.counters.add(("f", f))
            return self.c
        if c == "UnaryOperator" and n.get("op") in ("-", "!"):
            v = self.ev(fn, n["k"][0], bind, depth + 1)
            return -v if n["op"] == "-" else (0.0 if v else 1.0)
        if c == "UnaryOperator" and n.get("op") in ("++", "--"):
            v = self.ev(fn, n["k"][0], bind, depth + 1)
            return v
        if c == "BinaryOperator":
            op = n["op"]
            if op in REL or op in ("+", "-", "*", "/"):
                a, b = self.ev(fn, n["k"][0], bind, depth + 1), self.ev(fn, n["k"][1], bind, depth + 1)
                if op in REL:
                    return 1.0 if REL[op](a, b) else 0.0
                if op == "/":
                    if b == 0:
                        raise Cant("division by zero")
                    return a / b
                return {"+": a + b, "-": a - b, "*": a * b}[op]
        if c == "DeclRefExpr" and "id" in n:
            if bind and n["id"] in bind:
                f2, e2, b2 = bind[n["id"]]
                return self.ev(f2, e2, b2, depth + 1)
            if fn is self.L.fn:
                lv = lval(fn, i)
                if lv and lv[0] == "f":
                    if lv[1] == self.limit:
                        self.lim = True
                        return self.l
                    self.counters.add(lv)
                    return self.c
                v = fn.vars.get(n["id"])
                if v is None:
                    raise Cant("parameter")
                lp = self.lp
                if not lp.changed(lv):
                    # fixed during the loop: all its definitions before it agree on mentioning the limit
                    ds = defs(fn, n["id"])
                    if len(ds) == 1:
                        return self.ev(fn, ds[0], bind, depth + 1)
                    raise Cant("several definitions")
                if lv in lp.inc or lv in lp.up:
                    if lv in lp.up:
                        self.clock = True
                    self.counters.add(lv)
                    return self.c
                ss = lp.sets.get(lv, [])
                if len(ss) >= 1 and ss[0][2] is not None:
                    # recomputed in the loop: the same expression everywhere
                    vals = {self.ev(fn, s[2], bind, depth + 1) for s in ss if s[2] is not None}
                    if len(vals) == 1:
                        self.recomputed = ss
                        return vals.pop()
                raise Cant("variable")
            v = fn.vars.get(n["id"])
            if v is not None and one_init(fn, n["id"]) is not None:
                return self.ev(fn, one_init(fn, n["id"]), bind, depth + 1)
        if "f" in n and "a" in n and fn.p.call_targets(fn, i):
            g = fn.p.call_targets(fn, i)
            if len(g) == 1:
                g = g[0]
                rets = [x for x in g.walk() if g.N[x]["c"] == "ReturnStmt" and g.kids(x)]
                o, a = fn.args(i)
                if len(rets) == 1 and (o is None or fn.N[fn.strip(o)]["c"] == "CXXThisExpr"):
                    b = {pr["id"]: (fn, a[k], bind) for k, pr in enumerate(g.params) if k < len(a)}
                    return self.ev(g, g.kids(rets[0])[0], b, depth + 1)
        raise Cant(c)


def defs(fn, vid):
    out = []
    v = fn.vars.get(vid)
    if v and "init" in v:
        out.append(v["init"])
    for i in fn.walk():
        e = effect(fn, i)
        if e and e[0] == ("v", vid):
            if e[1] == "set" and fn.N[i]["c"] == "BinaryOperator":
                out.append(e[2])
            else:
                out.append(None)
    if None in out:
        return [None, None]
    return out


def mentions(E, fn, i, name, bind=None, depth=0):
    """does the value of the expression depend on this->name (through local definitions and helpers)?"""
    if depth > 6:
        return False
    for x in fn.walk(i):
        n = fn.N[x]
        if n["c"] == "MemberExpr" and n.get("dk") == "field" and n["n"] == name and field_of(fn, x) == name:
            return True
        if n["c"] == "DeclRefExpr" and "id" in n:
            if bind and n["id"] in bind:
                f2, e2, b2 = bind[n["id"]]
                if mentions(E, f2, e2, name, b2, depth + 1):
                    return True
            v = fn.vars.get(n["id"])
            if v is not None:
                for d in defs(fn, n["id"]):
                    if d is not None and mentions(E, fn, d, name, bind, depth + 1):
                        return True
        elif "f" in n and "a" in n:
            for g in E.own(fn, x):
                for r in g.walk():
                    if g.N[r]["c"] == "ReturnStmt" and g.kids(r) and mentions(E, g, g.kids(r)[0], name, None, depth + 1):
                        return True
    return False


def judge(E, L, lp, t, limit):
    """('ok', counter set/clock) | ('bad', why) | (None, why) for an exit test on a limit"""
    b, fn, c, pol, bind = t
    if fn.N[c]["c"] == "MemberExpr":
        return None, "flag"
    cs, clock, rec = set(), False, None
    for l in (5.0, 40.0):
        for cv in (0.0, 1.0, l - 2, l - 1, l, l + 1, l + 2, 2 * l, 10 * l + 1):
            ev = Ev(E, L, lp, limit, cv, l)
            ev.recomputed = None
            try:
                v = (ev.ev(fn, c, bind) != 0) == pol
            except Cant as e:
                return None, "test not evaluable (%s)" % e
            if not ev.lim:
                return None, "limit not in the test"
            cs |= ev.counters
            clock |= ev.clock
            rec = ev.recomputed or rec
            if ev.stale:
                return "bad", "uses an elapsed time read before the loop", cs, clock, rec
            if cv > l and not v:
                return "bad", "does not end the loop when the %s is %g and the limit %g" % ("elapsed time" if ev.clock else "count", cv, l), cs, clock, rec
            if cv <= l - 2 and v:
                return "bad", "ends the loop already when the %s is %g and the limit %g" % ("elapsed time" if ev.clock else "count", cv, l), cs, clock, rec
    return "ok", "", cs, clock, rec


# ---------- bounded loops ----------
def structural(E, L, lp):
    """'kind' when the loop certainly makes progress towards a fixed bound on every pass, False with a
    reason when it certainly has no progressing exit test, None when undecided"""
    fn, cfg = L.fn, L.fn.cfg
    s = L.stmt
    if s is not None and fn.N[s]["c"] == "CXXForRangeStmt":
        return "range", ""
    why = []
    und = None
    for b, f, c, pol, bind in exit_tests(L, E):
        n = f.N[c]
        if f is not fn:
            und = "exit test in a helper"
            continue
        # pointer traversal: p != nullptr with p = p->next on every pass
        ops = []
        if n["c"] == "BinaryOperator" and n.get("op") in REL:
            ops = [(n["k"][0], n["op"], n["k"][1]), (n["k"][1], flip(n["op"]), n["k"][0])]
        elif n["c"] == "CXXOperatorCallExpr" and n.get("op") in REL and len(n["a"]) == 2:
            ops = [(n["a"][0], n["op"], n["a"][1]), (n["a"][1], flip(n["op"]), n["a"][0])]
        elif n["c"] in ("DeclRefExpr", "MemberExpr"):
            ops = [(c, "!=", None)]
        elif n["c"] in ("CXXOperatorCallExpr", "CXXMemberCallExpr", "CallExpr"):
            q = ir.short((n.get("f") or {}).get("fq", ""))
            if ("getline" in q) or ("stream" in q) or n.get("op") == ">>":
                return "stream", ""
            if "rewritten" in n:
                pass
        for x, op, y in ops:
            if not pol:
                op = neg(op)
            x = fn.strip(x, casts=True)
            lv = lval(fn, x)
            side = 1
            if fn.N[x]["c"] == "UnaryOperator" and fn.N[x].get("op") in ("++", "--"):
                lv = lval(fn, fn.N[x]["k"][0])
            if lv is None and fn.N[x]["c"] == "BinaryOperator" and fn.N[x].get("op") in ("+", "-"):
                for k in (0, 1):
                    z = lval(fn, fn.N[x]["k"][k])
                    if z and lp.changed(z) and const_val(fn, fn.N[x]["k"][1 - k]) is not None and (fn.N[x]["op"] == "+" or k == 0):
                        lv = z
            if lv is None:
                continue
            if op == "<" and pol is False and y is not None and const_val(fn, y) == 0.0 and unsigned(fn, x):
                why.append("%s is unsigned and never less than 0" % name(fn, lv))
                continue
            if lv in lp.sets:
                ss = lp.sets[lv]
                if all(q[2] is not None and advances(fn, q[2], lv) for q in ss) and lv not in lp.inc and lv not in lp.dec:
                    if every_cycle(L, {q[0] for q in ss}) and every_cycle(L, {b}):
                        return "traversal", ""
                    why.append("%s does not advance on every pass" % name(fn, lv))
                continue
            if y is not None and not invariant(fn, y, lp, op):
                und = "bound changes in the loop"
                continue
            up, dn = lp.inc.get(lv, []), lp.dec.get(lv, [])
            anyup = up + lp.up.get(lv, [])
            if not anyup and not dn:
                why.append("%s never changes in the loop" % name(fn, lv))
                continue
            if anyup and dn:
                und = "%s moves both ways" % name(fn, lv)
                continue
            good = {">": anyup, ">=": anyup, "<": dn, "<=": dn, "!=": [], "==": anyup + dn}.get(op, [])
            if op == "==" and any(q[2] not in (1.0, None) for q in good):
                und = "steps over the bound"
                continue
            if not good:
                why.append("%s moves away from the bound" % name(fn, lv))
                continue
            if up or dn:
                if not every_cycle(L, {q[0] for q in (up or dn)}) or lp.up.get(lv):
                    why.append("%s does not progress on every pass" % name(fn, lv))
                    continue
            else:
                why.append("%s does not progress on every pass" % name(fn, lv))
                continue
            if not every_cycle(L, {b}):
                why.append("the test on %s is not reached on every pass" % name(fn, lv))
                continue
            return "counted", ""
    if und:
        return None, und
    if draws(L):
        return None, "ends by chance (rejection of random draws)"
    return False, "; ".join(why) or "no exit test compares a progressing variable with a bound"


def unsigned(fn, x):
    t = bare(fn.N[x].get("t", ""))
    return t.startswith("unsigned") or t in ("size_t", "std::size_t")


def draws(L):
    """does the loop draw random numbers?"""
    fn = L.fn
    for i in fn.walk():
        n = fn.N[i]
        ps = fn.pos(i)
        if ps and ps[0] in L.blocks and "f" in n and "a" in n:
            q = ir.short(n["f"].get("fq", ""))
            if "_distribution" in q or "mltk::random::" in q or q in ("rand", "std::rand"):
                return True
    return False


def name(fn, lv):
    return lv[1] if lv[0] == "f" else (fn.vars.get(lv[1]) or {}).get("n", "?")


def flip(op):
    return {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)


def neg(op):
    return {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}[op]


def advances(fn, e, lv):
    """p = p->next, it = next(it), x = x / 2 ..."""
    e = fn.strip(e, casts=True)
    n = fn.N[e]
    if n["c"] == "MemberExpr" and n.get("k"):
        b = fn.strip(n["k"][0], casts=True)
        return lval(fn, b) == lv or ("k" in fn.N[b] and len(fn.N[b]["k"]) and lval(fn, fn.N[b]["k"][0]) == lv)
    if "f" in n and "a" in n:
        return any(lval(fn, a) == lv for a in n["a"]) or ("o" in n and lval(fn, n["o"]) == lv)
    return False


def invariant(fn, y, lp, op):
    for x in fn.walk(y):
        lv = lval(fn, x) if fn.N[x]["c"] in ("DeclRefExpr", "MemberExpr") else None
        if lv and lp.changed(lv):
            return False
        n = fn.N[x]
        if "f" in n and "a" in n and n["f"].get("repo") and not n["f"].get("cst") and "o" in n:
            q = ir.short(n["f"]["fq"])
            if not q.split("::")[-1] in ("size", "dim", "begin", "end"):
                return False
    return True


# ---------- the rules ----------
def check(p, rep):
    rep.rule("main", "the main training loop of every learner leaves on each of its limits, at the limit")
    rep.rule("count", "what a limit is compared with is counted on every pass (updates: wherever the model changes) and never reset in the loop")
    rep.rule("clock", "the clock is started before the loop, not restarted in it, and the deadline is the configured time")
    rep.rule("progress", "every loop reachable from training makes progress towards a bound, follows a list, or leaves on a configured limit, on every pass")
    rep.floor("main", 18)
    rep.floor("count", 10)
    rep.floor("progress", 60)
    E = Effects(p)
    trains = [f for r in p.derived("mltk::Learner") for f in p.methods(r) if f.n == "train" and f.body >= 0]
    keys = p.reachable(trains)
    open_by_class = {}
    n = 0
    for k in sorted(keys):
        fn = p.fns[k]
        for L in loops_of(fn):
            lp = Lp(E, L)
            L.lp = lp
            L.kind, L.why = structural(E, L, lp)
            tests = exit_tests(L, E)
            L.tests = tests
            L.limits = {}
            for lim in LIMITS:
                for t in tests:
                    if mentions(E, t[1], t[2], lim, t[4]):
                        L.limits.setdefault(lim, []).append(t)
    for rec, lims in TABLE.items():
        recs = [r for r in p.records if ir.short(r) == rec]
        for r in recs:
            roots = [f for f in p.methods(r) if f.n == "train"]
            if not roots:
                continue
            # methods of this object reached through this
            scope, st = [], list(roots)
            while st:
                f = st.pop()
                if f in scope:
                    continue
                scope.append(f)
                for i in f.calls():
                    st.extend(E.own(f, i))
            mains = []
            for f in scope:
                for L in loops_of(f):
                    if not hasattr(L, "kind"):
                        continue
                    if L.limits or L.kind in (False, None):
                        if not any(m.limits or m.kind in (False, None) for m in L.outer):
                            mains.append(L)
            limited = [L for L in mains if L.limits]
            for L in mains:
                if L.limits or L.kind is not None:
                    main_loop(p, rep, E, rec, L, lims.split(), bool(limited))
            if not mains:
                for lim in lims.split():
                    rep.unk("main", "%s: %s" % (rec, lim), "no training loop identified")
    for k in sorted(keys):
        fn = p.fns[k]
        for L in loops_of(fn):
            c = "%s: loop %s" % (fn.sq, fn.text(L.stmt)[:40] if L.stmt is not None else "at block %d" % L.header)
            loc = fn.loc(L.stmt)
            if L.kind:
                rep.ok("progress", c, L.kind, loc)
                continue
            okl = [lim for lim in L.limits for t in L.limits[lim] if (judge(E, L, L.lp, t, lim)[0] == "ok" and progresses(E, L, t, lim))]
            if okl:
                rep.ok("progress", c, "limits " + ", ".join(sorted(set(okl))), loc)
            elif L.kind is False:
                rep.bad("progress", c, "the loop has no progressing exit: %s" % L.why, loc, "progress|%s|%s" % (fn.sq, headtext(fn, L)))
            else:
                rep.unk("progress", c, L.why or "ends with the call it waits for", loc)


def headtext(fn, L):
    n = fn.N[L.stmt] if L.stmt is not None else None
    return n["c"] if n else "loop"


def progresses(E, L, t, lim):
    r = judge(E, L, L.lp, t, lim)
    b = t[0]
    if r[0] != "ok":
        return False
    if lim == "max_time" or r[3]:
        return every_cycle(L, {b})
    for lv in r[2]:
        inc = {q[0] for q in L.lp.inc.get(lv, [])}
        if lv in L.lp.sets or lv in L.lp.dec or not inc or not every_cycle(L, inc):
            return False
    return every_cycle(L, {b})


def main_loop(p, rep, E, rec, L, lims, have):
    fn, lp = L.fn, L.lp
    loc = fn.loc(L.stmt)
    for lim in lims:
        c = "%s: %s" % (rec, lim)
        key = "main|%s|%s" % (rec, lim)
        ts = L.limits.get(lim, [])
        if not ts:
            if opaque_exit(L):
                rep.unk("main", c, "an exit test could not be resolved", loc)
            else:
                rep.bad("main", c, "no test that ends the training loop in %s mentions %s" % (fn.sq, lim), loc, key)
            continue
        js = [(t, judge(E, L, lp, t, lim)) for t in ts]
        ok = [x for x in js if x[1][0] == "ok"]
        if not ok:
            b = [x for x in js if x[1][0] == "bad"]
            if b and not any(x[1][0] is None for x in js):
                rep.bad("main", c, "the test %s %s" % (b[0][0][1].text(b[0][0][2])[:60], b[0][1][1]), b[0][0][1].loc(b[0][0][2]), key)
            else:
                rep.unk("main", c, js[0][1][1], loc)
            continue
        rep.ok("main", c, "", loc)
        blocks = {t[0] for t, j in ok}
        t0 = ok[0][0]
        tl = t0[1].loc(t0[2])
        clock = any(j[3] for t, j in ok) or lim == "max_time"
        # values tested must be fresh
        if clock:
            if not every_cycle(L, blocks):
                rep.bad("clock", c, "a pass round the training loop of %s does not reach the test of the elapsed time" % fn.sq, tl, "clock|%s|%s" % (rec, lim))
                continue
            rec_ok = True
            for t, j in ok:
                if j[4] and not every_cycle(L, {q[0] for q in j[4]}):
                    rec_ok = False
            if not rec_ok:
                rep.bad("clock", c, "the elapsed time tested is not read again on every pass", tl, "clock|%s|%s|stale" % (rec, lim))
                continue
            rs = [i for i in fn.walk() if is_reset(fn, i)]
            inl = [i for i in rs if fn.pos(i) and fn.pos(i)[0] in L.blocks]
            own = [j for t, j in ok if any(lv in lp.up for lv in j[2])]
            if inl and not own:
                rep.bad("clock", c, "the timer is restarted inside the training loop", fn.loc(inl[0]), "clock|%s|%s|restart" % (rec, lim))
                continue
            pre = [i for i in rs if fn.pos(i) and (fn.cfg.dominates(fn.pos(i), (L.header, -1)) or fn.pos(i)[0] in (fn.cfg.dom.get(L.header) or ()))]
            bad_acc = [lv for j in own for lv in j[2] if lv in lp.sets or lv in lp.dec]
            if bad_acc:
                rep.bad("clock", c, "the accumulated time %s is reset inside the training loop" % name(fn, bad_acc[0]), tl, "clock|%s|%s|accu" % (rec, lim))
            elif own and not all(every_cycle(L, {q[0] for q in lp.up[lv]}) for j in own for lv in j[2] if lv in lp.up):
                rep.bad("clock", c, "the elapsed time is not accumulated on every pass", tl, "clock|%s|%s|accu" % (rec, lim))
            elif not pre:
                if any(is_reset(g, i) for g in callers_scope(p, fn) for i in g.walk()):
                    rep.unk("clock", c, "timer started by a caller", tl)
                else:
                    rep.bad("clock", c, "the timer is not restarted before the training loop: time from before training counts", tl, "clock|%s|%s|start" % (rec, lim))
            else:
                rep.ok("clock", c, "", tl)
            continue
        lvs = set().union(*[j[2] for t, j in ok])
        if len(lvs) != 1:
            rep.unk("count", c, "several counters", tl)
            continue
        lv = lvs.pop()
        nm = name(fn, lv)
        if lv in lp.sets:
            ss = lp.sets[lv]
            # copied from the inner trainer that counts (ctot = inner.getCtot())
            if all(q[2] is not None and copied_count(fn, q[2]) for q in ss):
                rep.ok("count", c, "copied from the inner trainer", tl)
            elif all(q[2] is None for q in ss):
                rep.unk("count", c, "%s is written by a callee" % nm, tl)
            else:
                rep.bad("count", c, "%s is assigned inside the training loop, so it no longer counts" % nm, fn.loc(ss[0][1]), "count|%s|%s|set" % (rec, lim))
            continue
        if lv in lp.dec:
            rep.bad("count", c, "%s is decreased inside the training loop" % nm, fn.loc(lp.dec[lv][0][1]), "count|%s|%s|dec" % (rec, lim))
            continue
        incs = lp.inc.get(lv, []) + lp.up.get(lv, [])
        ib = {q[0] for q in incs}
        if not incs:
            rep.bad("count", c, "%s, which the limit is compared with, is never increased in the training loop" % nm, tl, "count|%s|%s|none" % (rec, lim))
            continue
        if lim in ("MAX_IT", "MAX_EPOCH"):
            sure = {q[0] for q in lp.inc.get(lv, [])}
            if not every_cycle(L, sure):
                if lp.up.get(lv):
                    rep.unk("count", c, "counted by a callee on some paths", tl)
                else:
                    rep.bad("count", c, "a pass round the training loop does not increase %s" % nm, fn.loc(incs[0][1]), "count|%s|%s|pass" % (rec, lim))
                continue
        else:
            miss = [u for u in updates(fn, L) if not counted(L, u, ib)]
            if miss:
                rep.bad("count", c, "the model is updated at %s without counting it in %s" % (fn.loc(miss[0][1]), nm), fn.loc(miss[0][1]), "count|%s|%s|update" % (rec, lim))
                continue
        # the test is passed after counting, before the next pass
        esc = [b for b in ib if L.header not in blocks and b not in blocks and (b == L.header or path(L, L.header, b, blocks)) and path(L, b, L.header, blocks)]
        if esc:
            rep.bad("count", c, "a pass can count in %s and start again without testing the limit" % nm, tl, "count|%s|%s|escape" % (rec, lim))
            continue
        rep.ok("count", c, "", tl)


def copied_count(fn, e):
    n = fn.N[fn.strip(e, casts=True)]
    return "f" in n and "a" in n and (short_callee(n) or "").lower().startswith("get")


def callers_scope(p, fn):
    return [f for f, i in p.callers.get(fn.key, [])]


def is_reset(fn, i):
    n = fn.N[i]
    return "f" in n and "a" in n and ir.short(n["f"]["fq"]).endswith("Timer::reset")


def uses_own_timer(E, t):
    b, fn, c, pol, bind = t
    return True


def opaque_exit(L):
    """an exit test whose meaning could hide a limit: a call that is not resolved, or a helper's value"""
    fn = L.fn
    for b, f, c, pol, bind in L.tests:
        n = f.N[c]
        if n["c"] in ("DeclRefExpr", "MemberExpr") and n.get("dk") != "field":
            v = f.vars.get(n.get("id"))
            if v is not None and v["t"] in ("bool",):
                ds = defs(f, n["id"])
                if any(d is None for d in ds):
                    return True
                # assigned from something that is not a comparison or a literal
                for d in ds:
                    m = f.N[f.strip(d, casts=True)]
                    if m["c"] not in ("CXXBoolLiteralExpr", "BinaryOperator", "IntegerLiteral", "UnaryOperator"):
                        return True
        elif n["c"] == "CallExpr" or (n["c"] == "CXXMemberCallExpr" and "o" in n and f.N[f.strip(n["o"])]["c"] == "CXXThisExpr") or (n["c"] == "CXXOperatorCallExpr" and n.get("op") == "()"):
            return True
    return False


MODEL = ("w", "weights", "bias", "alpha", "m_centers", "centers")


def updates(fn, L):
    """(block, node) writes to the model inside the loop: += / -= / = on weights, bias, alpha or solution members"""
    out = []
    for i in fn.walk():
        n = fn.N[i]
        ps = fn.pos(i)
        if ps is None or ps[0] not in L.blocks:
            continue
        tgt = None
        if n["c"] == "CompoundAssignOperator" and n["op"] in ("+=", "-="):
            tgt = n["k"][0]
        elif n["c"] == "CXXOperatorCallExpr" and n.get("op") in ("+=", "-="):
            tgt = n["a"][0]
        if tgt is None:
            continue
        if any(fn.N[x].get("n") in MODEL or fn.N[x].get("n") == "Alpha" for x in base_chain(fn, tgt)):
            out.append((ps[0], i))
    return out


def base_chain(fn, i):
    i = fn.strip(i)
    n = fn.N[i]
    yield i
    if n["c"] in ("ArraySubscriptExpr",):
        yield from base_chain(fn, n["k"][0])
    elif n["c"] == "CXXOperatorCallExpr" and n.get("op") == "[]":
        yield from base_chain(fn, n["a"][0])
    elif n["c"] == "CXXMemberCallExpr":
        yield fn.strip(n["k"][0])
    elif n["c"] == "UnaryOperator" and n.get("op") == "*":
        yield from base_chain(fn, n["k"][0])


def counted(L, u, ib):
    """every path that updates also counts within the pass: no path header -> u -> header avoiding the counts"""
    b = u[0]
    if b in ib:
        return True
    before = b == L.header or path(L, L.header, b, ib)
    if not before:
        return True
    # from the update, the next repetition of the loop around it or the end of the pass without counting
    inner = [m for m in L.inner if b in m.blocks]
    return not path(L, b, L.header, ib)
