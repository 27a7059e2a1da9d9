"""Manual ownership: what a pointer or handle acquires is released exactly once, not used after it was
released, and not left dangling.

Typestate over object histories: for each raw pointer or handle member that the class acquires or
releases itself, the set of states the member can be in between calls is the least fixed point of the
constructors' exit states under every method; the destructor is run from each of them.  Locals are
followed through their own function."""
import re
import ir, flow
from props.common import *

CLOSERS = {"pclose", "fclose", "closedir", "free", "close"}
HANDLE = {"popen": "pclose", "fopen": "fclose", "fdopen": "fclose", "tmpfile": "fclose", "opendir": "closedir",
          "malloc": "free", "calloc": "free", "realloc": "free", "strdup": "free", "mkstemp": "close", "open": "close", "creat": "close", "dup": "close"}
SMART = re.compile(r"^(const )?std::(__)?(shared_ptr|unique_ptr|auto_ptr)\b")
NORETURN = {"exit", "abort", "terminate", "_Exit", "quick_exit", "__assert_fail"}


def strip(fn, i):
    return fn.strip(i, casts=True)


def callee(n):
    return short_callee(n) if "f" in n else None


def isnull(fn, i):
    n = fn.N[strip(fn, i)]
    if n["c"] in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
        return True
    if n["c"] == "UnaryOperator" and n.get("op") == "-":
        k = fn.N[strip(fn, n["k"][0])]
        return k["c"] == "IntegerLiteral" and str(k.get("v", k.get("ice"))) == "1"
    return n["c"] == "IntegerLiteral" and str(n.get("v", n.get("ice"))) == "0"


def pointer(t):
    return bool(t) and ir.is_ptr_type(t) if isinstance(t, str) else False


class Own:
    def __init__(self, p, rep):
        self.p, self.rep = p, rep
        self.memo_alloc = {}
        self.memo_free = {}

    # ---------------------------------------------------------------- places
    def place(self, fn, i):
        """(kind, key, subscripts): kind "F" member of this object, "V" local or parameter, "D" what a
        pointer parameter points at; subscripts counts [] and * around it"""
        i = strip(fn, i)
        n = fn.N[i]
        depth = 0
        while n["c"] == "ArraySubscriptExpr" or n["c"] == "UnaryOperator" and n.get("op") == "*":
            depth += 1
            i = strip(fn, n["k"][0])
            n = fn.N[i]
        if n["c"] == "MemberExpr" and n.get("dk") == "field" and n["k"]:
            b = fn.N[strip(fn, n["k"][0])]
            if b["c"] == "CXXThisExpr":
                return ("F", (n.get("rec"), n["n"]), depth)
        if n["c"] == "DeclRefExpr" and n.get("id") is not None and (n["id"] in fn.vars or n["id"] in fn.pid):
            return ("V", n["id"], depth)
        return None

    def fresh(self, fn, i):
        """is this expression a fresh allocation?  (release form, node) or None"""
        i = strip(fn, i)
        n = fn.N[i]
        if n["c"] == "CXXNewExpr":
            return ("delete[]" if n.get("arr") else "delete", i)
        if "f" in n and "a" in n:
            s = callee(n)
            if s in HANDLE and not n["f"].get("rec"):
                return (HANDLE[s], i)
            t = self.p.fns.get(n["f"].get("fk"))
            if t is not None and self.allocator(t):
                return (self.allocator(t), i)
        if n["c"] == "ConditionalOperator":
            for k in n["k"][1:]:
                r = self.fresh(fn, k)
                if r:
                    return r
        return None

    def allocator(self, fn):
        """release form of what fn returns when it returns a fresh allocation"""
        if fn.key in self.memo_alloc:
            return self.memo_alloc[fn.key]
        self.memo_alloc[fn.key] = None
        r = None
        if pointer(fn.d.get("ret")):
            for i in fn.walk():
                n = fn.N[i]
                if n["c"] == "ReturnStmt" and n["k"]:
                    f = self.fresh(fn, n["k"][0])
                    if f:
                        r = f[0]
                        continue
                    pl = self.place(fn, n["k"][0])
                    if pl and pl[0] == "V" and pl[2] == 0 and pl[1] in fn.vars:
                        v = fn.vars[pl[1]]
                        fr = [self.fresh(fn, v["init"])] if "init" in v else []
                        fr += [self.fresh(fn, fn.N[j]["k"][1]) for j in fn.walk() if fn.N[j]["c"] == "BinaryOperator" and fn.N[j].get("op") == "=" and self.place(fn, fn.N[j]["k"][0]) == pl]
                        if any(fr) and not self.storedelsewhere(fn, pl[1]):
                            r = [x for x in fr if x][0][0]
        self.memo_alloc[fn.key] = r
        return r

    def storedelsewhere(self, fn, v):
        for j in fn.walk():
            n = fn.N[j]
            if n["c"] == "BinaryOperator" and n.get("op") == "=":
                a, b = self.place(fn, n["k"][0]), self.place(fn, n["k"][1])
                if b == ("V", v, 0) and (a is None or a[0] != "V"):
                    return True
        return False

    def frees(self, fn, k):
        """what fn does with its k-th parameter: (released: "p"/"*p"/None, nulled)"""
        key = (fn.key, k)
        if key in self.memo_free:
            return self.memo_free[key]
        self.memo_free[key] = (None, False)
        r, nul = None, False
        if k < len(fn.params):
            pid = fn.params[k]["id"]
            ref = fn.params[k]["t"].strip().endswith("&")
            alias = {("V", pid, 1): "*p", ("V", pid, 0): "p"}
            for j in fn.walk():
                n = fn.N[j]
                if n["c"] == "BinaryOperator" and n.get("op") == "=":
                    a, b = self.place(fn, n["k"][0]), self.place(fn, n["k"][1])
                    if a and b in alias and a[0] == "V" and a[1] != pid:
                        alias[(a[0], a[1], 0)] = alias[b]
                    if a == ("V", pid, 1) and isnull(fn, n["k"][1]) or a == ("V", pid, 0) and ref and isnull(fn, n["k"][1]):
                        nul = True
                if n["c"] == "DeclStmt":
                    for d in n.get("d", []):
                        if "init" in d and self.place(fn, d["init"]) in alias:
                            alias[("V", d["id"], 0)] = alias[self.place(fn, d["init"])]
            # aliases of aliases
            for _ in range(3):
                for j in fn.walk():
                    n = fn.N[j]
                    if n["c"] == "BinaryOperator" and n.get("op") == "=":
                        a, b = self.place(fn, n["k"][0]), self.place(fn, n["k"][1])
                        if a and b in alias and a[0] == "V" and a[1] != pid and a not in alias:
                            alias[a] = alias[b]
            for j in fn.walk():
                n = fn.N[j]
                for x in self.released(fn, j):
                    pl = self.place(fn, x)
                    if pl in alias:
                        r = "p" if alias[pl] == "p" and not ref else "p" if alias[pl] == "p" else "*p"
            if ref and r == "p":
                r = "*p"
        self.memo_free[key] = (r, nul)
        return self.memo_free[key]

    def released(self, fn, j):
        """expressions whose value node j releases"""
        n = fn.N[j]
        if n["c"] == "CXXDeleteExpr":
            return [n["k"][0]]
        if "f" in n and "a" in n and callee(n) in CLOSERS and not n["f"].get("rec"):
            return n["a"][:1]
        return []

    def form(self, fn, j):
        n = fn.N[j]
        if n["c"] == "CXXDeleteExpr":
            return "delete[]" if n.get("arr") else "delete"
        return callee(n)


# -------------------------------------------------------------------- members
class Member:
    """typestate of one member: N null, O owned, B borrowed, F released and still set, A acquired but not
    yet known to have succeeded, U never set"""

    def __init__(self, own, rec, name, records):
        self.o, self.p = own, own.p
        self.rec, self.name, self.records = rec, name, records
        self.bad = {}
        self.fl = flow.Flow(self.p, self.classify, self.step, descend=self.descend)

    def mine(self, fn, i, depth=0):
        pl = self.o.place(fn, i)
        return pl is not None and pl[0] == "F" and pl[1][1] == self.name and pl[1][0] in self.records and (depth is None or pl[2] == depth)

    def descend(self, fn, i, t):
        n = fn.N[i]
        if t.d.get("static") or not t.rec:
            return False
        if n["c"] == "CXXMemberCallExpr":
            o = fn.N[strip(fn, n["o"])] if "o" in n else None
            return o is None or o["c"] == "CXXThisExpr"
        return False

    def classify(self, fn, item):
        if isinstance(item, tuple):
            if item[0] != "edge":
                return None
            _, c, o = item
            i = fn.strip(c)
            n = fn.N[i]
            while n["c"] == "UnaryOperator" and n.get("op") == "!":
                i, o = fn.strip(n["k"][0]), not o
                n = fn.N[i]
            if n["c"] == "BinaryOperator" and n.get("op") in ("==", "!="):
                a, b = n["k"]
                if isnull(fn, a):
                    a, b = b, a
                if isnull(fn, b) and self.mine(fn, a):
                    return "isnull" if o == (n["op"] == "==") else "notnull"
                return None
            if self.mine(fn, i):
                return "notnull" if o else "isnull"
            return None
        i = item
        n = fn.N[i]
        c = n["c"]
        if c == "CXXThrowExpr" or "f" in n and callee(n) in NORETURN:
            return "end"
        if c == "BinaryOperator" and n.get("op") == "=" and self.mine(fn, n["k"][0]):
            r = n["k"][1]
            if isnull(fn, r):
                return "null"
            if self.o.fresh(fn, r):
                return "alloc" if self.o.fresh(fn, r)[0].startswith("delete") else "open"
            if self.mine(fn, r):
                return None
            if fn.N[strip(fn, r)]["c"] == "ConditionalOperator":
                return "any"
            return "borrow"
        for x in self.o.released(fn, i):
            if self.mine(fn, x):
                return "free" if c == "CXXDeleteExpr" else "close"
        if "f" in n and "a" in n:
            t = self.p.fns.get(n["f"].get("fk"))
            if t is not None:
                out = []
                for k, a in enumerate(n["a"]):
                    x = strip(fn, a)
                    if fn.N[x]["c"] == "UnaryOperator" and fn.N[x].get("op") == "&" and self.mine(fn, fn.N[x]["k"][0]):
                        r, nul = self.o.frees(t, k)
                        if r == "*p":
                            out += ["free"] + (["null"] if nul else [])
                    elif self.mine(fn, a):
                        r, nul = self.o.frees(t, k)
                        if r == "p":
                            out += ["free"]
                        elif r == "*p":
                            out += ["free"] + (["null"] if nul else [])
                if out:
                    return tuple(out)
        if c == "MemberExpr" and self.mine(fn, i):
            return self.use(fn, i)
        return None

    def use(self, fn, i):
        """is the value of the member read other than to be tested, released or overwritten?"""
        x = i
        while x in fn.parent:
            q = fn.parent[x]
            m = fn.N[q]
            if m["c"] in ("ImplicitCastExpr", "ParenExpr", "CStyleCastExpr", "CXXStaticCastExpr"):
                x = q
                continue
            if m["c"] == "BinaryOperator" and m.get("op") == "=" and m["k"][0] == x:
                return None
            if m["c"] == "BinaryOperator" and m.get("op") in ("==", "!="):
                return None
            if m["c"] in ("CXXDeleteExpr",) or self.o.released(fn, q):
                return None
            if m["c"] == "UnaryOperator" and m.get("op") in ("!", "&"):
                return None
            if m["c"] in ("IfStmt", "WhileStmt", "DoStmt", "ForStmt", "ConditionalOperator") and m["k"] and m["k"][0] == x or m["c"] == "BinaryOperator" and m.get("op") in ("&&", "||"):
                return None
            if m["c"] in ("ReturnStmt",):
                return None
            if m["c"] in ("ArraySubscriptExpr", "UnaryOperator", "MemberExpr", "CXXMemberCallExpr") or "f" in m:
                return "use"
            return None
        return None

    def err(self, what):
        self.last = what
        return "!dead"

    def step(self, s, ev):
        pass

    # Flow.step is overridden to see the place
    def run(self, fn, states):
        fl = self.fl

        def step(q, ev, f, i):
            r, what = self.trans(q, ev)
            if what:
                self.bad.setdefault((what, f.key, i), (f, i))
                return "!dead" if r is None else r
            return r
        fl.step = step
        return fl.run(fn, states)

    def trans(self, s, ev):
        if ev == "end":
            return "!dead", None
        if ev == "isnull":
            return ("N" if s in "NAU" else "!dead"), None
        if ev == "notnull":
            return ("!dead" if s == "N" else "O" if s == "A" else s), None
        if ev in ("alloc", "open"):
            n = "O" if ev == "alloc" else "A"
            if s == "O":
                return n, "acquires %s while it still holds one it acquired before: the first is never released" % self.name
            return n, None
        if ev == "null":
            if s == "O":
                return "N", "forgets %s without releasing it" % self.name
            return "N", None
        if ev == "borrow":
            if s == "O":
                return "B", "overwrites %s without releasing what it holds" % self.name
            return "B", None
        if ev == "any":
            return s, None
        if ev == "free":
            if s == "F":
                return "F", "releases %s a second time" % self.name
            if s == "B":
                return "F", "releases %s although it was handed in from outside" % self.name
            if s == "U":
                return "F", "releases %s before it is set" % self.name
            return ("N" if s == "N" else "F"), None
        if ev == "close":
            if s in "NU":
                return s, "closes %s although it was not opened" % self.name
            if s == "A":
                return "F", "closes %s without knowing that it was opened" % self.name
            if s == "F":
                return "F", "closes %s a second time" % self.name
            if s == "B":
                return "F", "closes %s although it was handed in from outside" % self.name
            return "F", None
        if ev == "use":
            if s == "F":
                return "!dead", "uses %s after releasing it" % self.name
            return s, None
        return s, None


def check(p, rep):
    own = Own(p, rep)
    members(rep, p, own)
    locals_(rep, p, own)
    smart(rep, p, own)
    forms(rep, p, own)
    dangling(rep, p, own)
    temporaries(rep, p, own)
    virtuals(rep, p, own)


def rawfields(p):
    for r, d in sorted(p.records.items()):
        if d.get("lambda"):
            continue
        for f in d.get("fields", []):
            if f["t"].strip().endswith("*"):
                yield r, d, f


def concrete(p, r):
    return [x for x in sorted(p.records) if r in p.all_bases(x)]


def methods_of(p, recs, kind):
    return [f for f in p.fns.values() if f.rec in recs and f.d["kind"] == kind and not f.d.get("static")]


def touching(own, fns, r, name):
    """functions that acquire or release the member"""
    out = []
    for fn in fns:
        for i in fn.walk_all():
            n = fn.N[i]
            if n["c"] == "BinaryOperator" and n.get("op") == "=":
                pl = own.place(fn, n["k"][0])
                if pl and pl[0] == "F" and pl[1] == (r, name) and pl[2] == 0 and own.fresh(fn, n["k"][1]):
                    out.append((fn, i, "acquire"))
            for x in own.released(fn, i):
                pl = own.place(fn, x)
                if pl and pl[0] == "F" and pl[1] == (r, name) and pl[2] == 0:
                    out.append((fn, i, "release"))
        for it in fn.d.get("inits", []):
            if it.get("field") == name and fn.rec == r and it["e"] >= 0 and own.fresh(fn, it["e"]):
                out.append((fn, it["e"], "acquire"))
    return out


def members(rep, p, own):
    n = 0
    for r, d, f in rawfields(p):
        fam = concrete(p, r)
        fns = [x for x in p.fns.values() if x.rec in fam]
        tt = touching(own, fns, r, f["n"])
        viafn = [1 for x in fns for i in x.walk_all() if "f" in x.N[i] and "a" in x.N[i] and p.fns.get(x.N[i]["f"].get("fk")) is not None and
                 any(own.frees(p.fns[x.N[i]["f"]["fk"]], k)[0] for k, a in enumerate(x.N[i]["a"])
                     if (own.place(x, x.N[strip(x, a)]["k"][0]) if x.N[strip(x, a)]["c"] == "UnaryOperator" and x.N[strip(x, a)]["k"] else own.place(x, a)) == ("F", (r, f["n"]), 0))]
        if not tt and not viafn:
            continue
        for c in fam:
            if c not in p.records:
                continue
            recs = set(p.all_bases(c))
            if not any(x.rec in recs for x, _, _ in tt) and not viafn:
                continue
            n += 1
            history(rep, p, own, r, f, c, recs)
    rep.floor("members", 1)


def history(rep, p, own, r, f, c, recs):
    m = Member(own, r, f["n"], {r})
    name = "%s::%s in %s" % (ir.short(r), f["n"], ir.short(c))
    ctors = [x for x in methods_of(p, {c}, "ctor")]
    start = "N" if f["init"] else "U"
    states = set()
    loc = "%s:%s" % (p.records[c]["file"], p.records[c]["line"])

    def enter(fn, st):
        """state after the member initialisers"""
        for it in fn.d.get("inits", []):
            if it.get("field") == f["n"] and fn.rec == r and it.get("written") and it["e"] >= 0:
                if isnull(fn, it["e"]):
                    return {"N"}
                if own.fresh(fn, it["e"]):
                    return {"O"}
                x = fn.N[strip(fn, it["e"])]
                if x["c"] in ("ImplicitValueInitExpr", "InitListExpr") and not x.get("k"):
                    return {"N"}
                return {"B"}
        return st
    base = {start}
    for b in reversed(p.all_bases(c)[1:]):
        bc = methods_of(p, {b}, "ctor")
        nb = set()
        for x in bc:
            if copying(x):
                continue
            nb |= m.run(x, enter(x, base))
        if bc and nb:
            base = nb
    for x in ctors:
        if copying(x) and not user(p, x):
            continue
        states |= m.run(x, enter(x, base))
    if not ctors:
        states |= base
    # private helpers run only where the class calls them
    ms = [x for x in methods_of(p, recs, "method") if x.d.get("access") == 0 or x.d.get("virt")]
    for _ in range(12):
        new = set(states)
        for x in ms:
            new |= m.run(x, set(states))
        if new == states:
            break
        states = new
    dead = set(states)
    dtors = []
    for b in [c] + [x for x in p.all_bases(c) if x != c]:
        for x in methods_of(p, {b}, "dtor"):
            dtors.append(x)
            dead = m.run(x, dead)
    rep.put("O" not in dead and "A" not in dead, "members", name, "the destructor leaves %s allocated (states before it: %s)" % (f["n"], "/".join(sorted(states))),
            dtors[0].loc() if dtors else loc, key="P18:leak:%s:%s" % (ir.short(c), f["n"]))
    for (what, _, i), (fn, j) in sorted(m.bad.items(), key=lambda kv: (kv[0][0], kv[0][1])):
        rep.bad("members", name, "%s %s" % (ir.short(fn.q), what), fn.loc(j) if j is not None else fn.loc(), key="P18:%s:%s:%s" % (ir.short(c), f["n"], what))
    # copies
    d = p.records[r]
    releases = any(own.place(x, e) == ("F", (r, f["n"]), 0) for x in dtors for i in x.walk_all() for e in own.released(x, i)) or \
        any(m.classify(x, i) in (("free",), ("free", "null")) for x in dtors for i in x.walk_all())
    holds = states & {"O", "F", "A"}
    if releases and holds:
        holder = [b for b in p.all_bases(c) if any(x.rec == b for x in dtors)]
        def custom(k_user, k_del):
            return any(p.records.get(b, {}).get(k_user) or p.records.get(b, {}).get(k_del) for b in p.all_bases(c))
        cc, ca = custom("user_cc", "cc_deleted"), custom("user_ca", "ca_deleted")
        rep.put(cc and ca, "copies", name, "the destructor releases %s but the class has an implicit %s: the copy releases it again" %
                (f["n"], "copy constructor" if not cc else "copy assignment"), loc, key="P18:copy:%s:%s" % (ir.short(r), f["n"]))
        for x in ctors + ms:
            if copying(x) and user(p, x):
                sharing(rep, p, own, x, r, f, name)
    else:
        rep.ok("copies", name, loc)


def copying(x):
    """copy or move constructor / assignment"""
    if len(x.params) != 1:
        return False
    t = x.params[0]["t"].replace("const ", "").strip().rstrip("&").strip()
    return t == x.rec


def user(p, x):
    return not x.d.get("implicit") and not x.d.get("defaulted")


def sharing(rep, p, own, x, r, f, name):
    """does a written copy operation just copy the pointer?"""
    pid = x.params[0]["id"]
    moves = x.params[0]["t"].strip().endswith("&&")
    bad = None
    for i in x.walk_all():
        n = x.N[i]
        if n["c"] == "BinaryOperator" and n.get("op") == "=" and own.place(x, n["k"][0]) == ("F", (r, f["n"]), 0):
            v = x.N[strip(x, n["k"][1])]
            if v["c"] == "MemberExpr" and v["n"] == f["n"] and v["k"] and x.N[strip(x, v["k"][0])].get("id") == pid:
                bad = i
    for it in x.d.get("inits", []):
        if it.get("field") == f["n"] and it["e"] >= 0:
            v = x.N[strip(x, it["e"])]
            if v["c"] == "MemberExpr" and v["n"] == f["n"] and v["k"] and x.N[strip(x, v["k"][0])].get("id") == pid:
                bad = it["e"]
    if moves and bad is not None:
        # the source must be cleared
        for i in x.walk_all():
            n = x.N[i]
            if n["c"] == "BinaryOperator" and n.get("op") == "=" and isnull(x, n["k"][1]):
                v = x.N[strip(x, n["k"][0])]
                if v["c"] == "MemberExpr" and v["n"] == f["n"] and v["k"] and x.N[strip(x, v["k"][0])].get("id") == pid:
                    bad = None
    rep.put(bad is None, "copies", name + " (written copy)", "copies the pointer %s, which both objects then release" % f["n"], x.loc(bad) if bad is not None else x.loc())


# --------------------------------------------------------------------- locals
class Local:
    """one local raw pointer: state = (own, freed, alias): own in 0 unset, O owned, A opened, C handed on,
    N null; freed = set of variables whose target was deleted; alias = pairs of equal pointers"""

    def __init__(self, own, fn):
        self.o, self.p, self.fn = own, own.p, fn
        self.bad = {}


def plain(fn, i, v):
    """is node i an occurrence of local v"""
    n = fn.N[i]
    return n["c"] == "DeclRefExpr" and n.get("id") == v


def consumer(own, fn, i):
    """how the value of node i (an occurrence of a pointer) is used: one of
    "deref", "test", "free", "close", "return", "store:<id>", "store", "pass", "member", "addr", "lhs", "none" """
    x = i
    while x in fn.parent:
        q = fn.parent[x]
        m = fn.N[q]
        c = m["c"]
        if c in ("ImplicitCastExpr", "ParenExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXReinterpretCastExpr", "CXXConstCastExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXFunctionalCastExpr"):
            if c == "ImplicitCastExpr" and m.get("ck") == "PointerToBoolean":
                return "test", q
            x = q
            continue
        if c == "BinaryOperator" and m.get("op") == "=":
            if m["k"][0] == x:
                return "lhs", q
            pl = own.place(fn, m["k"][0])
            if pl and pl[0] == "V" and pl[2] == 0 and pl[1] in fn.vars and not fn.vars[pl[1]]["t"].strip().endswith("&"):
                return "store:%s" % pl[1], q
            return "store", q
        if c == "BinaryOperator":
            return ("test" if m.get("op") in ("==", "!=", "&&", "||", "<", ">", "<=", ">=") else "none"), q
        if c in ("IfStmt", "WhileStmt", "DoStmt", "ForStmt", "ConditionalOperator"):
            if c == "ConditionalOperator" and m["k"][0] != x:
                x = q
                continue
            return "test", q
        if c == "CXXDeleteExpr":
            return "free", q
        if c == "ReturnStmt":
            return "return", q
        if c == "UnaryOperator":
            return {"*": "deref", "!": "test", "&": "addr"}.get(m.get("op"), "arith"), q
        if c == "ArraySubscriptExpr":
            return "deref", q
        if c == "MemberExpr":
            return "deref", q
        if c == "DeclStmt":
            for d in m.get("d", []):
                if "init" in d and (d["init"] == x):
                    if d["t"].strip().endswith("&"):
                        return "store", q
                    return ("store:%s" % d["id"] if d["t"].strip().endswith("*") or d["t"].replace("const ", "").strip() == "int" else "pass"), q
            return "none", q
        if "f" in m and "a" in m:
            if own.released(fn, q):
                return "close", q
            if m["c"] == "CXXMemberCallExpr" and "o" in m and strip(fn, m["o"]) == strip(fn, x):
                return "deref", q
            return "pass", q
        if c in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr", "LambdaExpr", "CXXNewExpr", "CXXInheritedCtorInitExpr"):
            return "pass", q
        if c in ("CompoundStmt", "CaseStmt", "DefaultStmt", "ForStmt"):
            return "none", q
        return "other", q
    return "none", None


def locals_(rep, p, own):
    seen = set()
    for fn in list(p.fns.values()):
        if fn.body is None:
            continue
        cand = {}
        for i in fn.walk():
            n = fn.N[i]
            fr = None
            if n["c"] == "CXXNewExpr" and not n.get("place"):
                fr = ("delete[]" if n.get("arr") else "delete", i)
            elif "f" in n and "a" in n:
                x = own.fresh(fn, i)
                fr = x if x and x[1] == i else None
            if fr:
                how, q = consumer(own, fn, i)
                nm = "%s: %s at line %s" % (ir.short(fn.q), fn.text(i)[:40], fn.N[i]["l"])
                if how in ("none", "deref", "test"):
                    rep.bad("locals", nm, "what is acquired here is not kept anywhere, so nothing can release it", fn.loc(i))
                elif how.startswith("store:"):
                    cand.setdefault(int(how[6:]) if how[6:].isdigit() else how[6:], []).append(i)
                else:
                    rep.ok("locals", nm, fn.loc(i))
            for x in own.released(fn, i):
                pl = own.place(fn, x)
                if pl and pl[0] == "V" and pl[2] == 0 and pl[1] in fn.vars:
                    cand.setdefault(pl[1], [])
        for v, news in cand.items():
            follow(rep, p, own, fn, v, news)
    rep.floor("locals", 4)


def follow(rep, p, own, fn, v, news):
    """forward dataflow of one local pointer"""
    name = fn.vars[v]["n"] if v in fn.vars else str(v)
    handle = any(own.fresh(fn, i) and not own.fresh(fn, i)[0].startswith("delete") for i in news)
    bad = {}
    N = fn.N
    ptrs = {x for x, d in fn.vars.items() if d["t"].strip().endswith("*")} | {v}
    descr = not fn.vars[v]["t"].strip().endswith("*")

    def report(what, i):
        bad.setdefault((what, i), 1)

    def node(i, s):
        st, freed, alias = s
        n = N[i]
        if n["c"] == "CXXThrowExpr" or "f" in n and callee(n) in NORETURN:
            return None
        if n["c"] == "DeclStmt":
            for d in n.get("d", []):
                if d["id"] in ptrs:
                    st, freed, alias = assign(d["id"], d.get("init"), i, st, freed, alias)
            return st, freed, alias
        if n["c"] == "BinaryOperator" and n.get("op") == "=":
            pl = own.place(fn, n["k"][0])
            if pl and pl[0] == "V" and pl[2] == 0 and pl[1] in ptrs:
                return assign(pl[1], n["k"][1], i, st, freed, alias)
        if n["c"] == "DeclRefExpr" and n.get("id") in ptrs:
            w = n["id"]
            how, q = consumer(own, fn, i)
            if w in freed and how in ("deref", "pass", "return", "arith"):
                report("uses %s after deleting it" % (fn.vars[w]["n"]), i)
                return None
            if w == v:
                if how in ("pass", "return", "store", "addr", "other") or how.startswith("store:"):
                    if handle and how == "pass":
                        return st, freed, alias
                    if how == "store:%s" % v:
                        return st, freed, alias
                    return ("C" if st in ("O", "A") else st), freed, alias
            return st, freed, alias
        for x in own.released(fn, i):
            pl = own.place(fn, x)
            if pl and pl[0] == "V" and pl[2] == 0 and pl[1] in ptrs:
                w = pl[1]
                if w in freed:
                    report("releases %s a second time" % fn.vars[w]["n"], i)
                    return None
                same = {w} | {b for a, b in alias if a == w} | {a for a, b in alias if b == w}
                if N[i]["c"] != "CXXDeleteExpr" and w == v:
                    if st == "A":
                        report("closes %s without knowing that it was opened" % name, i)
                    elif st == "N":
                        report("closes %s although it was not opened" % name, i)
                if w == v or v in same:
                    if st == "N" and N[i]["c"] == "CXXDeleteExpr":
                        return st, freed, alias
                    st = "C"
                return st, freed | same, alias
        return s

    def assign(w, init, i, st, freed, alias):
        freed = freed - {w}
        alias = frozenset(a for a in alias if w not in a)
        if w == v:
            if st == "O":
                report("overwrites %s without releasing what it points at" % name, i)
            if init is None:
                return "0", freed, alias
            fr = own.fresh(fn, init)
            if fr:
                return ("O" if fr[0].startswith("delete") else "A"), freed, alias
            st = "N" if isnull(fn, init) else "B"
        if init is not None:
            pl = own.place(fn, init)
            if pl and pl[0] == "V" and pl[2] == 0 and pl[1] in ptrs and pl[1] != w:
                alias = alias | {(w, pl[1])} | {(w, b) for a, b in alias if a == pl[1]} | {(w, a) for a, b in alias if b == pl[1]}
                if pl[1] in freed:
                    freed = freed | {w}
        return st, freed, alias

    def edge(c, o, s):
        st, freed, alias = s
        i = fn.strip(c)
        n = N[i]
        while n["c"] == "UnaryOperator" and n.get("op") == "!":
            i, o = fn.strip(n["k"][0]), not o
            n = N[i]
        null = None
        if n["c"] == "BinaryOperator" and n.get("op") in ("==", "!="):
            a, b = n["k"]
            if isnull(fn, a):
                a, b = b, a
            if isnull(fn, b) and own.place(fn, a) == ("V", v, 0):
                null = o == (n["op"] == "==")
        elif own.place(fn, i) == ("V", v, 0) and not descr:
            null = not o
        elif descr and n["c"] == "BinaryOperator" and n.get("op") in ("<", ">=", ">") and own.place(fn, n["k"][0]) == ("V", v, 0):
            null = o == (n["op"] == "<")
        if null is None:
            return s
        if null:
            return ("N", freed, alias) if st in ("A", "N", "B", "0", "C") else None
        return None if st == "N" else ("O" if st == "A" else st, freed, alias)

    g = fn.cfg
    init = ("0", frozenset(), frozenset())
    ins = {g.entry: {init}}
    work = [g.entry]
    done = set()
    steps = 0
    exits = []
    while work and steps < 20000:
        b = work.pop()
        for s in list(ins.get(b, ())):
            if (b, s) in done:
                continue
            done.add((b, s))
            steps += 1
            cur = s
            blk = g.blocks[b]
            for e in blk["e"]:
                if isinstance(e, int):
                    cur = node(e, cur)
                    if cur is None:
                        break
            if cur is None:
                continue
            if b == g.exit:
                exits.append(cur)
                continue
            for k, x in enumerate(blk["s"]):
                if x < 0:
                    continue
                nx = cur
                if "cond" in blk and len(blk["s"]) == 2:
                    nx = edge(blk["cond"], k == 0, cur)
                    if nx is None:
                        continue
                if nx not in ins.setdefault(x, set()):
                    ins[x].add(nx)
                    work.append(x)
    nm = "%s: local %s" % (ir.short(fn.q), name)
    if any(st in ("O", "A") for st, _, _ in exits):
        bad[("returns without releasing what %s points at" % name, news[0] if news else None)] = 1
    if not bad:
        rep.ok("locals", nm, fn.loc(news[0]) if news else fn.loc())
    for (what, i) in bad:
        rep.bad("locals", nm, "%s %s" % (ir.short(fn.q), what), fn.loc(i) if i is not None else fn.loc(), key="P18:%s:%s:%s" % (ir.short(fn.q), name, what.replace(name, "it")))


# ------------------------------------------------------------- smart pointers
def smart(rep, p, own):
    """a smart pointer takes over only what nobody else releases"""
    for fn in list(p.fns.values()):
        for i in fn.walk():
            n = fn.N[i]
            arg = None
            if n["c"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and SMART.match(n.get("t", "")) and len(n.get("a", [])) == 1:
                at = fn.N[fn.strip(n["a"][0])].get("t", "")
                if at.strip().endswith("*"):
                    arg, rec = n["a"][0], n["t"]
            elif n["c"] == "CXXMemberCallExpr" and "f" in n and SMART.match(n["f"].get("rec") or "") and callee(n) == "reset" and len(n["a"]) == 1:
                arg, rec = n["a"][0], n["f"]["rec"]
            if arg is None or isnull(fn, arg) or fn.N[strip(fn, arg)]["c"] == "CXXDefaultArgExpr":
                continue
            x = strip(fn, arg)
            m = fn.N[x]
            nm = "%s: %s at line %s" % (ir.short(fn.q), fn.text(i)[:50], n["l"])
            fr = own.fresh(fn, x)
            if fr:
                arr = "[]" in rec.split(",")[0]
                rep.put((fr[0] == "delete[]") == arr and fr[0].startswith("delete"), "smart pointers", nm, "what is acquired here must be released with %s, which this smart pointer does not do" % fr[0], fn.loc(i))
                continue
            if "f" in m and callee(m) == "release":
                rep.ok("smart pointers", nm, fn.loc(i))
            elif "f" in m and callee(m) in ("get", "data", "front", "back"):
                rep.bad("smart pointers", nm, "takes over a pointer that belongs to another owner (%s)" % fn.text(x)[:40], fn.loc(i))
            elif m["c"] == "UnaryOperator" and m.get("op") == "&" or m["c"] == "CXXThisExpr":
                rep.bad("smart pointers", nm, "takes over an object that was not allocated with new (%s)" % fn.text(x)[:40], fn.loc(i))
            else:
                pl = own.place(fn, x)
                if pl and pl[0] == "F":
                    rep.bad("smart pointers", nm, "takes over the member %s, which keeps pointing at it" % pl[1][1], fn.loc(i))
                else:
                    rep.ok("smart pointers", nm, fn.loc(i))
    rep.floor("smart pointers", 1)


# -------------------------------------------------------------- release forms
def forms(rep, p, own):
    """delete for new, delete[] for new[], fclose for fopen"""
    acq, rel = {}, {}
    for fn in p.fns.values():
        def key(e):
            pl = own.place(fn, e)
            if pl is None:
                return None
            return (pl[0], pl[1] if pl[0] == "F" else (fn.key, pl[1]), pl[2])
        for i in fn.walk():
            n = fn.N[i]
            if n["c"] == "BinaryOperator" and n.get("op") == "=":
                fr = own.fresh(fn, n["k"][1])
                k = key(n["k"][0])
                if fr and k:
                    acq.setdefault(k, []).append((fr[0], fn, i))
            elif n["c"] == "DeclStmt":
                for d in n.get("d", []):
                    if "init" in d and own.fresh(fn, d["init"]):
                        acq.setdefault(("V", (fn.key, d["id"]), 0), []).append((own.fresh(fn, d["init"])[0], fn, i))
            for x in own.released(fn, i):
                k = key(x)
                if k:
                    rel.setdefault(k, []).append((own.form(fn, i), fn, i))
        for it in fn.d.get("inits", []):
            if "field" in it and it["e"] >= 0 and own.fresh(fn, it["e"]):
                acq.setdefault(("F", (fn.rec, it["field"]), 0), []).append((own.fresh(fn, it["e"])[0], fn, it["e"]))
    for k in sorted(acq, key=str):
        for form, fn, i in rel.get(k, []):
            nm = "%s: %s at line %s" % (ir.short(fn.q), fn.text(i)[:50], fn.N[i]["l"])
            want = {a[0] for a in acq[k]}
            rep.put(form in want, "release forms", nm, "acquired with the counterpart of %s but released with %s" % ("/".join(sorted(want)), form), fn.loc(i))
        if k[0] == "F" and k[2] > 0 and not rel.get(k):
            form, fn, i = acq[k][0]
            rep.bad("release forms", "%s: %s" % (ir.short(fn.q), k[1][1]), "the blocks stored in %s are never released" % k[1][1], fn.loc(i), key="P18:rows:%s" % k[1][1])
    # a class that deletes what its table points at owns it: its destructor does so too
    elems = {}
    for fn in p.fns.values():
        if not fn.rec:
            continue
        alias = {}
        for i in fn.walk():
            n = fn.N[i]
            if n["c"] == "BinaryOperator" and n.get("op") == "=":
                a, b = own.place(fn, n["k"][0]), own.place(fn, n["k"][1])
                if a and a[0] == "V" and a[2] == 0 and b and b[0] == "F" and b[2] > 0:
                    alias[a[1]] = b
            elif n["c"] == "DeclStmt":
                for d in n.get("d", []):
                    b = own.place(fn, d["init"]) if "init" in d else None
                    if b and b[0] == "F" and b[2] > 0 and d["t"].strip().endswith("*"):
                        alias[d["id"]] = b
        for i in fn.walk():
            for x in own.released(fn, i):
                pl = own.place(fn, x)
                if pl and pl[0] == "V" and pl[2] == 0:
                    pl = alias.get(pl[1])
                if pl and pl[0] == "F" and pl[2] > 0:
                    elems.setdefault((pl[1], pl[2]), []).append((fn, i))
    for (f, depth), sites in sorted(elems.items(), key=str):
        dt = [x for x, _ in sites if x.d["kind"] == "dtor"]
        rep.put(bool(dt), "release forms", "%s::%s elements" % (ir.short(f[0]), f[1]), "the class deletes what %s points at, but its destructor leaves the rest allocated" % f[1],
                sites[0][0].loc(sites[0][1]), key="P18:elements:%s:%s" % (ir.short(f[0]), f[1]))
    rep.floor("release forms", 1)


# ------------------------------------------------------------------- dangling
def dangling(rep, p, own):
    """pointers and references to locals that outlive the function"""
    n = 0
    for fn in list(p.fns.values()):
        loc = {x for x, d in fn.vars.items() if not d["t"].strip().endswith("&") and not d.get("static")} | \
              {q["id"] for q in fn.params if not q["t"].strip().endswith("&")}

        def target(i, depth=0):
            """local whose storage the pointer value points into"""
            i = strip(fn, i)
            m = fn.N[i]
            if depth > 6:
                return None
            if m["c"] == "UnaryOperator" and m.get("op") == "&":
                return inside(m["k"][0])
            if m["c"] == "CXXMemberCallExpr" and callee(m) in ("data", "c_str") and "o" in m:
                return inside(m["o"])
            if m["c"] == "CXXMemberCallExpr" and callee(m) == "get" and "o" in m and SMART.match(fn.N[strip(fn, m["o"])].get("t", "")):
                v = inside(m["o"])
                if v is not None and v in fn.vars and not shared_on(v):
                    return v
                return None
            return None

        def inside(i):
            i = strip(fn, i)
            m = fn.N[i]
            if m["c"] == "DeclRefExpr" and m.get("id") in loc:
                return m["id"]
            if m["c"] == "MemberExpr" and not m.get("arrow") and m["k"]:
                return inside(m["k"][0])
            if m["c"] == "CXXOperatorCallExpr" and m.get("op") == "[]" and fn.N[strip(fn, m["a"][0])].get("t", "").replace("const ", "").startswith("std::vector<"):
                return inside(m["a"][0])
            return None

        def shared_on(v):
            """is the local smart pointer copied or moved anywhere"""
            for j in fn.walk_all():
                if plain(fn, j, v):
                    how, q = consumer(own, fn, j)
                    if how in ("pass", "return", "store", "other", "lhs") or how.startswith("store:"):
                        m = fn.N[q] if q is not None else {}
                        if how == "lhs":
                            continue
                        if m.get("c") == "CXXOperatorCallExpr" and m.get("op") in ("*", "->", "=") and strip(fn, m["a"][0]) == j:
                            continue
                        return True
            return False
        for i in fn.walk():
            m = fn.N[i]
            if m["c"] == "BinaryOperator" and m.get("op") == "=":
                pl = own.place(fn, m["k"][0])
                if pl and pl[0] == "F" and fn.N[strip(fn, m["k"][0])].get("t", "").strip().endswith("*"):
                    n += 1
                    v = target(m["k"][1])
                    nm = "%s: %s at line %s" % (ir.short(fn.q), fn.text(i)[:50], m["l"])
                    rep.put(v is None or cleared(own, fn, pl), "dangling", nm, "keeps the address of a local in the member %s, which outlives it" % pl[1][1], fn.loc(i))
            elif m["c"] == "ReturnStmt" and m["k"]:
                rt = (fn.d.get("ret") or "").strip()
                if rt.endswith("*"):
                    n += 1
                    v = target(m["k"][0])
                    rep.put(v is None, "dangling", "%s: return at line %s" % (ir.short(fn.q), m["l"]), "returns the address of a local", fn.loc(i))
                elif rt.endswith("&"):
                    n += 1
                    v = inside(m["k"][0])
                    rep.put(v is None, "dangling", "%s: return at line %s" % (ir.short(fn.q), m["l"]), "returns a reference to a local", fn.loc(i))
    rep.floor("dangling", 10)


VIEW = {"c_str", "data"}
OWNERS = re.compile(r"^(const )?(mltk::|std::(vector|map|unordered_map|set|deque|list|array|__cxx11::|basic_string))")


def temporaries(rep, p, own):
    """references and pointers into an object that is gone at the end of the statement"""
    def temporary(fn, i):
        """is this expression an object that nothing keeps?"""
        j = strip(fn, i)
        n = fn.N[j]
        if n.get("lv") or not OWNERS.match(n.get("t", "")) or ir.is_ptr_type(n.get("t", "")) or SMART.match(n.get("t", "")):
            return None
        if n["c"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            return j
        if "f" in n and "a" in n:
            return j
        return None

    def into(fn, i, depth=0):
        """temporary that the lvalue or pointer lies in"""
        j = strip(fn, i)
        n = fn.N[j]
        if depth > 6:
            return None
        if n["c"] == "MemberExpr" and not n.get("arrow") and n["k"]:
            return temporary(fn, n["k"][0]) or into(fn, n["k"][0], depth + 1)
        if n["c"] == "CXXMemberCallExpr" and "o" in n and (n.get("lv") or callee(n) in VIEW and n["t"].strip().endswith("*")):
            return temporary(fn, n["o"]) or into(fn, n["o"], depth + 1)
        if n["c"] == "CXXOperatorCallExpr" and n.get("op") == "[]" and n.get("lv") and n["a"]:
            return temporary(fn, n["a"][0]) or into(fn, n["a"][0], depth + 1)
        return None
    n = 0
    for fn in list(p.fns.values()):
        for i in fn.walk():
            m = fn.N[i]
            if m["c"] != "DeclStmt":
                continue
            for d in m.get("d", []):
                t = d["t"].strip()
                if "init" in d and (t.endswith("&") or t.endswith("*")):
                    n += 1
                    x = into(fn, d["init"])
                    rep.put(x is None, "temporaries", "%s: %s at line %s" % (ir.short(fn.q), d["n"], m["l"]), "%s refers into a temporary (%s) that is destroyed at the end of the statement" % (d["n"], fn.text(x)[:40] if x is not None else ""), fn.loc(i))
    rep.floor("temporaries", 50)


def cleared(own, fn, pl):
    """the member is reset before the function ends (on some later statement)"""
    return any(fn.N[j]["c"] == "BinaryOperator" and fn.N[j].get("op") == "=" and own.place(fn, fn.N[j]["k"][0]) == pl and isnull(fn, fn.N[j]["k"][1]) for j in fn.walk())


# ----------------------------------------------------- destruction through bases
def virtuals(rep, p, own):
    """a class deleted through a base pointer has a virtual destructor"""
    def need(t):
        t = t.replace("const ", "").strip()
        return t if t in p.records else None
    want = {}
    for fn in p.fns.values():
        for i in fn.walk():
            n = fn.N[i]
            if n["c"] == "CXXDeleteExpr":
                t = need(fn.N[strip(fn, n["k"][0])].get("t", "").rstrip("* ").strip())
                if t:
                    want.setdefault(t, (fn, i))
    for r, d in p.records.items():
        for f in d.get("fields", []):
            m = re.match(r"^std::unique_ptr<(.*?)(, std::default_delete<.*)?>$", f["t"])
            if m and need(m.group(1)):
                want.setdefault(need(m.group(1)), None)
            m = re.search(r"std::unique_ptr<([^,<>]*(<[^<>]*>)?[^,<>]*), ", f["t"])
            if m and need(m.group(1)):
                want.setdefault(need(m.group(1)), None)
    # classes that members of other classes own by base pointer
    for r, d in p.records.items():
        for f in d.get("fields", []):
            t = f["t"].replace("const ", "").strip()
            for q in p.records:
                if p.records[q].get("polymorphic") and "_ptr<%s>" % q in t:
                    want.setdefault(q, None)
    for r, at in sorted(want.items()):
        kids = [x for x in p.derived(ir.short(r)) if x != r and r in p.all_bases(x)]
        virt = any(p.records.get(b, {}).get("virt_dtor") for b in p.all_bases(r))
        rep.put(not kids or virt, "virtual destructors", ir.short(r), "deleted through a base pointer but its destructor is not virtual (derived: %s)" % ", ".join(ir.short(k) for k in sorted(kids)[:3]),
                at[0].loc(at[1]) if at else "%s:%s" % (p.records[r]["file"], p.records[r]["line"]))
    rep.floor("virtual destructors", 3)
