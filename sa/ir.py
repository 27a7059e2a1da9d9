"""Program model over the extracted facts: functions, resolved expressions, CFGs,
dominance, reaching definitions, call graph."""
import re
from functools import lru_cache

TRANSPARENT = {"ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr",
               "ConstantExpr", "SubstNonTypeTemplateParmExpr", "CXXStdInitializerListExpr", "FullExpr", "CXXDefaultArgExpr",
               "CXXDefaultInitExpr", "OpaqueValueExpr"}
EXPLICIT_CASTS = {"CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr", "CXXConstCastExpr", "CXXReinterpretCastExpr", "CXXDynamicCastExpr"}
LOOPS = {"ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"}
SMART = ("std::shared_ptr<", "std::unique_ptr<", "std::weak_ptr<", "std::__shared_ptr", "std::__shared_ptr_access")


def is_ptr_type(t):
    t = (t or "").strip()
    if t.endswith("&"):
        t = t[:-1].strip()
    if t.endswith("const"):
        t = t[:-5].strip()
    if t.startswith("const "):
        t = t[6:]
    return t.endswith("*") or (t.startswith(SMART) and not t.endswith("::element_type") and balanced_end(t))


def balanced_end(t):
    # the template-id spans the whole string (so std::shared_ptr<X>::element_type is excluded)
    d = 0
    for i, ch in enumerate(t):
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
            if d == 0:
                return i == len(t) - 1
    return True


def short(q):
    """Qualified name without template arguments."""
    out, d = [], 0
    q = q.replace("operator<<", "operator@L").replace("operator->", "operator@A").replace("operator<=", "operator@E").replace("operator>=", "operator@F").replace("operator>>", "operator@R")
    q = re.sub(r"operator<(?!\w)", "operator@l", q) if "operator<" in q and not q.endswith(">") else q
    for ch in q:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
    s = "".join(out)
    return s.replace("@L", "<<").replace("@A", "->").replace("@E", "<=").replace("@F", ">=").replace("@R", ">>").replace("@l", "<")


class Fn:
    def __init__(self, prog, d):
        self.p = prog
        self.d = d
        self.key = d["key"]
        self.q = d["q"]
        self.sq = short(d["q"])
        self.n = d["n"]
        self.N = d["nodes"]
        self.file, self.line = d["file"], d["line"]
        self.rec = d.get("rec")
        self.body = d["body"]
        self.params = d["params"]
        self.pid = {p["id"]: i for i, p in enumerate(self.params)}
        self._parent = None
        self._pos = None
        self._dom = self._pdom = None
        self._rd = None
        self._vars = None

    def __repr__(self):
        return "<%s>" % self.q

    @property
    def name(self):
        return self.sq

    # ---------- tree ----------
    @property
    def parent(self):
        if self._parent is None:
            par = {}
            for i, n in enumerate(self.N):
                for k in n["k"]:
                    if k >= 0 and k not in par and k != i:
                        par[k] = i
            self._parent = par
        return self._parent

    def kids(self, i):
        return [k for k in self.N[i]["k"] if k >= 0]

    def walk(self, i=None, lambdas=False):
        """Pre-order over the syntax tree (lambda bodies are separate functions)."""
        st = [self.body if i is None else i]
        seen = set()
        while st:
            x = st.pop()
            if x < 0 or x in seen:
                continue
            seen.add(x)
            yield x
            st.extend(reversed(self.N[x]["k"]))

    def walk_all(self):
        """Body plus constructor initialisers."""
        for i in self.d.get("inits", []):
            for x in self.walk(i["e"]):
                yield x
        for x in self.walk():
            yield x

    def ancestors(self, i):
        while i in self.parent:
            i = self.parent[i]
            yield i

    def strip(self, i, casts=False):
        """Skip syntax that does not change the value (implicit casts, parens, elidable
        copies); with casts=True explicit casts too."""
        while True:
            n = self.N[i]
            c = n["c"]
            if c in TRANSPARENT or (casts and c in EXPLICIT_CASTS):
                ks = [k for k in n["k"] if k >= 0]
                if not ks:
                    return i
                if "f" in n and n.get("ck") == "UserDefinedConversion" and False:
                    return i
                i = ks[0]
            elif c in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and n.get("elide") and len(n.get("a", [])) == 1:
                i = n["a"][0]
            elif c == "CXXFunctionalCastExpr" and n.get("ck") == "ConstructorConversion":
                i = n["k"][0]
            elif c == "UnaryOperator" and n.get("op") in ("+", "__extension__"):
                i = n["k"][0]
            else:
                return i

    def loc(self, i=None):
        return "%s:%d" % (self.file, self.N[i]["l"] if i is not None else self.line)

    def text(self, i, depth=0):
        """Readable rendering of an expression (messages only, never matched)."""
        if i is None or i < 0 or depth > 12:
            return ".."
        i = self.strip(i)
        n = self.N[i]
        c = n["c"]
        T = lambda x: self.text(x, depth + 1)
        if c == "DeclRefExpr":
            return n["n"]
        if c == "CXXThisExpr":
            return "this"
        if c == "MemberExpr":
            b = T(n["k"][0]) if n["k"] else ""
            return n["n"] if b == "this" else b + ("->" if n.get("arrow") else ".") + n["n"]
        if c in ("IntegerLiteral", "FloatingLiteral", "CXXBoolLiteralExpr", "CharacterLiteral"):
            return str(n.get("v"))
        if c == "StringLiteral":
            return '"%s"' % n.get("v", "")[:30]
        if c in ("BinaryOperator", "CompoundAssignOperator"):
            return "%s %s %s" % (T(n["k"][0]), n["op"], T(n["k"][1]))
        if c == "UnaryOperator":
            return (T(n["k"][0]) + n["op"]) if n.get("post") else n["op"] + T(n["k"][0])
        if c == "CXXOperatorCallExpr":
            a = n["a"]
            op = n.get("op")
            if op == "[]":
                return "%s[%s]" % (T(a[0]), T(a[1]))
            if op == "()":
                return "%s(%s)" % (T(a[0]), ", ".join(T(x) for x in a[1:]))
            if len(a) == 1:
                return op + T(a[0])
            if len(a) == 2:
                return "%s %s %s" % (T(a[0]), op, T(a[1]))
        if c == "ArraySubscriptExpr":
            return "%s[%s]" % (T(n["k"][0]), T(n["k"][1]))
        if "f" in n and "a" in n:
            nm = n["f"]["fq"].split("::")[-1] if not n.get("o") is not None else n["f"]["fq"].split("::")[-1]
            nm = short(n["f"]["fq"]).split("::")[-1]
            pre = T(n["o"]) + "." if "o" in n and self.N[self.strip(n["o"])]["c"] != "CXXThisExpr" else ""
            return "%s%s(%s)" % (pre, nm, ", ".join(T(x) for x in n["a"]))
        if c in EXPLICIT_CASTS:
            return "(%s)%s" % (n["t"], T(n["k"][0]))
        if c == "ConditionalOperator":
            return "%s ? %s : %s" % tuple(T(k) for k in n["k"][:3])
        if c == "LambdaExpr":
            return "[lambda]"
        return c

    # ---------- calls ----------
    def calls(self, all_=True):
        for i in (self.walk_all() if all_ else self.walk()):
            n = self.N[i]
            if "f" in n and n["c"] not in ("ImplicitCastExpr",) and ("a" in n):
                yield i

    def callee(self, i):
        return self.N[i].get("f")

    def args(self, i):
        """(object or None, [args]) with operator member calls normalised."""
        n = self.N[i]
        f = n.get("f")
        a = n.get("a", [])
        if n["c"] == "CXXOperatorCallExpr" and f and "rec" in f and not f.get("stat"):
            return a[0], a[1:]
        return n.get("o"), a

    # ---------- CFG ----------
    @property
    def cfg(self):
        c = getattr(self, "_cfg", None)
        if c is None:
            c = self._cfg = Cfg(self)
        return c

    def pos(self, i):
        """(block, index) at which node i is evaluated (or the nearest evaluated ancestor/descendant)."""
        if self._pos is None:
            m = {}
            for b in self.cfg.blocks.values():
                for k, e in enumerate(b["e"]):
                    if isinstance(e, int):
                        m.setdefault(e, (b["id"], k))
                    elif isinstance(e, dict) and "e" in e:
                        m.setdefault(e["e"], (b["id"], k))
            for b in self.cfg.blocks.values():
                if "term" in b:
                    m.setdefault(b["term"], (b["id"], len(b["e"])))
            self._pos = m
        if i in self._pos:
            return self._pos[i]
        for x in self.walk(i):
            if x in self._pos:
                return self._pos[x]
        for x in self.ancestors(i):
            if x in self._pos:
                return self._pos[x]
        return None

    # ---------- variables ----------
    @property
    def vars(self):
        """id -> {n,t,init,static,decl} for locals."""
        if self._vars is None:
            v = {}
            for i, n in enumerate(self.N):
                if n["c"] == "DeclStmt":
                    for d in n.get("d", []):
                        dd = dict(d)
                        dd["decl"] = i
                        v[d["id"]] = dd
            self._vars = v
        return self._vars

    def fields_type(self, rec):
        return self.p.records.get(rec)


class Cfg:
    def __init__(self, fn):
        g = fn.d.get("cfg")
        if not g:
            g = {"entry": 1, "exit": 0, "b": [{"id": 1, "e": [], "s": [0]}, {"id": 0, "e": [], "s": []}]}
        self.fn = fn
        self.blocks = {b["id"]: b for b in g["b"]}
        self.entry, self.exit = g["entry"], g["exit"]
        self.succ = {b: [s for s in x["s"] if s >= 0] for b, x in self.blocks.items()}
        self.pred = {b: [] for b in self.blocks}
        for b, ss in self.succ.items():
            for s in ss:
                self.pred[s].append(b)
        self._dom = self._pdom = None

    def reach(self, start, avoid=(), rev=False):
        nx = self.pred if rev else self.succ
        st = list(start)
        seen = set()
        while st:
            b = st.pop()
            if b in seen or b in avoid:
                continue
            seen.add(b)
            st.extend(nx[b])
        return seen

    @staticmethod
    def _doms(root, succ, pred, nodes):
        order, seen = [], set()
        st = [(root, iter(succ[root]))]
        seen.add(root)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        dom = {b: None for b in order}
        dom[root] = {root}
        ch = True
        while ch:
            ch = False
            for b in order:
                if b == root:
                    continue
                ps = [dom[p] for p in pred[b] if p in dom and dom[p] is not None]
                new = set.intersection(*ps) | {b} if ps else {b}
                if new != dom[b]:
                    dom[b] = new
                    ch = True
        return dom

    @property
    def dom(self):
        if self._dom is None:
            self._dom = self._doms(self.entry, self.succ, self.pred, self.blocks)
        return self._dom

    @property
    def pdom(self):
        if self._pdom is None:
            self._pdom = self._doms(self.exit, self.pred, self.succ, self.blocks)
        return self._pdom

    def dominates(self, a, b):
        """position a=(blk,idx) strictly before b on every path from entry."""
        if a is None or b is None:
            return False
        if a[0] == b[0]:
            return a[1] < b[1]
        return b[0] in self.dom and a[0] in (self.dom[b[0]] or ())

    def postdominates(self, a, b):
        if a is None or b is None:
            return False
        if a[0] == b[0]:
            return a[1] > b[1]
        return b[0] in self.pdom and a[0] in (self.pdom[b[0]] or ())

    def branch_edges(self):
        """(block, cond node, [(succ, outcome)])"""
        for b in self.blocks.values():
            if "cond" in b and len(b["s"]) == 2:
                yield b["id"], b["cond"], [(b["s"][0], True), (b["s"][1], False)]

    def guards_of(self, blk):
        """All (cond, outcome) that must hold whenever control is in blk: an edge (b->s, outcome)
        such that removing it disconnects blk from the entry."""
        out = []
        for b, c, ss in self.branch_edges():
            if blk not in self.dom or b not in (self.dom.get(blk) or ()) or b == blk and False:
                continue
            for s, o in ss:
                if s < 0:
                    continue
                # is blk reachable from entry without taking edge (b,s)?
                st, seen = [self.entry], set()
                while st:
                    x = st.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    for k, y in enumerate(self.blocks[x]["s"]):
                        if y < 0:
                            continue
                        if x == b and ((k == 0) == o):
                            continue
                        st.append(y)
                if blk not in seen:
                    out.append((c, o))
        return out


class Prog:
    def __init__(self, facts):
        self.facts = facts
        self.fns = {k: Fn(self, d) for k, d in facts["functions"].items()}
        self.records = facts["records"]
        self.enums = facts["enums"]
        self.globals = facts["globals"]
        self.byname = {}
        for f in self.fns.values():
            self.byname.setdefault(f.sq, []).append(f)
        self.overriders = {}
        for f in self.fns.values():
            for o in f.d.get("ovr", []):
                self.overriders.setdefault(o, set()).add(f.key)
        self.callers_ = None

    def named(self, sq, rec=None):
        r = self.byname.get(sq, [])
        if rec:
            r = [f for f in r if f.rec == rec]
        return r

    def methods(self, rec):
        return [f for f in self.fns.values() if f.rec == rec]

    def targets(self, f, nonvirt=False):
        """Possible repo callees of a call with callee info f."""
        if not f:
            return []
        k = f["fk"]
        r = []
        if k in self.fns:
            r.append(self.fns[k])
        if f.get("virt") and not nonvirt:
            for o in self.overriders.get(k, ()):
                r.append(self.fns[o])
        return r

    def call_targets(self, fn, i):
        n = fn.N[i]
        r = self.targets(n.get("f"), n.get("nonvirt"))
        return r

    @property
    def callers(self):
        if self.callers_ is None:
            m = {}
            for f in self.fns.values():
                for i in f.calls():
                    for t in self.call_targets(f, i):
                        m.setdefault(t.key, []).append((f, i))
                for i, n in enumerate(f.N):
                    if n["c"] == "LambdaExpr":
                        for k in ([n["lk"]] if "lk" in n else n.get("specs", [])):
                            m.setdefault(k, []).append((f, i))
            self.callers_ = m
        return self.callers_

    def reachable(self, roots):
        seen, st = set(), list(roots)
        while st:
            f = st.pop()
            if f.key in seen:
                continue
            seen.add(f.key)
            for t in self.succ_fns(f):
                st.append(t)
        return seen

    def succ_fns(self, f):
        r = getattr(f, "_succ_fns", None)
        if r is None:
            r = {}
            for i in f.calls():
                for t in self.call_targets(f, i):
                    r[t.key] = t
            for n in f.N:
                if n["c"] == "LambdaExpr":
                    for k in ([n["lk"]] if "lk" in n else n.get("specs", [])):
                        if k in self.fns:
                            r[k] = self.fns[k]
                elif n["c"] == "DeclRefExpr" and n.get("dk") == "fn" and n.get("fk") in self.fns:
                    r[n["fk"]] = self.fns[n["fk"]]
            r = f._succ_fns = list(r.values())
        return r

    def derived(self, base_short):
        """Records deriving (transitively) from a class with the given short name."""
        out = set()
        ch = True
        names = {n for n in self.records if short(n) == base_short}
        out |= names
        while ch:
            ch = False
            for n, r in self.records.items():
                if n not in out and any(b in out for b in r["bases"]):
                    out.add(n)
                    ch = True
        return out

    def all_bases(self, rec):
        out, st = [], [rec]
        while st:
            r = st.pop()
            if r in out:
                continue
            out.append(r)
            st.extend(self.records.get(r, {}).get("bases", []))
        return out

    def all_fields(self, rec):
        return [(b, f) for b in self.all_bases(rec) for f in self.records.get(b, {}).get("fields", [])]


_prog = {}


def program(scalar="double"):
    if scalar not in _prog:
        import facts
        _prog[scalar] = Prog(facts.load(scalar))
    return _prog[scalar]
