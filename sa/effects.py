"""Ownership and effect analysis of datasets and points.

Abstract objects are named by where they come from: a parameter, *this, a member of one of those, or
an allocation in the function.  Tokens say what an expression denotes: a dataset (D), its point slots
(V the vector, I an iterator, E one slot), a point (P), an attribute of one of them (A), some other
object (O).  Summaries (what a function writes through which root, what it returns and what it stores
where) are computed bottom-up to a fixpoint and instantiated at every call."""
import re
import ir
from props.common import bare, lambda_keys

POINT = "mltk::Point<"
DATA = "mltk::Data<"
ATTR = {"x": "X", "y": "Y", "id": "Id", "alpha": "Alpha"}
REORDER = ("sort", "stable_sort", "nth_element", "partial_sort", "shuffle", "random_shuffle", "reverse", "rotate", "partition", "stable_partition", "iter_swap", "swap_ranges", "next_permutation")
FILL = ("iota", "fill", "fill_n", "generate", "generate_n", "replace", "replace_if", "remove", "remove_if", "unique")
OUT2 = ("copy", "copy_n", "copy_if", "copy_backward", "move_backward", "partial_sum", "adjacent_difference", "replace_copy", "exclusive_scan", "inclusive_scan")
MUT = ("push_back", "emplace_back", "insert", "emplace", "erase", "resize", "clear", "assign", "pop_back", "swap", "reserve_", "shrink_to_fit_", "push_front")
ACCESS = ("begin", "end", "cbegin", "cend", "rbegin", "rend", "data", "at", "front", "back", "operator[]", "get", "operator->", "operator*", "first", "second", "value", "top", "base")


def targs(t):
    i = t.find("<")
    if i < 0:
        return []
    out, d, cur = [], 0, ""
    for ch in t[i + 1:t.rfind(">")]:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + [cur.strip()]


class Types:
    def __init__(self, p):
        self.p = p
        self.deep_ = {}
        self.byshort = {}

    def deep(self, t):
        """does copying a value of this type leave nothing shared with the original?"""
        t = (t or "").strip()
        if t.endswith("&"):
            return False
        t = bare(t)
        if t in self.deep_:
            return self.deep_[t]
        self.deep_[t] = True
        r = True
        if t.endswith("*") or t.startswith(("std::shared_ptr<", "std::unique_ptr<", "std::weak_ptr<", "__gnu_cxx::__normal_iterator<", "std::function<", "std::reference_wrapper<")) or "_iterator" in t.split("<")[0]:
            r = False
        elif t.startswith((DATA, POINT)):
            r = True
        elif t.startswith("std::"):
            r = all(self.deep(a) for a in targs(t) if not a.startswith(("std::allocator", "std::less", "std::hash", "std::equal", "std::default_delete")))
        elif t in self.p.records:
            r = all(self.deep(f["t"]) for b, f in self.p.all_fields(t))
        self.deep_[t] = r
        return r

    def level(self, t):
        """level of the object a value of this type denotes or points to"""
        t = bare(t)
        while t.endswith("*"):
            t = bare(t[:-1])
        m = re.match(r"std::(shared_ptr|unique_ptr)<", t)
        if m:
            return self.level(targs(t)[0])
        if t.startswith(DATA):
            return "D"
        if t.startswith(POINT):
            return "P"
        if t.startswith("std::vector<std::shared_ptr<mltk::Point<"):
            return "P"
        if re.match(r"std::vector<(double|float|int|unsigned|size_t|bool|char|std::string|std::basic_string)", t) or not t or t in ("double", "float", "int", "bool", "char", "unsigned long", "unsigned int", "long", "void", "size_t") or t.startswith(("std::basic_string", "std::string", "std::basic_ostream", "std::basic_istream", "std::ostream")):
            return None
        return "O"


class Summary:
    def __init__(self):
        self.writes = {}     # (root, what) -> (fn, node)
        self.ret = set()     # tokens
        self.retc = set()    # point tokens held by fresh datasets returned
        self.stores = set()  # (root, token): object field := token, or content of dataset root ∋ token

    def size(self):
        return len(self.writes) + len(self.ret) + len(self.retc) + len(self.stores)


class Effects:
    def __init__(self, p):
        self.p = p
        self.T = Types(p)
        self.S = {}
        self.lam_owner = {}
        for f in p.fns.values():
            for n in f.N:
                if n["c"] == "LambdaExpr":
                    for k in ([n["lk"]] if "lk" in n else n.get("specs", [])):
                        self.lam_owner[k] = f.key
        rel = [f for f in p.fns.values() if f.body >= 0 and f.key not in self.lam_owner]
        self.rel = rel
        deps = {}
        for f in rel:
            for x in self.scope(f):
                for t in p.succ_fns(x):
                    deps.setdefault(t.key, set()).add(f.key)
        work = [f.key for f in rel]
        inq = set(work)
        n = 0
        while work and n < 40000:
            k = work.pop(0)
            inq.discard(k)
            f = p.fns[k]
            n += 1
            old = self.S.get(k)
            s = Run(self, f).run()
            self.S[k] = s
            if old is None or s.size() != old.size():
                for d in deps.get(k, ()):
                    if d not in inq:
                        inq.add(d)
                        work.append(d)
        self.iterations = n

    def scope(self, f):
        """the function and the lambdas written in it"""
        out, st = [], [f]
        while st:
            x = st.pop()
            out.append(x)
            for n in x.N:
                if n["c"] == "LambdaExpr":
                    for k in ([n["lk"]] if "lk" in n else n.get("specs", [])):
                        if k in self.p.fns and self.p.fns[k] not in out:
                            st.append(self.p.fns[k])
        return out


DEPTH = 2     # member steps kept in the name of an object


def ext(r, name):
    """the member of an object; long paths are cut (the last step is kept)"""
    base = 2 if r[0] in ("p",) else 1 if r[0] == "t" else 3
    if len(r) - base >= DEPTH:
        return r[:-1] + (name,)
    return r + (name,)


class Run:
    def __init__(self, E, f):
        self.E, self.p, self.T, self.f = E, E.p, E.T, f
        self.env = {}        # var id -> tokens
        self.content = {}    # dataset root -> point tokens
        self.fields = {}     # object field root -> tokens
        self.s = Summary()
        self.scope = E.scope(f)
        rec = f.rec or ""
        self.this = None
        if f.rec and not f.d.get("static"):
            self.this = self.root_tok(("t",), rec)
        for k, pr in enumerate(f.params):
            t = self.root_tok(("p", k), pr["t"])
            if t and (pr["t"].rstrip().endswith("&") or not self.T.deep(pr["t"])):
                self.env[pr["id"]] = {t}
            elif t:
                self.env[pr["id"]] = {(t[0], ("n", f.key, "par%d" % k))}
            elif pr["t"].rstrip().endswith(("&", "*")) and not pr["t"].startswith("const"):
                self.env[pr["id"]] = {("A:val", ("p", k))}

    def root_tok(self, root, t):
        l = self.T.level(t)
        if l is None:
            return None
        return (l, root)

    # ---------- evaluation ----------
    def run(self):
        for _ in range(6):
            n0 = self.measure()
            self.memo = {}
            for x in self.scope:
                for i in x.walk_all():
                    self.visit(x, i)
            if self.f.d.get("kind") == "ctor":
                for ini in self.f.d.get("inits", []):
                    fld = ini.get("f") or ini.get("n")
                    if fld and ini.get("e", -1) >= 0 and self.this:
                        self.assign_field(self.this[1], fld, self.val(self.f, ini["e"]), self.f, ini["e"])
            if self.measure() == n0:
                break
        for x in self.scope[:1]:
            for i in x.walk():
                if x.N[i]["c"] == "ReturnStmt":
                    for e in x.kids(i):
                        self.ret(x, e)
        keep = lambda r: r[0] in ("p", "t")
        self.s.writes = {k: v for k, v in self.s.writes.items() if keep(k[0])}
        for r, ts in self.content.items():
            if keep(r):
                for t in ts:
                    if keep(t[1]) and t[1] != r:
                        self.s.stores.add((r, t))
        for r, ts in self.fields.items():
            if keep(r):
                for t in ts:
                    if keep(t[1]) and t[1] != r:
                        self.s.stores.add((r, t))
        return self.s

    def measure(self):
        return sum(map(len, self.env.values())) + sum(map(len, self.content.values())) + sum(map(len, self.fields.values())) + len(self.s.writes)

    def ret(self, x, e):
        n = x.N[x.strip(e)]
        if n["c"] == "CXXConstructExpr" and len(n.get("a", [])) == 1 and x.N[x.strip(n["a"][0])]["c"] == "DeclRefExpr":
            e = n["a"][0]        # a returned local is moved or elided, what it holds comes out
        ts = self.val(x, e)
        t = self.f.d.get("ret") or ""
        if not t.rstrip().endswith("&") and self.T.deep(t):
            # by value: what the fresh object holds
            for k in ts:
                if k[0] in ("D", "O"):
                    self.s.retc |= {c for c in self.holds(k[1]) if c[1][0] in ("p", "t")}
            l = self.T.level(t)
            if l:
                self.s.ret.add((l, ("n", "ret")))
            return
        for k in ts:
            if k[0] in ("E", "I") and not t.rstrip().endswith("&") and k[0] == "E":
                self.s.ret |= {("P", r) if r[0] != "n" else ("P", ("n", "ret")) for r in self.points(k[1])}
            elif k[0] == "V" and not t.rstrip().endswith("&"):
                self.s.ret |= {("P", r) if r[0] != "n" else ("P", ("n", "ret")) for r in self.points(k[1])}
            elif k[1][0] == "n":
                self.s.ret.add((k[0], ("n", "ret")))
                self.s.retc |= {c for c in self.holds(k[1]) if c[1][0] in ("p", "t")}
            else:
                self.s.ret.add(k)

    def holds(self, root):
        out = set(self.content.get(root, ()))
        for r, ts in list(self.content.items()) + list(self.fields.items()):
            if r[:len(root)] == root:
                out |= {t for t in ts if t[0] == "P"}
        return out

    def points(self, root):
        """roots of the points a dataset root holds"""
        out = {root}
        for t in self.content.get(root, ()):
            out.add(t[1])
        return out

    def deref(self, ts):
        """what the object denoted by a smart pointer, iterator or slot denotes"""
        out = set()
        for l, r in ts:
            if l == "I":
                out.add(("E", r))
            elif l == "E":
                out |= {("P", q) for q in self.points(r)}
            else:
                out.add((l, r))
        return out

    def elems(self, ts):
        out = set()
        for l, r in ts:
            if l in ("D", "V", "I"):
                out.add(("E", r))
            else:
                out.add((l, r))
        return out

    def rvalue(self, ts, t):
        """copying a value of type t"""
        if self.T.deep(t):
            return set()
        out = set()
        for l, r in ts:
            if l in ("E", "V"):
                out |= {("P", q) for q in self.points(r)}
            elif l.startswith("A:"):
                continue
            else:
                out.add((l, r))
        return out

    def val(self, x, i):
        key = (x.key, i)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = set()
        r = self.val_(x, i)
        self.memo[key] = r
        return r

    def val_(self, x, i):
        if i is None or i < 0:
            return set()
        n = x.N[i]
        c = n["c"]
        if c in ir.TRANSPARENT or c in ir.EXPLICIT_CASTS:
            ks = x.kids(i)
            r = set().union(*[self.val(x, k) for k in ks]) if ks else set()
            if c == "ImplicitCastExpr" and n.get("ck") == "LValueToRValue":
                return {k for k in r if not k[0].startswith("A:")} if not n.get("t", "").endswith("*") else r
            return r
        if c == "CXXThisExpr":
            return {self.this} if self.this else set()
        if c == "DeclRefExpr":
            return set(self.env.get(n.get("id"), ()))
        if c == "MemberExpr":
            if n.get("dk") != "field" or not n["k"]:
                return self.val(x, n["k"][0]) if n["k"] else set()
            out = set()
            for l, r in self.val(x, n["k"][0]):
                out |= self.field(l, r, n["n"], n.get("t", ""))
            return out
        if c == "UnaryOperator":
            if n.get("op") == "*":
                return self.deref(self.val(x, n["k"][0]))
            if n.get("op") in ("&", "++", "--"):
                return self.val(x, n["k"][0])
            return set()
        if c == "ArraySubscriptExpr":
            return self.elems(self.val(x, n["k"][0]))
        if c in ("ConditionalOperator", "BinaryConditionalOperator"):
            return set().union(*[self.val(x, k) for k in x.kids(i)])
        if c == "BinaryOperator":
            if n.get("op") == ",":
                return self.val(x, n["k"][1])
            if n.get("op") == "=":
                return self.val(x, n["k"][0])
            if n.get("op") in ("+", "-") and (n.get("t", "").endswith("*")):
                return self.val(x, n["k"][0]) | self.val(x, n["k"][1])
            return set()
        if c == "CompoundAssignOperator":
            return self.val(x, n["k"][0])
        if c == "CXXNewExpr":
            return {(self.T.level(n.get("t", "")) or "O", ("n", x.key, i))}
        if c in ("InitListExpr", "CXXStdInitializerListExpr"):
            return set().union(set(), *[self.val(x, k) for k in x.kids(i)])
        if "f" in n and "a" in n:
            return self.call(x, i)
        if c == "LambdaExpr":
            return set()
        return set()

    def field(self, l, r, name, t):
        if l == "D":
            if name == "m_points":
                return {("V", r)}
            return {("A:" + name, r)}
        if l == "P":
            return {("A:" + ATTR.get(name, name), r)}
        if l == "O":
            q = ext(r, name)
            k = self.root_tok(q, t)
            out = set(self.fields.get(q, ()))
            if k:
                out.add((k[0], q))
            return out
        return {(l, r)}

    # ---------- writes ----------
    def write(self, x, i, ts, what=None):
        for l, r in ts:
            if l.startswith("A:"):
                self.put(r, l[2:], x, i)
            elif l == "P":
                self.put(r, what or "X", x, i)
            elif l in ("V", "I", "E"):
                self.put(r, what or "struct", x, i)
            elif l == "D":
                self.put(r, what or "struct", x, i)

    def put(self, r, what, x, i):
        self.s.writes.setdefault((r, what), (x.key, i))

    def lvar(self, x, i):
        """the local variable an lvalue expression is (part of)"""
        i = x.strip(i)
        n = x.N[i]
        while True:
            if n["c"] == "DeclRefExpr":
                return n.get("id")
            if n["c"] == "MemberExpr" and n.get("dk") == "field" and n["k"] and not n.get("arrow"):
                i = x.strip(n["k"][0])
            elif n["c"] == "CXXOperatorCallExpr" and n.get("op") in ("[]",) and n["a"]:
                i = x.strip(n["a"][0])
            elif n["c"] == "CXXMemberCallExpr" and "o" in n and ir.short(n["f"]["fq"]).split("::")[-1] in ("at", "front", "back", "begin", "end"):
                i = x.strip(n["o"])
            elif n["c"] == "ArraySubscriptExpr":
                i = x.strip(n["k"][0])
            else:
                return None
            n = x.N[i]

    def assign(self, x, lhs, rhs_ts, rt, i):
        """pointer-like or container assignment lhs = rhs (values of type rt)"""
        lhs = x.strip(lhs)
        n = x.N[lhs]
        v = self.rvalue(rhs_ts, rt)
        if n["c"] == "MemberExpr" and n.get("dk") == "field" and n["k"]:
            for l, r in self.val(x, n["k"][0]):
                if l in ("O",):
                    self.assign_field(r, n["n"], v, x, i)
                elif l == "D":
                    self.put(r, "struct" if n["n"] == "m_points" else n["n"], x, i)
                    if n["n"] == "m_points":
                        self.content.setdefault(r, set()).update(k for k in v if k[0] == "P")
                elif l == "P":
                    self.put(r, ATTR.get(n["n"], n["n"]), x, i)
            return
        ts = self.val(x, lhs)
        hit = False
        for l, r in ts:
            if l in ("E", "V"):
                hit = True
                self.put(r, "struct", x, i)
                self.content.setdefault(r, set()).update(k for k in v if k[0] == "P")
            elif l.startswith("A:"):
                hit = True
                self.put(r, l[2:], x, i)
        vid = self.lvar(x, lhs)
        if vid is not None and not hit:
            self.env.setdefault(vid, set()).update(v)

    def assign_field(self, r, name, v, x, i):
        q = ext(r, name)
        self.fields.setdefault(q, set()).update(t for t in v if t[1] != q)

    # ---------- visiting statements and expressions for their effects ----------
    def visit(self, x, i):
        n = x.N[i]
        c = n["c"]
        if c == "DeclStmt":
            for d in n.get("d", []):
                self.decl(x, d)
        elif c == "CXXForRangeStmt":
            self.rangefor(x, i, n)
        elif c in ("BinaryOperator", "CompoundAssignOperator") and n.get("op", "").endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
            t = x.N[x.strip(n["k"][0])].get("t", "")
            if t.endswith("*") and n["op"] == "=":
                self.assign(x, n["k"][0], self.val(x, n["k"][1]), t, i)
            else:
                self.write(x, i, {k for k in self.val(x, n["k"][0]) if k[0].startswith("A:") or k[0] in ("P", "E", "V")})
        elif c == "UnaryOperator" and n.get("op") in ("++", "--"):
            t = x.N[x.strip(n["k"][0])].get("t", "")
            if not t.endswith("*"):
                self.write(x, i, {k for k in self.val(x, n["k"][0]) if k[0].startswith("A:")})
        elif "f" in n and "a" in n:
            self.val(x, i)

    def decl(self, x, d):
        t = d["t"]
        if "init" not in d:
            l = self.T.level(t)
            if l in ("D", "P", "O") and self.T.deep(t) and not t.endswith("*"):
                self.env.setdefault(d["id"], set()).add((l, ("n", x.key, d["id"])))
            elif l == "O":
                self.env.setdefault(d["id"], set()).add((l, ("n", x.key, d["id"])))
            return
        ts = self.val(x, d["init"])
        if t.rstrip().endswith("&"):
            self.env.setdefault(d["id"], set()).update(ts)
            return
        l = self.T.level(t)
        if l in ("D", "P", "O") and not bare(t).startswith(("std::shared_ptr<", "std::unique_ptr<", "std::vector<std::shared_ptr<mltk::Point")) and not t.endswith("*"):
            r = ("n", x.key, d["id"])
            self.env.setdefault(d["id"], set()).add((l, r))
            if l in ("D", "O"):
                hold = set()
                for k in ts:
                    if k[0] in ("D", "O") and k[1][0] == "n":
                        hold |= self.holds(k[1])
                if hold:
                    self.content.setdefault(r, set()).update(hold)
            if l == "O" and not self.T.deep(t):
                # a copy of an object shares what its pointers point to
                for k in ts:
                    if k[0] == "O":
                        self.env[d["id"]].add(k)
                    elif not k[0].startswith("A:"):
                        self.env[d["id"]].add(k)
            return
        self.env.setdefault(d["id"], set()).update(self.rvalue(ts, t))

    def rangefor(self, x, i, n):
        vid = n.get("lvid")
        rng = n.get("range")
        if rng is None:
            # the initialiser of the compiler's __range variable
            rng = next((d.get("init") for k in x.kids(i) if x.N[k]["c"] == "DeclStmt" for d in x.N[k].get("d", []) if d["n"].startswith("__range")), None)
        if vid is None or rng is None:
            return
        v = x.vars.get(vid)
        ts = self.elems(self.val(x, rng))
        if v is None:
            self.env.setdefault(vid, set()).update(ts)
            return
        t = v["t"]
        if t.rstrip().endswith("&"):
            self.env.setdefault(vid, set()).update(ts)
        else:
            self.env.setdefault(vid, set()).update(self.rvalue(ts, t))

    # ---------- calls ----------
    def call(self, x, i):
        n = x.N[i]
        f = n["f"]
        o, a = x.args(i)
        q = ir.short(f["fq"])
        nm = q.split("::")[-1]
        ts_o = self.val(x, o) if o is not None else None
        tg = self.p.call_targets(x, i)
        tg = [g for g in tg if g.body >= 0 and g.key not in self.E.lam_owner]
        args = [self.val(x, k) for k in a]
        if n["c"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            if n.get("elide") and len(a) == 1:
                return args[0]
            return self.construct(x, i, n, tg, a, args)
        lam = [g for g in self.p.call_targets(x, i) if g.key in self.E.lam_owner]
        if n["c"] == "CXXOperatorCallExpr" and n.get("op") == "()" and lam:
            for g in lam:
                self.bind_lambda(g, args)
            return set().union(set(), *[self.lam_ret(g) for g in lam])
        if n["c"] == "CallExpr" and not tg and lam:
            for g in lam:
                self.bind_lambda(g, args)
            return set()
        if tg:
            return self.repo_call(x, i, tg, ts_o, a, args, n)
        return self.std_call(x, i, n, nm, q, o, ts_o, a, args)

    def lam_ret(self, g):
        out = set()
        for i in g.walk():
            if g.N[i]["c"] == "ReturnStmt":
                for e in g.kids(i):
                    out |= self.val(g, e)
        return out if not self.T.deep(g.d.get("ret") or "") else set()

    def bind_lambda(self, g, args):
        for k, pr in enumerate(g.params):
            if k < len(args):
                ts = args[k]
                if pr["t"].rstrip().endswith("&"):
                    self.env.setdefault(pr["id"], set()).update(ts)
                else:
                    self.env.setdefault(pr["id"], set()).update(self.rvalue(ts, pr["t"]))

    def construct(self, x, i, n, tg, a, args):
        t = n.get("t", "")
        l = self.T.level(t)
        if bare(t).startswith(("std::shared_ptr<", "std::unique_ptr<", "std::vector<std::shared_ptr<mltk::Point", "__gnu_cxx::__normal_iterator<", "std::reference_wrapper<")) or (l is None):
            out = set()
            if not self.T.deep(t):
                for k in args:
                    out |= self.rvalue(k, t)
            return out
        r = ("n", x.key, i)
        out = {(l, r)}
        if tg:
            self.apply(x, i, tg, {(l, r)}, a, args)
        elif l == "O":
            # implicit copy or aggregate
            if not self.T.deep(t):
                for k in args:
                    out |= {z for z in k if z[0] == "O"}
            hold = set()
            for k in args:
                for z in k:
                    if z[0] in ("D", "O") and z[1][0] == "n":
                        hold |= self.holds(z[1])
                    elif z[0] == "P" and not self.T.deep(t):
                        hold.add(z)
            if hold:
                self.content.setdefault(r, set()).update(hold)
        elif l == "D":
            hold = set()
            for k in args:
                for z in k:
                    if z[0] in ("D", "O") and z[1][0] == "n":
                        hold |= self.holds(z[1])
            if hold:
                self.content.setdefault(r, set()).update(hold)
        return out

    def repo_call(self, x, i, tg, ts_o, a, args, n):
        out = self.apply(x, i, tg, ts_o, a, args)
        return out

    def subst(self, root, ts_o, args):
        """call-site roots of a callee root"""
        if root[0] == "t":
            src, rest = ts_o or set(), root[1:]
        elif root[0] == "p":
            src, rest = (args[root[1]] if root[1] < len(args) else set()), root[2:]
        else:
            return set()
        out = set()
        for l, r in src:
            rs = {r}
            if l in ("E", "I", "V"):
                rs = self.points(r) if l == "E" else {r}
            for q in rs:
                if rest:
                    k = q
                    cur = {q}
                    for s in rest:
                        nx = set()
                        for c in cur:
                            z = ext(c, s)
                            nx.add(z)
                            nx |= {t[1] for t in self.fields.get(z, ())}
                        cur = nx
                    out |= cur
                else:
                    out.add(q)
        return out

    def apply(self, x, i, tg, ts_o, a, args):
        out = set()
        for g in tg:
            s = self.E.S.get(g.key)
            # arguments bound to lambdas: run them on everything reachable from the other arguments
            if s is None:
                continue
            for (root, what) in list(s.writes):
                for r in self.subst(root, ts_o, args):
                    lv = self.level_of(root, ts_o, args)
                    if what in ("X", "Y", "Id", "Alpha"):
                        for q in self.points(r) | {r}:
                            self.put(q, what, x, i)
                    elif what == "val":
                        for l, rr in (args[root[1]] if root[0] == "p" and root[1] < len(args) else ()):
                            if l.startswith("A:"):
                                self.put(rr, l[2:], x, i)
                    else:
                        self.put(r, what, x, i)
            if g.sq == "mltk::Data::setPoint" and len(args) == 2 and ts_o and args[1] and {r for l, r in args[1] if l in ("P", "E")} == {r for l, r in ts_o if l == "D"} == {r for l, r in ts_o}:
                # a point of the dataset put into a slot of the dataset
                for l, r in ts_o:
                    self.s.writes.pop((r, "struct"), None) if self.s.writes.get((r, "struct")) == (x.key, i) else None
                    self.put(r, "slot", x, i)
                continue
            for root, tok in s.stores:
                src = {(tok[0], q) for q in self.subst(tok[1], ts_o, args)}
                if tok[0] == "P":
                    src = {("P", z) for k in src for z in self.points(k[1])}
                for r in self.subst(root, ts_o, args):
                    if tok[0] == "P":
                        self.content.setdefault(r, set()).update(k for k in src if k[1] != r)
                    else:
                        self.fields.setdefault(r, set()).update(k for k in src if k[1] != r)
            for tok in s.ret:
                if tok[1][0] == "n":
                    r = ("n", x.key, i)
                    out.add((tok[0], r))
                    c = set()
                    for z in s.retc:
                        for q in self.subst(z[1], ts_o, args):
                            c |= {("P", w) for w in self.points(q)} if z[0] == "P" else {(z[0], q)}
                    if c:
                        self.content.setdefault(r, set()).update(c)
                else:
                    for q in self.subst(tok[1], ts_o, args):
                        if tok[0] == "P":
                            out |= {("P", w) for w in self.points(q)}
                        elif tok[0] == "A:val":
                            k = tok[1][1]
                            out |= {z for z in args[k]} if tok[1][0] == "p" and k < len(args) else set()
                        else:
                            out.add((tok[0], q))
        return out

    def level_of(self, root, ts_o, args):
        return None

    def std_call(self, x, i, n, nm, q, o, ts_o, a, args):
        t = n.get("t", "")
        # lambdas given to algorithms see the elements of the ranges
        lams = []
        for k in a:
            lams += [self.p.fns[z] for z in lambda_keys(x, k) if z in self.p.fns]
        if lams:
            el = set()
            for k, ts in zip(a, args):
                el |= {z for z in self.elems_deref(ts)}
            for g in lams:
                self.bind_lambda(g, [el] * len(g.params))
        if o is not None:
            if n["c"] == "CXXOperatorCallExpr":
                op = n.get("op")
                if op in ("*", "->"):
                    return self.deref(ts_o)
                if op == "[]":
                    return self.elems(ts_o)
                if op in ("+", "-", "++", "--", "+=", "-="):
                    if op in ("+=", "-=") and any(z[0].startswith("A:") for z in ts_o) and "iterator" not in x.N[x.strip(o)].get("t", ""):
                        self.write(x, i, ts_o)
                    return set(ts_o)
                if op == "=":
                    lt = x.N[x.strip(o)].get("t", "")
                    if self.T.deep(lt):
                        self.write(x, i, {z for z in ts_o if z[0].startswith("A:") or z[0] in ("V",)})
                        # moving a fresh object in: it keeps what it holds
                        for l, r in ts_o:
                            if l in ("D", "O"):
                                for z in args[0] if args else ():
                                    if z[0] in ("D", "O") and z[1][0] == "n":
                                        h = self.holds(z[1])
                                        if h:
                                            self.content.setdefault(r, set()).update(h)
                        return set(ts_o)
                    self.assign(x, o, args[0] if args else set(), lt, i)
                    return set(ts_o)
                return set()
            if nm in MUT:
                self.write(x, i, {z for z in ts_o if z[0] in ("V",) or z[0].startswith("A:")}, "struct")
                new = set().union(set(), *args) if args else set()
                pts = set()
                for l, r in new:
                    if l in ("E", "V", "I"):
                        pts |= {("P", w) for w in self.points(r)}
                    elif l == "P":
                        pts.add((l, r))
                ptrs = any("shared_ptr" in x.N[x.strip(k)].get("t", "") or "iterator" in x.N[x.strip(k)].get("t", "") or x.N[x.strip(k)].get("t", "").endswith("*") or "shared_ptr" in x.N[k].get("t", "") for k in a)
                if ptrs:
                    for l, r in ts_o:
                        if l == "V":
                            self.content.setdefault(r, set()).update(pts)
                        elif l == "O":
                            self.content.setdefault(r, set()).update(pts)
                    vid = self.lvar(x, o)
                    if vid is not None:
                        self.env.setdefault(vid, set()).update(z for z in self.rvalue(new, "std::shared_ptr<int>") if z[0] in ("P", "D", "O"))
                else:
                    vid = self.lvar(x, o)
                    for l, r in ts_o:
                        if l in ("D", "O"):
                            for z in new:
                                if z[0] in ("D", "O") and z[1][0] == "n":
                                    h = self.holds(z[1])
                                    if h:
                                        self.content.setdefault(r, set()).update(h)
                return set(ts_o)
            if nm in ("begin", "end", "rbegin", "rend", "cbegin", "cend"):
                return {("I", r) if l == "V" else (l, r) for l, r in ts_o}
            if nm in ("at", "front", "back"):
                return self.elems(ts_o)
            if nm == "reset":
                if args:
                    self.assign(x, o, set().union(*args), "std::shared_ptr<int>", i)
                return set()
            if nm in ("get",):
                return self.deref({("E", r) if l == "E" else (l, r) for l, r in ts_o})
            if nm == "lock":
                return self.deref(ts_o)
            if t.rstrip().endswith(("&", "*")):
                return set(ts_o)
            return set()
        if q.startswith("std::"):
            if nm in ("make_shared", "make_unique"):
                m = targs(bare(t))
                l = self.T.level(t) or "O"
                r = ("n", x.key, i)
                hold = set()
                for k, z in zip(a, args):
                    kt = x.N[x.strip(k)].get("t", "")
                    for l2, r2 in z:
                        if l == "D" and l2 in ("D", "O") and r2[0] == "n":
                            hold |= self.holds(r2)
                        if l == "O" and ("shared_ptr" in kt) and l2 == "D":
                            self.fields.setdefault(r + ("samples",), set()).add((l2, r2))
                        if l == "D" and ("vector<std::shared_ptr" in kt):
                            hold |= {("P", w) for w in self.points(r2)}
                if hold:
                    self.content.setdefault(r, set()).update(hold)
                return {(l, r)}
            if nm in REORDER:
                for z in args[:3]:
                    self.write(x, i, {k for k in z if k[0] in ("I", "V") or k[0].startswith("A:")}, "order")
                return set()
            if nm in FILL:
                if args:
                    self.write(x, i, {k for k in args[0] if k[0] in ("I", "V", "E") or k[0].startswith("A:")})
                return args[0] if args else set()
            k = None
            if nm in OUT2:
                k = 2
            elif nm == "transform":
                k = len(a) - 2
            elif nm == "move" and len(a) == 3:
                k = 2
            if k is not None and 0 <= k < len(args):
                dst = args[k]
                self.write(x, i, {z for z in dst if z[0] in ("I", "V", "E") or z[0].startswith("A:")})
                src = set()
                for z in args[:2]:
                    src |= self.rvalue(self.elems(z), "std::shared_ptr<int>")
                if nm != "transform" and any("shared_ptr" in x.N[x.strip(z)].get("t", "") for z in a):
                    for l, r in dst:
                        if l in ("I", "V"):
                            self.content.setdefault(r, set()).update(z for z in src if z[0] == "P")
                    vid = self.lvar(x, a[k])
                    if vid is not None:
                        self.env.setdefault(vid, set()).update(src)
                return dst
            if nm == "swap" and len(a) == 2:
                for z in args:
                    self.write(x, i, {k for k in z if k[0] in ("E", "V") or k[0].startswith("A:")}, None)
                    self.write(x, i, {k for k in z if k[0] == "P"}, "X")
                return set()
            if nm in ("move", "forward", "ref", "cref", "addressof", "get", "next", "prev", "find", "find_if", "min_element", "max_element", "lower_bound", "upper_bound", "back_inserter", "inserter", "begin", "end", "static_pointer_cast", "dynamic_pointer_cast", "const_pointer_cast", "exchange", "as_const", "make_pair", "make_tuple", "tie", "distance_"):
                out = set().union(set(), *args) if args else set()
                if nm in ("begin", "end"):
                    out = {("I", r) if l in ("V", "D") else (l, r) for l, r in out}
                return out
            if nm == "for_each":
                return set()
        # arguments bound to non-const references of unknown functions are left alone
        if t.rstrip().endswith(("&", "*")):
            return set().union(set(), *args) if args else set()
        return set()

    def elems_deref(self, ts):
        out = set()
        for l, r in ts:
            if l in ("I", "V", "D"):
                out.add(("E", r))
            else:
                out.add((l, r))
        return out


_cache = {}


def program(p):
    if id(p) not in _cache:
        _cache[id(p)] = Effects(p)
    return _cache[id(p)]
