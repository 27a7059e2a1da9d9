"""Determinism: every random choice is drawn from an engine that the operation put into a state
determined by its seed.  Seed expressions are evaluated on the syntax for several seeds; engine
states are followed by a typestate automaton."""
import re
import ir, flow
from props.common import *

SEEDS = (1, 2, 7, 42)
ENGINE = re.compile(r"^std::(mersenne_twister_engine|linear_congruential_engine|subtract_with_carry_engine|discard_block_engine|independent_bits_engine|shuffle_order_engine|mt19937(_64)?|minstd_rand0?|ranlux\w+|knuth_b|default_random_engine)\b")
STATEFUL_DIST = re.compile(r"^std::(normal|lognormal|chi_squared|cauchy|fisher_f|student_t|gamma|negative_binomial|binomial|poisson)_distribution<")
ENTROPY = {"time", "clock", "getpid", "gettimeofday", "clock_gettime", "random", "drand48", "arc4random", "getrandom", "get_id", "__rdtsc", "now", "native_handle"}
TASKS = {"parallelize_loop", "push_loop", "submit", "push_task", "async"}
ENT, HIST = "entropy", "earlier calls"


def is_engine(t):
    return bool(ENGINE.match(bare(t)))


def is_seed_name(n):
    return "seed" in n.lower()


def entropy_call(fn, n):
    """does this call read the clock, the hardware or the process identity?"""
    if "f" not in n or "a" not in n:
        return False
    fq = ir.short(n["f"]["fq"])
    if fq == "std::random_device::operator()":
        return True
    s = fq.split("::")[-1]
    if s in ENTROPY and (fq.startswith("std::") or "::" not in fq):
        return True
    return False


class Seeds:
    def __init__(self, p):
        self.p = p
        self.rec_seed = {}
        self.memo = {}

    def seed_fields(self, rec):
        if rec not in self.rec_seed:
            self.rec_seed[rec] = [(b, f["n"]) for b, f in self.p.all_fields(rec) if is_seed_name(f["n"]) and re.search(r"\b(int|long|short|unsigned|size_t)\b", f["t"]) and "vector" not in f["t"]]
        return self.rec_seed[rec]

    def owner(self, fn):
        """the function whose parameters and class a lambda sees"""
        k = 0
        while fn.d.get("kind") == "lambda" or "(lambda" in fn.q or "(anonymous class)" in fn.q:
            up = [f for f, i in self.p.callers.get(fn.key, []) if fn.key in [x for m in [f.N[i]] if m["c"] == "LambdaExpr" for x in ([m["lk"]] if "lk" in m else m.get("specs", []))]]
            if not up or k > 6:
                break
            fn = up[0]
            k += 1
        return fn

    def scope(self, fn):
        """(seed parameters, seed member?) visible in fn"""
        o = self.owner(fn)
        ps = [a["n"] for a in o.d.get("params", []) if is_seed_name(a["n"]) and not bare(a["t"]).startswith("std::")]
        return ps, bool(o.rec and self.seed_fields(o.rec))

    def has_seed(self, fn):
        ps, m = self.scope(fn)
        return bool(ps) or m

    # ---- constant propagation when every seed in scope is v.  A value is a number, ENT, HIST,
    # "?0" (unknown, computed from inputs only), "?1" (unknown, computed from the seed) or
    # "?2" (nothing known)
    def initial(self, g, v, bind):
        env = {}
        o = self.owner(g)
        for a in list(g.d.get("params", [])):
            if a["id"] in bind:
                env[a["id"]] = bind[a["id"]]
            elif is_seed_name(a["n"]) and not bare(a["t"]).startswith("std::"):
                env[a["id"]] = frozenset({v})
        return env

    def up(self, g):
        """(function, LambdaExpr node) a lambda is written in"""
        for f, i in self.p.callers.get(g.key, []):
            m = f.N[i]
            if m["c"] == "LambdaExpr" and g.key in ([m["lk"]] if "lk" in m else m.get("specs", [])):
                return f, i
        return None

    def solve(self, g, v, bind):
        """environment at the start of every live block"""
        k = (g.key, v, tuple(sorted((a, tuple(sorted(b, key=str))) for a, b in bind.items())))
        if k in self.memo:
            return self.memo[k]
        res = self.memo[k] = {}
        res[g.cfg.entry] = self.initial(g, v, bind)
        work, rounds = [g.cfg.entry], 0
        while work and rounds < 60 * (len(g.cfg.blocks) + 1):
            rounds += 1
            b = work.pop(0)
            env = dict(res[b])
            blk = g.cfg.blocks[b]
            for e in blk["e"]:
                if isinstance(e, int):
                    self.effect(g, e, env, v, bind)
            ss = list(enumerate(blk["s"]))
            if "cond" in blk and len(ss) == 2:
                t = self.bools(self.ev(g, blk["cond"], env, v, bind, 0))
                ss = [x for x in ss if t is None or (x[0] == 0) == t]
            for _, x in ss:
                if x < 0:
                    continue
                old = res.get(x)
                new = env if old is None else self.join(old, env, g)
                if new != old:
                    res[x] = dict(new)
                    if x not in work:
                        work.append(x)
        return res

    @staticmethod
    def cap(x):
        if len(x) > 8:
            keep = {y for y in x if isinstance(y, str)}
            nums = sorted(y for y in x if not isinstance(y, str))
            return frozenset(keep | set(nums[:8]))
        return frozenset(x)

    def join(self, a, b, g):
        out = dict(a)
        for k, x in b.items():
            out[k] = self.cap(out[k] | x) if k in out else x
        for k in a:
            if k not in b:
                out[k] = a[k]
        return out

    def effect(self, g, i, env, v, bind):
        n = g.N[i]
        c = n["c"]
        if c == "DeclStmt":
            for d in n.get("d", []):
                if d.get("static"):
                    env[d["id"]] = frozenset({HIST})
                elif "init" in d:
                    env[d["id"]] = self.ev(g, d["init"], env, v, bind, 0)
                else:
                    env[d["id"]] = frozenset({"?0"})
        elif c in ("BinaryOperator", "CompoundAssignOperator") and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
            k = self.cell(g, n["k"][0])
            if k is not None:
                x = self.ev(g, n["k"][1], env, v, bind, 0)
                if n["op"] != "=":
                    x = self.binary(n["op"][:-1], self.ev(g, n["k"][0], env, v, bind, 0), x)
                env[k] = self.cap(x)
        elif c == "UnaryOperator" and n.get("op") in ("++", "--"):
            k = self.cell(g, n["k"][0])
            if k is not None:
                env[k] = self.cap(self.binary("+", self.ev(g, n["k"][0], env, v, bind, 0), {1 if n["op"] == "++" else -1}))

    def cell(self, g, i):
        i = g.strip(i)
        n = g.N[i]
        if n["c"] == "DeclRefExpr":
            if n.get("dk") == "global":
                return ("g", n.get("fq"))
            if n["id"] in g.vars and g.vars[n["id"]].get("static"):
                return None
            return n.get("id")
        if n["c"] == "MemberExpr" and n.get("dk") == "field":
            nm = field_of(g, i)
            return ("f", nm) if nm else None
        return None

    def env_at(self, g, i, v, bind):
        """environment just before node i is evaluated, None when i is dead"""
        res = self.solve(g, v, bind)
        pb = g.pos(i)
        if pb is None:
            return self.initial(g, v, bind)
        if pb[0] not in res:
            return None
        env = dict(res[pb[0]])
        for e in g.cfg.blocks[pb[0]]["e"][:pb[1]]:
            if isinstance(e, int):
                self.effect(g, e, env, v, bind)
        return env

    def values(self, g, i, v, bind=None):
        bind = bind or {}
        env = self.env_at(g, i, v, bind)
        if env is None:
            return frozenset()
        return self.ev(g, i, env, v, bind, 0)

    @staticmethod
    def bools(xs):
        if not xs or any(isinstance(x, str) for x in xs):
            return None
        t = {bool(x) for x in xs}
        return t.pop() if len(t) == 1 else None

    @staticmethod
    def casts(fn, i):
        """the nodes strip(i, casts) passes through"""
        end = fn.strip(i, casts=True)
        while i != end and fn.N[i].get("k"):
            yield i
            i = fn.N[i]["k"][0]

    def ev(self, fn, i, env, v, bind, depth):
        if depth > 25:
            return frozenset({"?2"})
        if any(fn.N[x]["c"] in ("CXXReinterpretCastExpr", "CStyleCastExpr") and not fn.N[x].get("t", "").strip().endswith("*") and fn.N[x]["k"] and fn.N[fn.strip(fn.N[x]["k"][0])].get("t", "").strip().endswith("*") for x in self.casts(fn, i)):
            return frozenset({HIST})     # an address
        i = fn.strip(i, casts=True)
        n = fn.N[i]
        c = n["c"]
        V = lambda x: self.ev(fn, x, env, v, bind, depth + 1)
        one = lambda x: frozenset({x})
        if c in ("IntegerLiteral", "CXXBoolLiteralExpr"):
            return one(int(n["v"]))
        if c == "FloatingLiteral":
            return one(float(n["v"]))
        if c in ("StringLiteral", "CharacterLiteral"):
            return one("?0")
        if c in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            if len(n.get("a", [])) == 1:
                return V(n["a"][0])
            return self.mix([V(a) for a in n.get("a", [])])
        if c == "InitListExpr":
            return V(n["k"][0]) if len(n["k"]) == 1 else self.mix([V(k) for k in fn.kids(i)])
        if c in ("CXXScalarValueInitExpr", "ImplicitValueInitExpr"):
            return one(0)
        if c == "DeclRefExpr":
            dk = n.get("dk")
            if dk in ("var", "parm"):
                if n["id"] in env:
                    return env[n["id"]]
                if dk == "var" and n["id"] in fn.vars:
                    return one(HIST) if fn.vars[n["id"]].get("static") else one("?0")
                u = self.up(fn)
                if u and not any(a["id"] == n["id"] for a in fn.d.get("params", [])):
                    e2 = self.env_at(u[0], u[1], v, {})
                    if e2 is not None and n["id"] in e2:
                        return e2[n["id"]]
                    if u[0].vars.get(n["id"], {}).get("static"):
                        return one(HIST)
                return one("?0")
            if dk in ("global", "slocal"):
                if n.get("t", "").startswith("const "):
                    return one("?0")
                return env.get(("g", n.get("fq")), one(HIST)) if dk == "global" else one(HIST)
            return one(n["v"]) if dk == "enum" and isinstance(n.get("v"), int) else one("?0")
        if c == "MemberExpr" and n.get("dk") == "field":
            b = fn.N[fn.strip(n["k"][0])] if n["k"] else None
            if field_of(fn, i) and ("f", n["n"]) in env:
                return env[("f", n["n"])]
            if is_seed_name(n["n"]) and "vector" not in n.get("t", ""):
                if b and b["c"] == "CXXThisExpr" or b and b["c"] == "DeclRefExpr" and b.get("dk") == "parm":
                    return one(v)
                return one("?2")
            return one("?0") if b and b["c"] == "CXXThisExpr" else V(n["k"][0]) if n["k"] else one("?0")
        if c == "CXXThisExpr":
            return one("?0")
        if c == "ConditionalOperator":
            out = set()
            for x in V(n["k"][0]):
                if isinstance(x, str):
                    out |= V(n["k"][1]) | V(n["k"][2])
                else:
                    out |= V(n["k"][1] if x else n["k"][2])
            return frozenset(out)
        if c == "UnaryOperator":
            a = V(n["k"][0])
            f = {"-": lambda x: -x, "!": lambda x: int(not x), "~": lambda x: ~int(x)}.get(n.get("op"))
            if f:
                return frozenset(x if isinstance(x, str) else f(x) for x in a)
            if n.get("op") in ("++", "--") and not n.get("post"):
                return self.binary("+", a, {1 if n["op"] == "++" else -1})
            return a
        if c in ("BinaryOperator", "CompoundAssignOperator"):
            op = n["op"]
            if op in ("=", ","):
                return V(n["k"][1])
            if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
                op = op[:-1]
            return self.binary(op, V(n["k"][0]), V(n["k"][1]))
        if "f" in n and "a" in n:
            if entropy_call(fn, n):
                return one(ENT)
            sq = ir.short(n["f"]["fq"])
            s = sq.split("::")[-1]
            args = ([n["o"]] if "o" in n else []) + list(n["a"])
            if sq.startswith("std::") and s in ("max", "min") and len(n["a"]) == 2:
                return self.binary(s, V(n["a"][0]), V(n["a"][1]))
            if sq.startswith("std::") and any(is_engine(fn.N[fn.strip(a)].get("t")) for a in args):
                return one("?1")
            if s == "hash" or re.match(r"(?:const )?std::hash<(std::(shared|unique|weak)_ptr\b|std::thread::id|std::__shared_ptr|.*\*\s*>)", n["f"]["fq"]) or "std::hash<" in n["f"]["fq"] and any(fn.N[fn.strip(a)].get("t", "").strip().endswith("*") for a in args):
                return one(HIST)
            ts = self.p.call_targets(fn, i)
            if len(ts) == 1 and depth < 12 and not ts[0].d.get("virt"):
                g = ts[0]
                b2 = {}
                for k, a in enumerate(g.d.get("params", [])):
                    if k < len(n["a"]) and n["c"] != "CXXOperatorCallExpr":
                        b2[a["id"]] = self.cap(V(n["a"][k]))
                if (g.key, "busy") in self.memo:
                    return one("?2")
                self.memo[(g.key, "busy")] = True
                try:
                    out = set()
                    res = self.solve(g, v, b2)
                    for r in g.walk():
                        if g.N[r]["c"] == "ReturnStmt" and g.N[r]["k"]:
                            e2 = self.env_at(g, r, v, b2)
                            if e2 is not None:
                                out |= self.ev(g, g.N[r]["k"][0], e2, v, b2, depth + 2)
                finally:
                    del self.memo[(g.key, "busy")]
                return frozenset(out) or one("?2")
            if ts:
                return one("?2")
            return self.mix([V(a) for a in args])
        ks = fn.kids(i)
        return self.mix([V(k) for k in ks]) if ks else one("?0")

    @staticmethod
    def mix(xs):
        """result of an unknown function of values xs"""
        ys = set().union(*xs) if xs else set()
        for t in (ENT, HIST, "?2", "?1"):
            if t in ys:
                return frozenset({t})
        return frozenset({"?0"})

    def binary(self, op, A, B):
        out = set()
        for a in A:
            for b in B:
                if isinstance(a, str) or isinstance(b, str):
                    if op == "*" and (a == 0 or b == 0):
                        out.add(0)
                        continue
                    if op == "&&" and (a == 0 or b == 0) or op == "||" and (a not in (0,) and not isinstance(a, str) or b not in (0,) and not isinstance(b, str)):
                        out.add(int(op == "||"))
                        continue
                    ys = [x for x in (a, b) if isinstance(x, str)]
                    if len(ys) == 1 and ys[0] == "?0":
                        # a known number: it may be the seed
                        out.add("?1" if (a if b == "?0" else b) in SEEDS or abs(a if b == "?0" else b) > 2 else "?0")
                    else:
                        out |= self.mix([{a} if isinstance(a, str) else set(), {b} if isinstance(b, str) else set()])
                    continue
                try:
                    r = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b,
                         "/": lambda: a / b if isinstance(a, float) or isinstance(b, float) else int(a / b), "%": lambda: a % b, "^": lambda: a ^ b, "|": lambda: a | b, "&": lambda: a & b,
                         "<<": lambda: a << b if b < 70 else 0, ">>": lambda: a >> b, "==": lambda: int(a == b), "!=": lambda: int(a != b),
                         "<": lambda: int(a < b), ">": lambda: int(a > b), "<=": lambda: int(a <= b), ">=": lambda: int(a >= b),
                         "&&": lambda: int(bool(a and b)), "||": lambda: int(bool(a or b)), "max": lambda: max(a, b), "min": lambda: min(a, b)}[op]()
                except (KeyError, ZeroDivisionError, TypeError, ValueError):
                    r = "?2"
                out.add(r)
        return self.cap(out)

    def truth(self, g, c, v):
        return self.bools(self.values(g, c, v))

    def runs(self, g, i, v):
        """can node i be evaluated when the seed is v?"""
        o = g
        while True:
            env = self.env_at(o, i, v, {})
            if env is None:
                return False
            x = i
            while x in o.parent:
                p = o.parent[x]
                n = o.N[p]
                if n["c"] == "ConditionalOperator" and x in n["k"][1:]:
                    e2 = self.env_at(o, n["k"][0], v, {})
                    t = None if e2 is None else self.bools(self.ev(o, n["k"][0], e2, v, {}, 0))
                    if t is not None and (n["k"][1] == x) != t:
                        return False
                x = p
            u = self.up(o)
            if u is None:
                return True
            o, i = u


def engine_expr(fn, i):
    """the engine an expression denotes: ('global', name), ('member', name), ('local', id), ('temp', node)"""
    i = fn.strip(i)
    n = fn.N[i]
    if n["c"] == "DeclRefExpr":
        if n.get("dk") == "global":
            return ("global", n.get("fq", n["n"]))
        return ("local", n.get("id"))
    if n["c"] == "MemberExpr":
        return ("member", n["n"])
    return ("temp", i)


def seed_call(fn, i):
    """(engine, seed argument) when node i puts an engine into a given state"""
    n = fn.N[i]
    if n["c"] == "CXXMemberCallExpr" and short_callee(n) == "seed" and "o" in n and is_engine(fn.N[fn.strip(n["o"])].get("t")):
        return engine_expr(fn, n["o"]), (n["a"][0] if n.get("a") and fn.N[n["a"][0]]["c"] != "CXXDefaultArgExpr" else None)
    if n["c"] == "CXXOperatorCallExpr" and n.get("op") == "=" and n.get("a") and is_engine(fn.N[fn.strip(n["a"][0])].get("t")):
        s = fn.N[fn.strip(n["a"][1])]
        if s["c"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "CXXFunctionalCastExpr", "InitListExpr"):
            return engine_expr(fn, n["a"][0]), "copy"
        return engine_expr(fn, n["a"][0]), "copy"
    return None


def constructs_engine(fn, i):
    """seed argument (or 'default') of an engine construction, None when i is not one"""
    n = fn.N[i]
    if n["c"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and is_engine(n.get("t")) and not n.get("elide"):
        a = [x for x in n.get("a", []) if fn.N[x]["c"] != "CXXDefaultArgExpr"]
        if len(n.get("a", [])) == 1 and is_engine(fn.N[fn.strip(n["a"][0])].get("t")):
            return None
        return a[0] if a else "default"
    return None


def check(p, rep):
    S = Seeds(p)
    rep.rule("entropy", "a hardware random source, the clock or the process identity is consulted for a seed only when no seed was given (seed 0)")
    rep.rule("engine-seed", "every generator an operation with a seed constructs or seeds gets a value computed from that seed alone")
    rep.rule("seed-passed", "an operation with a seed passes every seeded operation it calls a non-zero value computed from its seed alone")
    rep.rule("seed-kept", "a seed given to a constructor or setter is the one the object's operations read")
    rep.rule("init-before-draw", "the shared generator is seeded in the operation before anything is drawn from it")
    rep.rule("draw-in-task", "no random number is drawn from a shared generator inside a task that runs on another thread")
    rep.rule("static-generator", "no generator or stateful distribution lives in a static local or is kept across operations without being reseeded")
    rep.rule("members-seeded", "a learner that trains other learners which draw random numbers hands them its seed")
    draws = drawing(p)
    random_fns = closure(p, draws)
    entropy(p, rep, S)
    sinks(p, rep, S)
    kept(p, rep, S)
    typestate(p, rep, S, draws)
    tasks(p, rep, draws)
    members(p, rep, S, random_fns)
    rep.floor("engine-seed", 4)
    rep.floor("seed-passed", 6)


# ------------------------------------------------------------------ draws
def draw_nodes(fn):
    """(node, engine) for every use of an engine that advances it"""
    for i, n in enumerate(fn.N):
        if n["c"] not in ("DeclRefExpr", "MemberExpr") or not is_engine(n.get("t")) or n.get("dk") not in ("global", "var", "field", "parm"):
            continue
        x = i
        par = fn.parent
        while x in par and fn.N[par[x]]["c"] in ir.TRANSPARENT:
            x = par[x]
        if x not in par:
            continue
        q = fn.N[par[x]]
        if q["c"] == "MemberExpr" and q.get("dk") == "fn":
            call = fn.N[par[par[x]]] if par[x] in par else None
            if q["n"] in ("seed", "discard", "min", "max"):
                continue
        if q["c"] == "CXXOperatorCallExpr" and q.get("op") == "=" and q.get("a") and q["a"][0] == x:
            continue
        if q["c"] in ("CXXConstructExpr",) and is_engine(q.get("t")):
            pass
        yield i, engine_expr(fn, i)


def rand_call(fn, n):
    return "f" in n and "a" in n and ir.short(n["f"]["fq"]) in ("rand", "std::rand")


def srand_call(fn, n):
    return "f" in n and "a" in n and ir.short(n["f"]["fq"]) in ("srand", "std::srand")


def drawing(p):
    """functions that draw from a shared engine: key -> [(node, engine)]"""
    out = {}
    for f in p.fns.values():
        for i, e in draw_nodes(f):
            out.setdefault(f.key, []).append((i, e))
        for i in f.calls():
            if rand_call(f, f.N[i]):
                out.setdefault(f.key, []).append((i, ("global", "rand")))
    return out


def closure(p, draws):
    rev = set(draws)
    ch = True
    while ch:
        ch = False
        for f in p.fns.values():
            if f.key not in rev and any(t.key in rev for t in p.succ_fns(f)):
                rev.add(f.key)
                ch = True
    return rev


# ------------------------------------------------------------------ rules
def entropy(p, rep, S):
    """entropy calls are dead when a seed is given; clocks matter only through seeds (see sinks)"""
    sources = set()
    for f in p.fns.values():
        if not S.has_seed(f) and any(ir.short(f.N[i]["f"]["fq"]) == "std::random_device::operator()" for i in f.calls()):
            sources.add(f.key)
    for f in p.fns.values():
        for i in f.calls():
            n = f.N[i]
            hw = ir.short(n["f"]["fq"]) == "std::random_device::operator()"
            via = [t for t in p.call_targets(f, i) if t.key in sources and not t.d.get("params")]
            if not hw and not via:
                continue
            if not S.has_seed(f):
                continue
            o = S.owner(f)
            alive = [v for v in SEEDS if S.runs(f, i, v)]
            if alive and f is not o:
                alive = alive if True else alive
            # the value read may still be unused: it must not reach a seed, which sinks() decides
            used = True
            rep.put(not alive or not used, "entropy", "%s @ %s" % (o.sq, f.text(i)), "a hardware random source is read although a seed (e.g. %s) was given" % (alive[:1] or [""])[0], f.loc(i), "entropy|%s" % o.sq)


def judge(S, f, a, zero_bad, need=True):
    """None when fine, else what is wrong with the seed expression a in f; '?' when undecided"""
    res = {}
    for v in SEEDS:
        xs = res[v] = S.values(f, a, v)
        if ENT in xs:
            return "comes from the clock or a hardware random source"
        if HIST in xs:
            return "depends on earlier calls"
        if zero_bad and 0 in xs:
            return "can be 0 (which means: choose a seed at random) although the operation's seed is %d" % v
    if any("?2" in xs for xs in res.values()):
        return "?"
    if need and not any("?1" in xs for xs in res.values()) and len(set(res.values())) == 1:
        return "does not depend on the operation's seed"
    return None


def sinks(p, rep, S):
    for f in p.fns.values():
        if not S.has_seed(f):
            continue
        o = S.owner(f)
        live = lambda i: any(S.runs(f, i, v) for v in SEEDS)
        # engines
        for i in list(f.walk_all()):
            n = f.N[i]
            a = constructs_engine(f, i)
            sc = seed_call(f, i)
            if a is not None:
                if not live(i):
                    continue
                what = "generator constructed in %s" % o.sq
                if a == "default":
                    # a default constructed engine must be seeded explicitly later
                    par = [x for x in f.ancestors(i)]
                    later = any(seed_call(f, x) for x in f.calls())
                    if f.d.get("kind") == "ctor" or is_member_default(f, i):
                        continue
                    rep.put(later, "engine-seed", what, "default constructed and never seeded with the operation's seed", f.loc(i), "engine-seed|%s|ctor" % o.sq)
                    continue
                w = judge(S, f, a, False)
                rep.put(None if w == "?" else w is None, "engine-seed", what, "its seed %s %s" % (f.text(a), w), f.loc(i), "engine-seed|%s|ctor" % o.sq)
            elif sc is not None:
                if sc[1] == "copy" or not live(i):
                    continue
                what = "generator seeded in %s" % o.sq
                if sc[1] is None:
                    rep.bad("engine-seed", what, "seed() without the operation's seed", f.loc(i), "engine-seed|%s|seed" % o.sq)
                    continue
                w = judge(S, f, sc[1], False)
                rep.put(None if w == "?" else w is None, "engine-seed", what, "its seed %s %s" % (f.text(sc[1]), w), f.loc(i), "engine-seed|%s|seed" % o.sq)
        for i in f.calls():
            n = f.N[i]
            if srand_call(f, n):
                w = judge(S, f, n["a"][0], False, need=False)
                rep.put(None if w == "?" else w is None, "engine-seed", "srand in %s" % o.sq, "its seed %s" % w, f.loc(i), "engine-seed|%s|srand" % o.sq)
                continue
            ts = p.call_targets(f, i)
            if not ts:
                continue
            for k, prm in enumerate(ts[0].d.get("params", [])):
                if not is_seed_name(prm["n"]) or k >= len(n["a"]) or bare(prm["t"]).startswith("std::"):
                    continue
                if n["c"] == "CXXOperatorCallExpr":
                    continue
                if not live(i):
                    continue
                t = ts[0]
                what = "%s calls %s" % (o.sq, t.sq)
                a = n["a"][k]
                w = judge(S, f, a, True)
                rep.put(None if w == "?" else w is None, "seed-passed", what, "the seed passed (%s) %s" % (f.text(a), w), f.loc(i), "seed-passed|%s|%s" % (o.sq, t.sq))
        # seeds stored in members of this
        for i, n in enumerate(f.N):
            if n["c"] in ("BinaryOperator", "CompoundAssignOperator") and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                t = f.N[f.strip(n["k"][0])]
                if t["c"] == "MemberExpr" and t.get("dk") == "field" and is_seed_name(t["n"]) and field_of(f, n["k"][0]) and "vector" not in t.get("t", ""):
                    if not live(i):
                        continue
                    vals = {v: (S.values(f, n["k"][1], v) if n["op"] == "=" else S.binary(n["op"][:-1], S.values(f, n["k"][0], v), S.values(f, n["k"][1], v))) for v in SEEDS}
                    w = None if all(x <= {v} for v, x in vals.items()) else "comes from a random source" if any(ENT in x for x in vals.values()) else "?" if any("?2" in x for x in vals.values()) else "differs from the given seed: a repeated operation would use another one"
                    rep.put(None if w == "?" else w is None, "seed-kept", "%s stores the seed" % o.sq, "the stored seed %s" % w, f.loc(i), "seed-kept|%s|store" % o.sq)


def is_member_default(f, i):
    for a in f.ancestors(i):
        if f.N[a]["c"] in ("CXXDefaultInitExpr",):
            return True
    return False


def kept(p, rep, S):
    """constructors and setters with a seed parameter store it; no shadowing seed members"""
    import sym
    for rec, r in sorted(p.records.items()):
        own = [f["n"] for f in r["fields"] if is_seed_name(f["n"]) and "vector" not in f["t"]]
        for nm in own:
            up = [b for b, f in S.seed_fields(rec) if f == nm and b != rec]
            rep.put(not up, "seed-kept", "%s::%s" % (ir.short(rec), nm), "shadows the seed of %s: the seed set through the base class is not the one the operations read" % ", ".join(ir.short(u) for u in up), r.get("file", ""), "seed-kept|%s|shadow" % ir.short(rec))
    for f in p.fns.values():
        if not f.rec or f.d.get("kind") not in ("ctor", "method") or not S.seed_fields(f.rec):
            continue
        ps = [a["n"] for a in f.d.get("params", []) if is_seed_name(a["n"]) and not bare(a["t"]).startswith("std::")]
        if not ps:
            continue
        if f.d["kind"] != "ctor" and not re.match(r"(?i)set_?\w*seed", f.name):
            continue
        stored = set()
        for x in f.d.get("inits", []):
            if x.get("field") and is_seed_name(x["field"]) if "field" in x else False:
                stored |= {S.values(f, x["e"], v) == {v} for v in SEEDS}
            elif x.get("n") and is_seed_name(x["n"]):
                stored |= {S.values(f, x["e"], v) == {v} for v in SEEDS}
            else:
                # base or delegating constructor taking a seed
                for y in f.walk(x["e"]):
                    m = f.N[y]
                    if m["c"] == "CXXConstructExpr":
                        for t in p.call_targets(f, y):
                            for k, prm in enumerate(t.d.get("params", [])):
                                if is_seed_name(prm["n"]) and k < len(m.get("a", [])):
                                    stored |= {S.values(f, m["a"][k], v) == {v} for v in SEEDS}
        for i, n in enumerate(f.N):
            if n["c"] == "BinaryOperator" and n["op"] == "=":
                nm = field_of(f, n["k"][0])
                if nm and is_seed_name(nm):
                    stored |= {S.values(f, n["k"][1], v) == {v} for v in SEEDS}
            if "f" in n and "a" in n:
                for t in p.call_targets(f, i):
                    if t.rec in p.all_bases(f.rec) and re.match(r"(?i)set_?\w*seed", t.name) and n["a"]:
                        stored |= {S.values(f, n["a"][0], v) == {v} for v in SEEDS}
                    elif t.rec in p.all_bases(f.rec):
                        for k, prm in enumerate(t.d.get("params", [])):
                            if is_seed_name(prm["n"]) and k < len(n["a"]):
                                stored |= {S.values(f, n["a"][k], v) == {v} for v in SEEDS}
        rep.put(stored == {True}, "seed-kept", "%s(%s)" % (f.sq, ps[0]), "the given seed is not stored unchanged in the object's seed", f.loc(), "seed-kept|%s" % f.sq)


def typestate(p, rep, S, draws):
    engines = sorted({e for k, v in draws.items() for i, e in v if e[0] == "global"})
    dmap = {}
    for k, v in draws.items():
        for i, e in v:
            dmap.setdefault((k, i), []).append(e)
    drawers = {}
    for e in engines:
        drawers[e] = closure(p, {k for k, v in draws.items() if any(x == e for _, x in v)})
    # static locals
    for f in p.fns.values():
        for vid, d in f.vars.items():
            if is_engine(d["t"]):
                rep.put(not d.get("static"), "static-generator", "%s in %s" % (d["n"], f.sq), "a static generator is seeded once and carries its state from one operation to the next", f.loc(), "static-generator|%s" % f.sq)
            elif d.get("static") and STATEFUL_DIST.match(bare(d["t"])):
                rep.bad("static-generator", "%s in %s" % (d["n"], f.sq), "a static distribution keeps values between operations", f.loc(), "static-generator|%s" % f.sq)
    for g in p.globals:
        if STATEFUL_DIST.match(bare(g["t"])):
            rep.bad("static-generator", g["q"], "a global distribution keeps values between operations", g["file"], "static-generator|%s" % g["q"])
    for e in engines:
        for v in (1, 42):
            def classify(fn, item, e=e, v=v):
                if isinstance(item, tuple):
                    if item[0] == "edge":
                        t = S.truth(fn, item[1], v) if S.has_seed(fn) else None
                        if t is not None and t != item[2]:
                            return "dead"
                    return None
                n = fn.N[item]
                if e[1] == "rand":
                    if srand_call(fn, n):
                        return "seed"
                else:
                    sc = seed_call(fn, item)
                    if sc and sc[0] == e:
                        return "seed"
                if e in dmap.get((fn.key, item), ()):
                    return "draw"
                return None

            def step(s, ev, fn, i):
                if ev == "dead":
                    return "!dead"
                if ev == "seed":
                    return "S"
                if ev == "draw" and s == "U":
                    return "E"
                return s
            F = flow.Flow(p, classify, step, descend=lambda fn, i, t, e=e: t.key in drawers[e] or seeds_engine(p, t))
            for f in sorted(p.fns.values(), key=lambda f: f.key):
                if f.key not in drawers[e] or f.sq.startswith("mltk::random::") or not is_root(p, S, f):
                    continue
                F.errors.clear()
                F.sum.clear()
                out = F.run(f, {"U"})
                bad = "E" in out
                if bad:
                    w = [x for k, x in F.errors.items() if k[2] == "E"]
                    at = w[0] if w else (f, None)
                    rep.bad("init-before-draw", "%s (%s)" % (f.sq, e[1].split("::")[-1]), "draws at %s %s before the generator was seeded for this operation, so the result depends on what was drawn earlier" % (at[0].sq, at[0].loc(at[1])), f.loc(), "init-before-draw|%s" % f.sq)
                else:
                    rep.ok("init-before-draw", "%s (%s)" % (f.sq, e[1].split("::")[-1]), "", f.loc())


def seeds_engine(p, t):
    k = getattr(p, "_seeders", None)
    if k is None:
        base = {f.key for f in p.fns.values() if any(seed_call(f, i) or srand_call(f, f.N[i]) for i in f.calls())}
        k = p._seeders = closure(p, base)
    return t.key in k


def is_root(p, S, f):
    if f.d.get("kind") == "lambda" or "(lambda" in f.q or "(anonymous class)" in f.q:
        return False
    ps, m = S.scope(f)
    if m and f.d.get("virt"):
        return True
    return not p.callers.get(f.key)


def tasks(p, rep, draws):
    for f in p.fns.values():
        for i in f.calls():
            n = f.N[i]
            s = short_callee(n)
            if not (s in TASKS or (n["c"] == "CXXConstructExpr" and n["f"]["fq"].startswith("std::thread::thread"))):
                continue
            for a in n["a"]:
                for k in lambda_keys(f, a):
                    if k not in p.fns:
                        continue
                    g = p.fns[k]
                    hit = None
                    for q in p.reachable([g]):
                        for j, e in draws.get(q, ()):
                            if e[0] == "global" or (e[0] == "member") or (e[0] == "local" and p.fns[q].key == k and e[1] not in p.fns[q].vars):
                                hit = hit or (p.fns[q], j, e)
                    rep.put(hit is None, "draw-in-task", "task given to %s in %s" % (s or "a thread", f.sq), "draws from the shared generator (%s): the numbers it gets depend on the schedule" % (hit and hit[0].loc(hit[1])), f.loc(i), "draw-in-task|%s" % f.sq)


def members(p, rep, S, random_fns):
    """train() of other learners inside a seeded operation"""
    for f in p.fns.values():
        o = S.owner(f)
        if not S.has_seed(f) or not o.rec and not S.scope(f)[0]:
            continue
        for i in f.calls():
            n = f.N[i]
            if n["c"] != "CXXMemberCallExpr" or short_callee(n) != "train" or "o" not in n:
                continue
            ob = f.N[f.strip(n["o"])]
            if ob["c"] == "CXXThisExpr" or n.get("nonvirt"):
                continue
            rec = bare(n["f"].get("rec", ""))
            if not S.seed_fields(rec):
                continue
            ts = p.call_targets(f, i)
            t = bare(ob.get("t", ""))
            if ob["c"] == "DeclRefExpr" and ob.get("id") in f.vars and not f.vars[ob["id"]]["t"].endswith(("&", "*")) and not t.startswith("std::"):
                ts = [x for x in p.methods(t) if x.name == "train"] or ts[:1]
            if not any(x.key in random_fns for x in ts):
                continue
            good = any(setter(p, S, f, j) for j in f.calls())
            why = "never hands its seed to the learners it trains, so their random choices do not follow from it"
            if not good:
                # the learner may have been seeded by the function that calls this one, or in a helper
                for g in [p.fns[k] for k in p.reachable([o])]:
                    if (g.rec == o.rec or g is o) and any(setter(p, S, g, j) for j in g.calls()):
                        good = True
                for g, j in p.callers.get(o.key, []) if not o.d.get("virt") else ():
                    if S.has_seed(g) and any(setter(p, S, g, q) for q in g.calls()):
                        good = True
            rep.put(good, "members-seeded", "%s trains %s" % (o.sq, ir.short(rec)), why, f.loc(i), "members-seeded|%s" % o.sq)


def setter(p, S, f, j):
    n = f.N[j]
    if not re.match(r"(?i)set_?\w*seed", short_callee(n) or "") or not n.get("a"):
        return False
    if not all(S.runs(f, j, v) for v in SEEDS):
        return False
    ob = f.N[f.strip(n["o"])] if "o" in n else None
    return ob is not None and ob["c"] != "CXXThisExpr"
