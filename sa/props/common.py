"""Syntax helpers shared by the structural checks."""
import ir

ATOMIC = ("std::atomic<", "std::__atomic_base<", "std::atomic_flag", "std::__atomic_flag_base")
GUARDS = ("std::scoped_lock<", "std::lock_guard<", "std::unique_lock<", "std::shared_lock<")


def bare(t):
    t = (t or "").strip()
    for _ in range(4):
        t = t.rstrip("&").strip()
        if t.startswith("const "):
            t = t[6:]
        if t.startswith("volatile "):
            t = t[9:]
    return t


def is_atomic(t):
    return bare(t).startswith(ATOMIC)


def is_mutex(t):
    t = bare(t)
    return t.startswith("std::") and t.split("<")[0].endswith("mutex")


def one_init(fn, vid):
    """initialiser of a local that is never assigned again, or None"""
    v = fn.vars.get(vid)
    if not v or "init" not in v:
        return None
    c = getattr(fn, "_mut", None)
    if c is None:
        c = fn._mut = set()
        for i, n in enumerate(fn.N):
            tgt = None
            if n["c"] in ("BinaryOperator", "CompoundAssignOperator") and n.get("op", "").endswith("=") and n.get("op") not in ("==", "!=", "<=", ">="):
                tgt = n["k"][0]
            elif n["c"] == "UnaryOperator" and n.get("op") in ("++", "--", "&"):
                tgt = n["k"][0]
            elif n["c"] == "CXXOperatorCallExpr" and n.get("op") in ("=", "++", "--", "+=", "-=", "*=", "/="):
                tgt = n["a"][0]
            if tgt is not None:
                s = fn.N[fn.strip(tgt)]
                if s["c"] == "DeclRefExpr":
                    c.add(s["id"])
    return None if vid in c else v["init"]


def resolve(fn, i, depth=0):
    """strip casts and copies; follow locals that are initialised once"""
    i = fn.strip(i)
    n = fn.N[i]
    if n["c"] == "DeclRefExpr" and n.get("dk") == "var" and depth < 8:
        x = one_init(fn, n["id"])
        if x is not None and not fn.vars[n["id"]]["t"].endswith("&"):
            return resolve(fn, x, depth + 1)
    return i


def condition(fn, c, outcome):
    """the innermost condition decided by a branch: (node, outcome)"""
    followed = False
    for _ in range(20):
        c = fn.strip(c)
        n = fn.N[c]
        if n["c"] == "BinaryOperator" and n.get("op") in ("&&", "||"):
            if followed and outcome != (n["op"] == "&&"):
                break
            c = n["k"][1]
        elif n["c"] == "UnaryOperator" and n.get("op") == "!":
            c, outcome = n["k"][0], not outcome
        elif n["c"] == "DeclRefExpr" and n.get("dk") == "var" and one_init(fn, n["id"]) is not None:
            c = one_init(fn, n["id"])
            followed = True
        else:
            break
    return c, outcome


def short_callee(n):
    f = n.get("f")
    return ir.short(f["fq"]).split("::")[-1] if f else None


def field_of(fn, i, rec=None):
    """name of the member of *this that expression i denotes (through casts, conversions, load())"""
    i = fn.strip(i)
    n = fn.N[i]
    for _ in range(6):
        if n["c"] == "CXXMemberCallExpr" and (short_callee(n) or "").startswith("operator ") and "o" in n:
            i = fn.strip(n["o"])
        elif n["c"] == "CXXMemberCallExpr" and short_callee(n) == "load" and "o" in n:
            i = fn.strip(n["o"])
        else:
            break
        n = fn.N[i]
    if n["c"] == "MemberExpr" and n.get("dk") == "field" and n["k"]:
        b = fn.N[fn.strip(n["k"][0])]
        if b["c"] == "CXXThisExpr" and (rec is None or n.get("rec") == rec):
            return n["n"]
    return None


def written(fn, i):
    """is the member expression i (an lvalue) used other than by reading it?"""
    par = fn.parent
    while i in par:
        p = par[i]
        n = fn.N[p]
        c = n["c"]
        if c == "ImplicitCastExpr":
            if n.get("ck") == "LValueToRValue":
                return False
            if n.get("ck") == "NoOp" and n.get("t", "").startswith("const "):
                return False
            i = p
            continue
        if c in ("ParenExpr",):
            i = p
            continue
        if c in ("BinaryOperator", "CompoundAssignOperator"):
            return n.get("op", "").endswith("=") and n["op"] not in ("==", "!=", "<=", ">=") and n["k"][0] == i
        if c == "UnaryOperator":
            if n.get("op") in ("++", "--", "&"):
                return True
            return False
        if c in ("ArraySubscriptExpr",):
            i = p
            continue
        if c == "MemberExpr":
            if n.get("dk") == "fn":
                # method call on the object
                if n.get("cst") or n.get("n") in ("begin", "end", "size", "empty", "front", "back", "get", "load") and False:
                    return False
                return not n.get("cst")
            i = p
            continue
        if "a" in n and "f" in n:
            f = n["f"]
            if c == "CXXOperatorCallExpr":
                a = n["a"]
                k = a.index(i) if i in a else None
                if "rec" in f and not f.get("stat"):
                    if k == 0:
                        return not f.get("cst")
                    k = k - 1 if k is not None else None
                if k is None:
                    return False
                return f.get("pk", "")[k:k + 1] == "R"
            a = n["a"]
            if i in a:
                return f.get("pk", "")[a.index(i):a.index(i) + 1] == "R"
            return False
        if c == "DeclStmt":
            for d in n.get("d", []):
                if d.get("init") == i:
                    return d["t"].endswith("&") and not d["t"].startswith("const ")
            return False
        if c in ("LambdaExpr",):
            return True
        return False
    return False


def lambda_keys(fn, i):
    """keys of the lambda that expression i denotes"""
    i = resolve(fn, i)
    n = fn.N[i]
    if n["c"] == "CXXConstructExpr" and len(n.get("a", [])) == 1:
        return lambda_keys(fn, n["a"][0])
    if n["c"] in ir.EXPLICIT_CASTS and n["k"]:
        return lambda_keys(fn, n["k"][0])
    if n["c"] == "LambdaExpr":
        return [n["lk"]] if "lk" in n else list(n.get("specs", []))
    return []


def lambda_node(fn, i):
    i = resolve(fn, i)
    n = fn.N[i]
    if n["c"] == "CXXConstructExpr" and len(n.get("a", [])) == 1:
        return lambda_node(fn, n["a"][0])
    if n["c"] in ir.EXPLICIT_CASTS and n["k"]:
        return lambda_node(fn, n["k"][0])
    return i if n["c"] == "LambdaExpr" else None

