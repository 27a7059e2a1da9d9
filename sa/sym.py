"""Value graphs: every expression of a function is mapped to a normal-form term by one
structured forward pass (joins build gated values, loops build recognised reductions or
opaque loop values; repo callees are inlined).  Terms are compared structurally; no
solver and no path enumeration is involved."""
from fractions import Fraction
import re, ir

NUM, VAR = "num", "var"


def num(v):
    if isinstance(v, bool):
        return ("num", Fraction(int(v)))
    if isinstance(v, int):
        return ("num", Fraction(v))
    try:
        return ("num", Fraction(str(v)))
    except Exception:
        return ("sym", "float:" + str(v))


ZERO, ONE = num(0), num(1)


def key(t):
    return repr(t)


# ---- polynomial layer: {monomial: coef}, monomial = tuple(sorted((atom, power))) ----
def topoly(t):
    if t[0] == "num":
        return {(): t[1]} if t[1] != 0 else {}
    if t[0] == "poly":
        return dict(t[1])
    return {((t, 1),): Fraction(1)}


def frompoly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return ("num", c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return ("poly", tuple(sorted(p.items(), key=lambda x: repr(x))))


def add(a, b, k=1):
    p = topoly(a)
    for m, c in topoly(b).items():
        p[m] = p.get(m, 0) + k * c
    return frompoly(p)


def sub(a, b):
    return add(a, b, -1)


def mulmono(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    for a in [a for a, e in d.items() if a[0] == "call" and a[1] == "abs" and e % 2 == 0 and a[2][0] != "poly"]:
        e = d.pop(a)
        d[a[2]] = d.get(a[2], 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda x: repr(x)))


def mul(a, b):
    pa, pb = topoly(a), topoly(b)
    if len(pa) * len(pb) > 60:
        return ("call", "mul") + tuple(sorted((a, b), key=key))
    # keep a sum as one atom when multiplied by a non-constant sum? expand fully
    r = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = mulmono(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return frompoly(r)


def neg(a):
    return mul(num(-1), a)


def div(a, b):
    if b[0] == "num":
        if b[1] == 0:
            return ("call", "div", a, b)
        return mul(("num", 1 / b[1]), a)
    pb = topoly(b)
    if len(pb) == 1:
        (m, c), = pb.items()
        inv = {tuple(sorted(((x, -e) for x, e in m), key=lambda x: repr(x))): 1 / c}
        return mul(a, frompoly(inv))
    # normalise the sign / content of the denominator
    lead = sorted(pb.items(), key=lambda x: repr(x))[0][1]
    den = frompoly({m: c / lead for m, c in pb.items()})
    return mul(mul(a, ("num", 1 / lead)), ("poly", ((((den, -1),), Fraction(1)),)) if True else None)


def powi(a, n):
    if n == 0:
        return ONE
    if n < 0:
        return div(ONE, powi(a, -n))
    r = a
    for _ in range(n - 1):
        r = mul(r, a)
    return r


def absn(a):
    if a[0] == "num":
        return ("num", abs(a[1]))
    if a[0] == "call" and a[1] in ("abs", "sqrt"):
        return a
    p = topoly(a)
    q = {m: -c for m, c in p.items()}
    x, y = frompoly(p), frompoly(q)
    return ("call", "abs", min(x, y, key=key))


def cmp_(op, a, b):
    if op in (">", ">="):
        a, b = b, a
        op = {">": "<", ">=": "<="}[op]
    if a[0] == "num" and b[0] == "num":
        return num({"<": a[1] < b[1], "<=": a[1] <= b[1], "==": a[1] == b[1], "!=": a[1] != b[1]}[op])
    if op in ("==", "!="):
        a, b = sorted((a, b), key=key)
    return ("cmp", op, a, b)


def not_(a):
    if a[0] == "cmp":
        op = {"<": ">=", "<=": ">", "==": "!=", "!=": "=="}[a[1]]
        return cmp_(op, a[2], a[3])
    if a[0] == "not":
        return a[1]
    if a[0] == "and":
        return ("or",) + tuple(sorted((not_(x) for x in a[1:]), key=key))
    if a[0] == "or":
        return ("and",) + tuple(sorted((not_(x) for x in a[1:]), key=key))
    if a[0] == "num":
        return num(a[1] == 0)
    return ("not", a)


def bool2(op, a, b):
    if a[0] == "num":
        return b if (a[1] != 0) == (op == "and") else a
    if b[0] == "num":
        return a if (b[1] != 0) == (op == "and") else b
    xs = set()
    for x in (a, b):
        xs |= set(x[1:]) if x[0] == op else {x}
    if len(xs) == 1:
        return next(iter(xs))
    return (op,) + tuple(sorted(xs, key=key))


def ite(c, a, b):
    if a == b:
        return a
    if c[0] == "num":
        return a if c[1] != 0 else b
    if c[0] == "not":
        return ite(c[1], b, a)
    if c[0] == "cmp":
        if c[1] in ("<", "<="):
            if a == c[3] and b == c[2]:
                return minmax("max", a, b)
            if a == c[2] and b == c[3]:
                return minmax("min", a, b)
            # |x| idiom
            if c[3] == ZERO and a == neg(c[2]) and b == c[2] or c[2] == ZERO and a == c[3] and b == neg(c[3]):
                return absn(b)
            d = sub(c[3], c[2])
            if a == d and b == neg(d) or b == d and a == neg(d):
                if a == d:
                    return absn(d)
                return neg(absn(d))
        if c[1] == "!=":
            return ite(cmp_("==", c[2], c[3]), b, a)
        # canonical orientation: use "<" / "=="
        if c[1] == "<=":
            return ite(cmp_("<", c[3], c[2]), b, a)
    if c[0] == "and":
        for k in c[1:]:
            if k[0] == "cmp" and k[1] == "<" and {a, b} == {k[2], k[3]} and a != b:
                rest = ONE
                for x in c[1:]:
                    if x != k:
                        rest = bool2("and", rest, x)
                return ite(rest, minmax("max" if a == k[3] else "min", a, b), b)
    if a == ONE and b == ZERO:
        return c
    return ("ite", c, a, b)


def itx(t):
    """(container, index) of an iterator value"""
    if t[0] == "begin":
        return t[1], ZERO
    if t[0] == "itr":
        return t[1], t[2]
    if t[0] == "end":
        return t[1], ("END",)
    if t[0] == "poly":
        bs = [m for m, c in t[1] if len(m) == 1 and m[0][0][0] in ("begin", "itr", "end") and m[0][1] == 1 and c == 1]
        if len(bs) == 1:
            b, x = itx(bs[0][0][0])
            return b, add(x, frompoly({m: c for m, c in t[1] if m != bs[0]}))
    return None


LIMMAX = ("call", "lim_max")
LIMMIN = neg(LIMMAX)


def minmax(k, *xs):
    drop = LIMMIN if k == "max" else LIMMAX
    if len(xs) > 1 and drop in xs:
        xs = [x for x in xs if x != drop] or [drop]
    s = set()
    for x in xs:
        if x[0] == "call" and x[1] == k:
            s |= set(x[2:])
        else:
            s.add(x)
    if len(s) == 1:
        return next(iter(s))
    return ("call", k) + tuple(sorted(s, key=key))


def subst(t, m):
    """Replace subterms (dict term->term), re-normalising."""
    if t in m:
        return m[t]
    h = t[0]
    if h in ("num", "str", "sym", "par", "this", "var", "glob", "bv", "bb", "sb", "null"):
        return t
    if h == "phi":
        # the value an element had at a loop's head: only positions inside its address are replaced
        if isinstance(t[2], tuple) and t[2][0] in ("idx", "fld"):
            m3 = {a: b for a, b in m.items() if a[0] in ("bv", "bb", "sb")}
            if m3:
                return ("phi", t[1], subst(t[2], m3))
        return t
    if h == "lam":
        m2 = {a: b for a, b in m.items() if t[1] not in set(subterms(a))}
        fv = fresh()
        return ("lam", fv, subst(subst(t[2], {t[1]: fv}), m2), subst(t[3], m))
    if h == "srt":
        m2 = {a: b for a, b in m.items() if not {t[1], t[4], t[5]} & set(subterms(a))}
        return ("srt", t[1], subst(t[2], m2), subst(t[3], m), t[4], t[5], subst(t[6], m2))
    if h in BINDERS:
        lo, hi = subst(t[4], m), subst(t[5], m)
        m2 = {a: b for a, b in m.items() if t[3] not in set(subterms(a))}
        fv = fresh()
        e = subst(subst(t[2], {t[3]: fv}), m2)
        return binder(h, t[1], e, {"bv": fv, "lo": lo, "hi": hi})
    if h == "poly":
        r = ZERO
        for mono, c in t[1]:
            x = ("num", c)
            for a, e in mono:
                b = subst(a, m)
                if e < 0:
                    for _ in range(-e):
                        x = div(x, b)
                else:
                    x = mul(x, powi(b, e))
            r = add(r, x)
        return r
    if h == "cmp":
        return cmp_(t[1], subst(t[2], m), subst(t[3], m))
    if h in ("and", "or"):
        r = subst(t[1], m)
        for x in t[2:]:
            r = bool2(h, r, subst(x, m))
        return r
    if h == "not":
        return not_(subst(t[1], m))
    if h == "ite":
        return ite(subst(t[1], m), subst(t[2], m), subst(t[3], m))
    if h == "call":
        a = [subst(x, m) if isinstance(x, tuple) else x for x in t[2:]]
        return call(t[1], a)
    return (h,) + tuple(subst(x, m) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in t[1:])


def rewrite(t, g, memo=None):
    """bottom-up rebuild, g applied at every node"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    R = lambda x: rewrite(x, g, memo)
    h = t[0]
    if h in ("num", "str", "sym", "par", "this", "var", "glob", "bv", "bb", "sb", "null", "loc"):
        r = t
    elif h == "phi":
        r = t
    elif h in BINDERS:
        fv = fresh()
        r = binder(h, t[1], R(subst(t[2], {t[3]: fv})), {"bv": fv, "lo": R(t[4]), "hi": R(t[5])})
    elif h == "poly":
        r = ZERO
        for mono, c in t[1]:
            x = ("num", c)
            for a, e in mono:
                b = R(a)
                if e < 0:
                    for _ in range(-e):
                        x = div(x, b)
                else:
                    x = mul(x, powi(b, e))
            r = add(r, x)
    elif h == "cmp":
        r = cmp_(t[1], R(t[2]), R(t[3]))
    elif h in ("and", "or"):
        r = R(t[1])
        for x in t[2:]:
            r = bool2(h, r, R(x))
    elif h == "not":
        r = not_(R(t[1]))
    elif h == "ite":
        r = ite(R(t[1]), R(t[2]), R(t[3]))
    elif h == "call":
        r = call(t[1], [R(x) if isinstance(x, tuple) else x for x in t[2:]])
    else:
        r = (h,) + tuple(R(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in t[1:])
    r = g(r)
    memo[t] = r
    return r


def subterms(t):
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or not x:
            continue
        if isinstance(x[0], str):
            yield x
            if x[0] == "poly":
                for mono, c in x[1]:
                    for a, e in mono:
                        st.append(a)
                continue
            st.extend(y for y in x[1:] if isinstance(y, tuple))


def _arith(t):
    t = re.sub(r"\b(const|volatile)\b|&", "", t).strip()
    return t in ("int", "unsigned int", "unsigned long", "long", "unsigned long long", "long long", "unsigned", "size_t", "std::size_t", "short", "char", "double", "float")


ADDR = ("par", "this", "fld", "idx", "glob", "loc", "var")


_fresh = [1000]


def fresh():
    _fresh[0] += 1
    return ("bv", _fresh[0])


def el(t):
    """coordinate k of the vector denoted by an address term, k implicit"""
    if t[0] in ADDR or t[0] == "lam":
        return ("el", t)
    if t[0] == "phi" and isinstance(t[2], tuple) and t[2][0] in ADDR and t[2][0] != "loc":
        return ("el", t)
    if t[0] == "obj" and t[1] in ("mltk::Point", "std::vector") and len(t) in (3, 4):
        return t[3] if len(t) == 4 else ZERO
    return t


def elval(t):
    """coordinate form of a point's value, gate by gate"""
    if t[0] == "ite":
        return ite(t[1], elval(t[2]), elval(t[3]))
    return el(t)


def phs_el(t, ph):
    """{el(ph)} when ph only occurs as the coordinates of a point"""
    if isinstance(t, tuple) and t:
        rest = subst(t, {("el", ph): ZERO})
        if rest != t and not any(x == ph for x in subterms(rest)):
            return {("el", ph)}
    return ()


def isvec(t):
    return any(x[0] == "el" for x in subterms(t))


def at_(b, k):
    if b[0] == "phi" and isinstance(b[2], tuple) and b[2][0] in ADDR:
        return ("phi", b[1], ("idx", b[2], k))
    return subst(b[2], {b[1]: k}) if b[0] == "lam" else ("idx", b, k)


def szof(b):
    return b[3] if b[0] == "lam" else ("size", b)


# functions answering a list of datasets
DATASETS = {"mltk::Data::splitSample", "mltk::Data::splitByClasses", "mltk::validation::kfoldsplit"}


def index(t, k):
    """coordinate k of a vector value"""
    if t[0] == "lam":
        return subst(t[2], {t[1]: k})
    if t[0] == "ite":
        return ite(index(t[1], k) if isvec(t[1]) else t[1], index(t[2], k), index(t[3], k))
    m = {x: at_(x[1], k) for x in subterms(t) if x[0] == "el"}
    if m:
        if any(y[0] in ("bb", "sb") for x in m for y in subterms(x)):
            return rewrite(t, lambda q: at_(q[1], k) if q[0] == "el" else q)
        return subst(t, m)
    if t[0] in ADDR:
        return ("idx", t, k)
    if t[0] == "ite":
        return ite(t[1], index(t[2], k), index(t[3], k))
    if t[0] == "obj" and t[1] in ("std::vector", "mltk::Point", "std::valarray"):
        return t[3] if len(t) == 4 else ("idx", t, k)
    if t[0] == "call" and (t[1] in DATASETS or t[1] == "mltk::Data::copy"):
        return ("idx", t, k)
    return t


def indexw(t, k):
    """coordinate k of a container's value, which may be the one it had at a loop's head"""
    if t[0] == "ite":
        return ite(t[1], indexw(t[2], k), indexw(t[3], k))
    if t[0] == "phi" and isinstance(t[2], tuple):
        return ("phi", t[1], ("idx", t[2], k))
    return index(t, k)


def height(t):
    return max([x[1] for x in subterms(t) if x[0] == "bb"], default=-1) + 1


def vred(kind, e):
    """reduction of a vector value over its coordinates"""
    bs = sorted({x[1] for x in subterms(e) if x[0] == "el"}, key=lambda b: (any(y[0] in ("bb", "sb") for y in subterms(b)), key(b)))
    if not bs:
        return None
    if any(y[0] in ("bb", "sb") for y in subterms(bs[0])):
        return None
    fv = fresh()
    return red(kind, index(e, fv), {"bv": fv, "lo": ZERO, "hi": szof(bs[0])})


def mono_split(e, bv):
    """[(factor free of bv, rest)] of a polynomial"""
    out = []
    for m, c in topoly(e).items():
        free = tuple(x for x in m if bv not in set(subterms(x[0])))
        rest = tuple(x for x in m if x not in free)
        out.append((frompoly({free: c}), frompoly({rest: Fraction(1)})))
    return out


def call(name, a):
    if name in ("fabs", "abs", "labs") and len(a) == 1:
        return absn(a[0])
    if name in ("max", "fmax") and len(a) == 2:
        return minmax("max", *a)
    if name in ("min", "fmin") and len(a) == 2:
        return minmax("min", *a)
    if name == "pow" and len(a) == 2:
        if a[1][0] == "num" and a[1][1].denominator == 1 and 0 <= a[1][1] <= 4:
            return powi(a[0], int(a[1][1]))
        if a[1] == num("0.5"):
            return call("sqrt", [a[0]])
    if name == "sqrt" and a[0][0] == "num" and a[0][1] in (0, 1):
        return a[0]
    if name == "hypot" and len(a) == 2:
        return call("sqrt", [add(powi(a[0], 2), powi(a[1], 2))])
    if name in ("plus",):
        return add(*a)
    return ("call", name) + tuple(a)


def deref(t):
    """memory denoted by dereferencing a pointer / iterator value"""
    if t[0] == "itr":
        if t[2][0] == "arg":
            _, kind, e, b, lo, hi = t[2]
            if e == ("idx", t[1], b) or t[1][0] == "lam" and e == subst(t[1][2], {t[1][1]: b}):
                return ("red", kind[:3], e, b, lo, hi)
        return ("idx", t[1], t[2])
    if t[0] == "begin":
        return ("idx", t[1], ZERO)
    if t[0] == "poly":
        bs = [m for m, c in t[1] if len(m) == 1 and m[0][0][0] in ("begin", "itr") and m[0][1] == 1 and c == 1]
        if len(bs) == 1:
            b = bs[0][0][0]
            rest = frompoly({m: c for m, c in t[1] if m != bs[0]})
            return ("idx", b[1], rest if b[0] == "begin" else add(b[2], rest))
    return t


def peel(t, ph):
    """t - ph, distributed over gates whose condition does not involve ph."""
    if t[0] == "ite" and not any(s == ph for s in subterms(t[1])):
        a, b = peel(t[2], ph), peel(t[3], ph)
        if a is None or b is None:
            return None
        return ite(t[1], a, b)
    return sub(t, ph)


ALGO = {"accumulate", "for_each", "transform", "count_if", "count", "inner_product", "all_of", "any_of", "none_of", "fill", "iota", "generate"}
RDALGO = {"accumulate", "count_if", "count", "inner_product", "all_of", "any_of", "none_of", "find", "find_if", "max_element", "min_element", "distance", "equal", "binary_search", "lower_bound", "upper_bound", "begin", "end", "size", "next", "prev", "advance", "search", "adjacent_find", "lexicographical_compare", "includes", "minmax_element", "make_pair", "back_inserter", "inserter", "min", "max"}
MATH = {"sqrt", "pow", "fabs", "abs", "exp", "log", "log2", "log10", "sin", "cos", "tan", "atan", "tanh", "max", "min", "fmax", "fmin", "floor", "ceil", "round", "fmod", "hypot", "isnan", "isinf"}
STDCONT = ("std::vector", "std::basic_string", "std::array", "std::deque", "std::map", "std::set", "std::unordered_map", "std::queue", "std::list", "std::initializer_list", "std::multimap", "std::__cxx11::basic_string")


def is_pt(t):
    return t.replace("const ", "").startswith("mltk::Point<")


def root(t):
    while t[0] in ("idx", "fld"):
        t = t[1]
    return t


def member(b, n):
    """the coordinates of a local point are the point"""
    if n["n"] == "x" and b[0] in ("loc", "fld", "idx") and "vector" in n["t"]:
        return b
    return ("fld", b, n["n"])


def cell(k):
    return isinstance(k, tuple) and bool(k) and k[0] in ("fld", "idx", "glob", "size", "par", "comp", "call", "phi", "out")


def prefix(a, b):
    """a denotes b or an object containing b"""
    while True:
        if a == b:
            return True
        if b[0] in ("idx", "fld", "size"):
            b = b[1]
        else:
            return False


ANY = ("any",)


def wild(t):
    if t[0] == "idx":
        return ("idx", wild(t[1]), ANY)
    if t[0] == "fld":
        return ("fld", wild(t[1]), t[2])
    return t


def eqw(a, b):
    if a == b or a == ANY or b == ANY:
        return True
    if a[0] == b[0] == "idx":
        return eqw(a[1], b[1]) and eqw(a[2], b[2])
    if a[0] == b[0] == "fld":
        return a[2] == b[2] and eqw(a[1], b[1])
    return False


def prefixw(a, b):
    while True:
        if eqw(a, b):
            return True
        if b[0] in ("idx", "fld", "size"):
            b = b[1]
        else:
            return False


def match(pat, t, qs):
    """bindings of the pattern variables that make pat equal to t"""
    b = {}

    def go(p, x):
        if p in qs:
            if p in b:
                return b[p] == x
            b[p] = x
            return True
        if p == x:
            for y in set(subterms(p)):
                if y in qs:
                    if b.get(y, y) != y:
                        return False
                    b[y] = y
            return True
        if p[0] in ("idx", "fld") and x[0] == p[0] and len(p) == len(x):
            return go(p[1], x[1]) and (p[2] == x[2] if p[0] == "fld" else go(p[2], x[2]))
        if p[0] == "poly":
            # v + c
            for q in qs:
                d = sub(p, q)
                if q not in set(subterms(d)):
                    return go(q, sub(x, d))
        return False
    return b if go(pat, t) else None


def injective(pat, bv):
    """distinct values of bv denote distinct cells"""
    while pat[0] in ("idx", "fld"):
        if pat[0] == "idx":
            for s in (1, -1):
                d = add(pat[2], bv, -s)
                if bv not in set(subterms(d)) and bv in set(subterms(pat[2])):
                    return True
        pat = pat[1]
    return False


def crosses(a, b, bv):
    """may a (in one iteration) and b (in a different one) denote the same cell?"""
    c2 = fresh()
    b = subst(b, {bv: c2})
    pa = pb = None
    while True:
        if a == b:
            break
        if a[0] != b[0] or a[0] not in ("idx", "fld") or a[0] == "fld" and a[2] != b[2]:
            return False
        if a[0] == "idx":
            d = sub(a[2], b[2])
            if d[0] == "num" and d[1] != 0:
                return False
            if d == sub(bv, c2) or d == sub(c2, bv):
                return False
            ia, ib = bv in set(subterms(a[2])), c2 in set(subterms(b[2]))
            if ia and not ib:
                x = add(d, bv, -1)
                if bv not in set(subterms(x)):
                    pa = neg(x)
            elif ib and not ia:
                x = add(d, c2)
                if c2 not in set(subterms(x)):
                    pb = x
        a, b = a[1], b[1]
    return pa is None or pb is None or pa != pb


def mayalias(a, b):
    """condition under which two element addresses denote the same cell; None when never"""
    c = ONE
    while True:
        if a == b:
            return c
        if a[0] != b[0] or a[0] not in ("idx", "fld") or (a[0] == "fld" and a[2] != b[2]):
            return None
        if a[0] == "idx":
            d = sub(a[2], b[2])
            if d[0] == "num":
                if d[1] != 0:
                    return None
            else:
                c = bool2("and", c, cmp_("==", a[2], b[2]))
        a, b = a[1], b[1]


def is_size(t):
    return t[0] == "call" and str(t[1]).endswith("size")


def modfields(f, stack=()):
    """names of the fields of *this a method may modify (through whatever they own); None: unknown"""
    r = getattr(f, "_modf", 0)
    if r != 0:
        return r
    if f.key in stack:
        return frozenset()
    out = set()
    N = f.N

    def rootof(i, d=0):
        """field name, "this", False (not reached through this) or None (unknown)"""
        if d > 30:
            return None
        i = f.strip(i, True)
        n = N[i]
        c = n["c"]
        if c == "CXXThisExpr":
            return "this"
        if c == "MemberExpr":
            if not n["k"]:
                return n["n"]
            r = rootof(n["k"][0], d + 1)
            return n["n"] if r == "this" else r
        if c == "ArraySubscriptExpr" or c == "UnaryOperator" and n["op"] in ("*", "&", "++", "--"):
            return rootof(n["k"][0], d + 1)
        if c == "CXXOperatorCallExpr" and n.get("a"):
            return rootof(n["a"][0], d + 1)
        if c == "CXXMemberCallExpr" and "o" in n:
            r = rootof(n["o"], d + 1)
            if r == "this":
                g = f.p.fns.get(n.get("f", {}).get("fk"))
                return None if g is None else True
            return r
        if c == "DeclRefExpr":
            if n.get("dk") == "parm":
                return False
            if n.get("dk") in ("var", "binding"):
                v = f.vars.get(n["id"])
                t = n.get("t", "")
                if v is None:
                    return None
                if v["t"].endswith("&") or ir.is_ptr_type(v["t"]) or "iterator" in v["t"]:
                    return rootof(v["init"], d + 1) if "init" in v else None
                return False
            return False
        if c in ("CXXNewExpr", "CXXNullPtrLiteralExpr", "InitListExpr", "LambdaExpr", "StringLiteral", "CXXConstructExpr", "CXXTemporaryObjectExpr", "IntegerLiteral", "FloatingLiteral", "CXXBoolLiteralExpr"):
            return False
        if c in ("CallExpr",):
            if any(f.callee(i) and f.callee(i)["fq"].endswith(x) for x in ("make_shared", "make_data", "make_point")):
                return False
            a = n.get("a", [])
            rs = {rootof(x, d + 1) for x in a}
            return False if rs <= {False} else None
        return None
    todo = []
    ok = True

    def add(i):
        r = rootof(i)
        if r is False:
            return True
        if r is None or r is True or r == "this":
            return False
        out.add(r)
        return True
    rngv = set()
    for x in f.walk_all() if False else f.walk():
        n = N[x]
        c = n["c"]
        if c == "CXXForRangeStmt" and N[n["k"][7] if len(n["k"]) > 7 else x] is not None and n["k"][1] >= 0:
            d = N[n["k"][1]].get("d")
            if d and "init" in d[0] and n.get("lvid") in f.vars:
                f.vars[n["lvid"]]["init"] = d[0]["init"]
    for x in f.walk():
        n = N[x]
        c = n["c"]
        t = []
        if c in ("BinaryOperator", "CompoundAssignOperator") and (n["op"] == "=" or c == "CompoundAssignOperator"):
            t = [n["k"][0]]
        elif c == "UnaryOperator" and n["op"] in ("++", "--"):
            t = [n["k"][0]]
        elif c == "CXXOperatorCallExpr" and (n.get("op") in ("++", "--", "<<", ">>") or (n.get("op", "").endswith("=") and n.get("op") not in ("==", "!=", "<=", ">="))):
            t = [n["a"][0]]
        elif c == "LambdaExpr":
            for k in ([n["lk"]] if "lk" in n else n.get("specs", [])):
                g = f.p.fns.get(k)
                if g is not None:
                    m = modfields(g, stack + (f.key,))
                    if m is None:
                        ok = False
                    else:
                        out.update(m)
        elif "f" in n and "a" in n:
            pk = n["f"].get("pk", "")
            o, a = f.args(x)
            t = [y for k, y in enumerate(a) if k < len(pk) and pk[k] in "RP"]
            if o is not None and not n["f"].get("cst") and "rec" in n["f"] and not n["f"].get("stat"):
                nm = n["f"]["fq"].split("::")[-1]
                if N[f.strip(o, True)]["c"] == "CXXThisExpr":
                    gs = f.p.call_targets(f, x)
                    if not gs:
                        ok = False
                    for g in gs:
                        m = modfields(g, stack + (f.key,))
                        if m is None:
                            ok = False
                        else:
                            out.update(m)
                elif nm not in ("begin", "end", "cbegin", "cend", "operator[]", "at", "operator*", "operator->", "get", "size", "front", "back", "data", "X", "Y", "Id", "Alpha", "find", "operator()", "operator bool"):
                    g = f.p.call_targets(f, x)
                    if len(g) == 1 and modfields(g[0], stack + (f.key,)) == frozenset():
                        pass
                    else:
                        t.append(o)
        for y in t:
            if not add(y):
                ok = False
        if not ok:
            break
    r = frozenset(out) if ok else None
    if not stack:
        f._modf = r
    return r


def modany(fs):
    """fields any of the possible callees may modify"""
    out = set()
    if not fs:
        return None
    for f in fs:
        m = modfields(f)
        if m is None:
            return None
        out |= m
    return frozenset(out)


class Ev:
    """Evaluates one function instance (root or inlined)."""

    def __init__(self, fn, env=None, this=("this",), depth=0, stack=(), inline=True, stop=()):
        self.fn = fn
        self.N = fn.N
        self.env = {} if env is None else env
        self.this = this
        self.depth = depth
        self.stack = stack + (fn.key,)
        self.at = {}          # node -> term (last evaluation)
        self.snap = {}        # lambda expression -> environment where it is created
        self.first = {}       # node -> term (first evaluation)
        self.encl = {}        # call -> enclosing loops at its first evaluation
        self.inline = inline
        self.stop = stop
        self.lams = {}
        self.stores = []      # (node, target term, value term, conds)
        self.loops = []
        self.conds = []
        self.conts = []
        self.fallc = None
        self.scat0 = {}
        self.scat = {}        # containers only added to in the current loop nest
        self.nl0 = self.nc0 = 0
        self.exits = []
        self.assume = set()   # indices taken to be in range
        self.bound = {}       # assumed index -> size of the container it runs over
        self.dirty = []       # (tag, root): cells of root not known any more
        self.trace = None     # accesses: (kind, address, value, conds, loops, fn, node)
        self.hook = None      # called as hook(ev, info, node) at the end of a loop's body
        self.tagp = "%s/%d" % (fn.n, fn.line)

    def tag(self, i):
        return "%s#%s" % (self.tagp, i)

    # ---------- entry ----------
    def run(self):
        fn = self.fn
        for i, p in enumerate(fn.params):
            if p["id"] not in self.env:
                self.env[p["id"]] = ("par", i, p["n"])
        for it in fn.d.get("inits", []):
            if "field" not in it:
                # base or delegating constructor: its member stores are ours
                e = fn.strip(it["e"])
                m = self.N[e]
                t = fn.p.fns.get(m.get("f", {}).get("fk"))
                if m["c"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and t is not None and self.inline and self.depth < 7 and t.key not in self.stack:
                    a = m.get("a", [])
                    self.inl(t, [self.ex(x) for x in a], a, self.this, node=e)
                    continue
            v = self.ex(it["e"])
            if "field" in it:
                self.store(("fld", self.this, it["field"]), v, it["e"])
        self.nl0, self.nc0, self.exits = len(self.loops), len(self.conds), []
        r, fall = self.seq([fn.body])
        ex = self.exits
        if ex and not fall:
            self.env = ex.pop()[1]
        for c, e in reversed(ex):
            self.env = self.merge(c, e, self.env)
        return r

    # ---------- statements: returns ret term or None; ('fall',) handled by tuple ----------
    # result: (ret, fall) ret = gated return value or None; fall = bool may fall through
    def block(self, stmts):
        """Execute statements; returns the gated return term (None if nothing returned on any path)."""
        r, fall = self.seq(stmts)
        return r

    def seq(self, stmts):
        for idx, s in enumerate(stmts):
            self.fallc = None
            r, fall = self.st(s)
            fc, self.fallc = self.fallc, None
            if not fall:
                return r, False
            if fc is not None:
                self.conds.append(fc)
                r2, fall2 = self.seq(stmts[idx + 1:])
                self.conds.pop()
                fc = fc if self.fallc is None else bool2("and", fc, self.fallc)
                self.fallc = fc
                if r is None:
                    return r2, fall2
                cond, val = r
                if not fall2:
                    return (ite(cond, val, r2) if r2 is not None else val), False
                if r2 is not None:
                    return (bool2("or", cond, r2[0]), ite(cond, val, r2[1])), True
                return r, True
            if r is not None:
                # conditional return: remaining statements happen under the negated condition
                cond, val = r
                self.conds.append(not_(cond))
                r2, fall2 = self.seq(stmts[idx + 1:])
                self.conds.pop()
                if not fall2:
                    return (ite(cond, val, r2) if r2 is not None else val), False
                if r2 is not None:
                    c2, v2 = r2
                    return (bool2("or", cond, c2), ite(cond, val, v2)), True
                return (cond, val), True
        return None, True

    def st(self, i):
        """-> (r, fall): fall=False: r is the return term (or None for throw/break...);
        fall=True: r is None or (cond, val) of a conditional early return."""
        if i is None or i < 0:
            return None, True
        n = self.N[i]
        c = n["c"]
        if c == "CompoundStmt":
            return self.seq([k for k in n["k"] if k >= 0])
        if c == "ReturnStmt":
            ks = [k for k in n["k"] if k >= 0]
            r = self.ex(ks[0]) if ks else ("void",)
            if r[0] == "obj":
                r = self.struct(r, ks[0])
            if len(self.loops) == self.nl0:
                c = ONE
                for x in self.conds[self.nc0:]:
                    c = bool2("and", c, x)
                self.exits.append((c, self.env))
                self.env = dict(self.env)
            return r, False
        if c == "DeclStmt":
            for d in n.get("d", []):
                self.fresh_loc(d["id"])
                if "init" in d:
                    v = self.ex(d["init"])
                else:
                    v = ("undef", d["n"])
                if d["t"].endswith("&"):
                    self.env[d["id"]] = self.lval(d["init"]) if "init" in d else v
                    self.env[("ref", d["id"])] = True
                else:
                    self.env[d["id"]] = v
                    if v[0] == "struct":
                        for x in v[2:]:
                            self.env[("fld", ("loc", d["id"], d["n"]), x[1])] = x[2]
                    if v[0] == "obj" and len(v) == 2:
                        self.defaults(("loc", d["id"], d["n"]), d["t"])
            return None, True
        if c == "IfStmt":
            k = n["k"]
            # init / condvar appear as DeclStmt children before cond in older dumps; handled by cond itself
            cond = self.cond(k[0])
            if cond[0] == "num":
                t_ = k[1] if cond[1] != 0 else (k[2] if len(k) > 2 else -1)
                return self.st(t_)
            return self.branch(cond, lambda: self.st(k[1]) if len(k) > 1 else (None, True),
                               lambda: self.st(k[2]) if len(k) > 2 and k[2] >= 0 else (None, True))
        if c in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"):
            self.loop(i)
            return None, True
        if c == "ContinueStmt" and self.conts and self.conts[-1] is not None:
            cs, c0 = self.conts[-1]
            x = ONE
            for y in self.conds[c0:]:
                x = bool2("and", x, y)
            cs.append((x, self.env))
            self.env = dict(self.env)
            return None, False
        if c in ("BreakStmt", "ContinueStmt", "GotoStmt"):
            return None, False
        if c == "SwitchStmt":
            r = self.switch(i)
            if r is not None:
                return r
            self.ex(n.get("cond", n["k"][0]))
            self.havoc(i)
            rets = [x for x in self.fn.walk(i) if self.N[x]["c"] == "ReturnStmt"]
            # gated over cases: opaque, but evaluate sub statements for their terms
            vals = []
            base = dict(self.env)
            for x in rets:
                self.env = dict(base)
                ks = self.fn.kids(x)
                if ks:
                    vals.append(self.ex(ks[0]))
            self.env = base
            for x in self.fn.walk(i):
                if self.N[x]["c"] not in ("ReturnStmt", "CompoundStmt", "CaseStmt", "DefaultStmt", "BreakStmt") and x in self.fn.parent and self.N[self.fn.parent[x]]["c"] in ("CompoundStmt", "CaseStmt", "DefaultStmt"):
                    if x != n.get("cond"):
                        try:
                            self.st(x)
                        except RecursionError:
                            pass
            self.env = base
            if vals:
                return (("sym", "switch%d" % i), ("call", "switch") + tuple(vals)), True
            return None, True
        if c == "CXXTryStmt":
            r = self.st(n["k"][0])
            base = self.env
            for k in n["k"][1:]:
                if k >= 0:
                    self.env = dict(base)
                    for b in self.fn.kids(k):
                        self.st(b)
            self.env = base
            return r
        if c in ("CaseStmt", "DefaultStmt", "LabelStmt", "AttributedStmt"):
            r = (None, True)
            for k in self.fn.kids(i):
                if self.N[k]["c"].endswith("Stmt"):
                    r = self.st(k)
            return r
        if c == "NullStmt":
            return None, True
        self.ex(i)
        s = self.fn.strip(i)
        m = self.N[s]
        if m["c"] == "CXXThrowExpr" or m.get("f", {}).get("noreturn"):
            return None, False
        return None, True

    def merge(self, cond, e1, e2):
        r = {}
        for k in list(dict.fromkeys(list(e1) + list(e2))):
            a, b = e1.get(k), e2.get(k)
            if a is not None and b is not None:
                r[k] = a if a == b else (ite(cond, a, b) if isinstance(a, tuple) and isinstance(b, tuple) else a)
            elif cell(k):
                if k[0] == "comp":
                    if a is None:
                        a = self.load_in(e1, k[1])
                    if b is None:
                        b = self.load_in(e2, k[1])
                else:
                    if a is None:
                        a = self.load_in(e1, k)
                    if b is None:
                        b = self.load_in(e2, k)
                r[k] = ite(cond, a, b)
            else:
                r[k] = a if a is not None else b
        return r

    def load_in(self, env, t):
        old, self.env = self.env, env
        r = self.load(t)
        self.env = old
        return r

    def branch(self, cond, th, el_):
        base = dict(self.env)
        nd = len(self.dirty)
        self.conds.append(cond)
        self.fallc = None
        r1, f1 = th()
        g1 = self.fallc if f1 else ZERO
        self.conds.pop()
        e1 = self.env
        self.env = dict(base)
        self.conds.append(not_(cond))
        self.fallc = None
        r2, f2 = el_()
        g2 = self.fallc if f2 else ZERO
        self.conds.pop()
        e2 = self.env
        if g1 is None and g2 is None:
            self.fallc = None
        else:
            self.fallc = bool2("or", bool2("and", cond, ONE if g1 is None else g1), bool2("and", not_(cond), ONE if g2 is None else g2))
        if f1 and f2:
            self.env = self.merge(cond, e1, e2)
            if r1 is None and r2 is None:
                return None, True
            # nested conditional returns
            cc, vv = num(0), ZERO
            if r1 is not None:
                cc, vv = bool2("and", cond, r1[0]), r1[1]
            if r2 is not None:
                c2 = bool2("and", not_(cond), r2[0])
                vv = r2[1] if r1 is None else ite(cond, vv, r2[1])
                cc = c2 if r1 is None else bool2("or", cc, c2)
            return (cc, vv), True
        if not f1 and not f2:
            self.env = e2
            if r1 is None:
                return r2, False
            if r2 is None:
                return r1, False
            return ite(cond, r1, r2), False
        if not f1:
            self.env = e2
            if r1 is None:
                return r2, True
            if r2 is not None:
                return (bool2("or", cond, bool2("and", not_(cond), r2[0])), ite(cond, r1, r2[1])), True
            return (cond, r1), True
        self.env = e1
        if r2 is None:
            return r1, True
        if r1 is not None:
            return (bool2("or", not_(cond), bool2("and", cond, r1[0])), ite(cond, r1[1], r2)), True
        return (not_(cond), r2), True

    def switch(self, i):
        """cases as a chain of conditions; None when control flow inside is not structured enough"""
        n = self.N[i]
        sel = self.ex(n.get("cond", n["k"][0]))
        body = n["k"][-1]
        groups = []            # [([values], has_default, stmts)]
        for k in self.fn.kids(body):
            vals, dfl = [], False
            m = self.N[k]
            lab = False
            while m["c"] in ("CaseStmt", "DefaultStmt"):
                lab = True
                if m["c"] == "CaseStmt":
                    if "v" not in m:
                        return None
                    vals.append(num(m["v"]))
                else:
                    dfl = True
                k = m["k"][-1]
                if k < 0:
                    break
                m = self.N[k]
            if lab:
                groups.append((vals, dfl, [k] if k >= 0 else []))
            elif groups:
                groups[-1][2].append(k)
            else:
                return None
        # statements executed from each entry, up to the first top-level break
        ends = ("BreakStmt", "ReturnStmt", "CXXThrowExpr")

        def flat(ss):
            out = []
            for x in ss:
                if self.N[x]["c"] == "CompoundStmt":
                    out += flat(self.fn.kids(x))
                else:
                    out.append(x)
            return out
        seqs = []
        for gi in range(len(groups)):
            out = []
            done = False
            for g in groups[gi:]:
                for x in flat(g[2]):
                    c = self.N[x]["c"]
                    if c == "BreakStmt":
                        done = True
                        break
                    out.append(x)
                    if c == "ReturnStmt":
                        done = True
                        break
                    if self.inner_break(x):
                        return None
                if done:
                    break
            seqs.append(out)
        default = [q for g, q in zip(groups, seqs) if g[1]]
        chain = [(g[0], q) for g, q in zip(groups, seqs) if g[0] and not g[1]]

        def run(k):
            if k == len(chain):
                return self.seq(default[0]) if default else (None, True)
            vs, q = chain[k]
            c = cmp_("==", sel, vs[0])
            for v in vs[1:]:
                c = bool2("or", c, cmp_("==", sel, v))
            if c[0] == "num":
                return self.seq(q) if c[1] != 0 else run(k + 1)
            return self.branch(c, lambda: self.seq(q), lambda: run(k + 1))
        return run(0)

    def inner_break(self, x):
        """a break inside x that leaves the enclosing switch"""
        st = [x]
        while st:
            y = st.pop()
            c = self.N[y]["c"]
            if c in ("BreakStmt", "ContinueStmt", "GotoStmt"):
                return True
            if c in ir.LOOPS or c in ("SwitchStmt", "LambdaExpr"):
                continue
            st += self.fn.kids(y)
        return False

    # ---------- loops ----------
    scan = 0

    def assigned(self, root):
        """variables and memory terms possibly assigned in the subtree."""
        self.scan += 1      # addresses are looked at only: nothing is assigned
        try:
            return self.assigned_(root)
        finally:
            self.scan -= 1

    def assigned_(self, root):
        vs, mem = set(), []
        for x in self.fn.walk(root):
            n = self.N[x]
            if n["c"] in ("BinaryOperator", "CompoundAssignOperator") and (n["op"] == "=" or n["c"] == "CompoundAssignOperator"):
                self._tgt(n["k"][0], vs, mem)
            elif n["c"] == "UnaryOperator" and n["op"] in ("++", "--"):
                self._tgt(n["k"][0], vs, mem)
            elif n["c"] == "CXXOperatorCallExpr" and (n.get("op") in ("++", "--") or (n.get("op", "").endswith("=") and n.get("op") not in ("==", "!=", "<=", ">="))):
                self._tgt(n["a"][0], vs, mem)
            elif n["c"] == "DeclStmt":
                for d in n.get("d", []):
                    vs.add(d["id"])
            elif "f" in n and "a" in n:
                pk = n["f"].get("pk", "")
                o, a = self.fn.args(x)
                for k, y in enumerate(a):
                    if k < len(pk) and pk[k] in "RP":
                        self._tgt(y, vs, mem)
                if o is not None and not n["f"].get("cst") and "rec" in n["f"]:
                    nm = n["f"]["fq"].split("::")[-1]
                    if nm not in ("reserve", "cbegin", "cend", "rbegin", "rend", "begin", "end", "operator[]", "at", "operator*", "operator->", "get", "size", "front", "back", "data", "X", "Y", "Id", "Alpha", "operator()"):
                        z = self.fn.strip(o, True)
                        g = self.fn.p.call_targets(self.fn, x)
                        ms = modany(g)
                        if ms is not None:
                            if ms:
                                b = self.this if self.N[z]["c"] == "CXXThisExpr" else self.deep(o)
                                mem.extend(("fld", b, q) for q in ms)
                        elif n["f"].get("rec", "").startswith(STDCONT) and self.N[z]["c"] == "DeclRefExpr":
                            mem.append(self.lval(z))
                        else:
                            self._tgt(o, vs, mem)
                if n["f"]["fq"].startswith("std::") and o is None:
                    for y in a:
                        z = self.fn.strip(y, True)
                        q = self.N[z]
                        if q["c"] == "CXXMemberCallExpr" and q.get("f", {}).get("fq", "").split("::")[-1] in ("begin", "end", "rbegin") and "o" in q and n["f"]["fq"].split("::")[-1] not in RDALGO:
                            mem.append(self.lval(q["o"]))
        return vs, mem

    def deep(self, o):
        """object denoted by the object argument of a call"""
        b = self.fn.strip(o)
        if ir.is_ptr_type(self.N[b].get("t", "")):
            return deref(self.ex(b))
        return self.lval(o)

    def _tgt(self, i, vs, mem):
        i = self.fn.strip(i, True)
        n = self.N[i]
        if n["c"] == "ConditionalOperator":
            self._tgt(n["k"][1], vs, mem)
            self._tgt(n["k"][2], vs, mem)
            return
        if n["c"] == "DeclRefExpr":
            if n.get("dk") in ("var", "parm", "slocal"):
                if self.env.get(("ref", n["id"])):
                    mem.append(self.env[n["id"]])
                else:
                    vs.add(n["id"])
        else:
            mem.append(self.lval(i))

    def havoc(self, rt):
        vs, mem = self.assigned(rt)
        for v in vs:
            if v in self.env:
                self.env[v] = self.phv(self.tag(rt), v)
        for m in mem:
            self.kill(m, rt)

    def phv(self, T, v):
        """the value a variable has at the head of loop T; a point's is known by its coordinates"""
        d = self.fn.vars.get(v) if not cell(v) else None
        if d is not None and is_pt(d.get("t", "")):
            return ("el", ("phi", T, ("loc", v, d["n"])))
        return ("phi", T, v)

    def killvars(self, vs, i):
        rs = {root(k[1] if k[0] in ("comp", "size") else k) for k in self.env if cell(k)}
        for r in rs:
            if r[0] == "loc" and r[1] in vs:
                self.kill(r, i)

    def kill(self, m, tag):
        """the memory reachable through m is not known any more"""
        if self.trace is not None and self.N[tag]["c"] not in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"):
            self.note("K", m, None, tag)
        tag = self.tag(tag)
        if m[0] not in ("fld", "idx", "loc", "par", "this", "glob", "phi", "out", "call", "size"):
            return
        if m[0] == "size":
            m = m[1]
        b = wild(m)
        for k in [k for k in self.env if cell(k)]:
            kk = k[1] if k[0] == "comp" else k
            if prefixw(b, kk) or prefixw(wild(kk), m) or prefixw(kk, b):
                del self.env[k]
        self.dirty.append((tag, b))

    def loop(self, i):
        n = self.N[i]
        c = n["c"]
        k = n["k"]
        fn = self.fn
        depth = len(self.loops)
        if c == "CXXForRangeStmt":
            for x in k[:3]:
                if x >= 0:
                    self.st(x)
            rng = self.range_term(i)
            self.env[n["lvid"]] = ("idx", rng, ("bv", depth))
            self.env[("ref", n["lvid"])] = True
            vs, mem = self.assigned(k[7])
            info = {"node": i, "bv": ("bv", depth), "lo": ZERO, "hi": ("size", rng), "body": k[7]}
            mine = self.scatters(info, [k[7]])
            mem = [m for m in mem if not any(prefix(b, m) for b in list(mine) + list(self.scat))]
            pre = dict(self.env)
            pred = list(self.dirty)
            T = self.tag(i)
            self.killvars(vs, i)
            for v in vs:
                if v in self.env:
                    self.env[v] = self.phv(T, v)
            for m in mem:
                self.kill(m, i)
            bv = ("bv", depth)
            self.env[n["lvid"]] = ("idx", rng, bv)
            self.env[("ref", n["lvid"])] = True
            self.scat.update(mine)
            self.scat0.update({b: (len(self.loops), len(self.conds)) for b in mine})
            self.secondary(vs, pre, info, -1, k[7])
            self.growing(pre, info, k[7])
            self.loops.append(info)
            self.body(k[7])
            self.loops.pop()
            self.finish(i, pre, vs, info, k[7], pred)
            self.scatflush(i, {b: self.scat[b] for b in mine}, k[7])
            return
        if c == "ForStmt":
            init, cnd, inc, body = k[:4]
            if init >= 0:
                self.st(init)
        elif c == "WhileStmt":
            init, cnd, inc, body = -1, k[0], -1, k[-1]
        else:
            init, cnd, inc, body = -1, k[1], -1, k[0]
        pre = dict(self.env)
        pred = list(self.dirty)
        vs, mem = set(), []
        for x in (cnd, inc, body):
            if x >= 0:
                a, b = self.assigned(x)
                vs |= a
                mem += b
        mine = self.scatters(None, [cnd, inc, body])
        mem = [m for m in mem if not any(prefix(b, m) for b in list(mine) + list(self.scat))]
        self.scat.update(mine)
        self.scat0.update({b: (len(self.loops), len(self.conds)) for b in mine})
        self.killvars(vs, i)
        for v in vs:
            if v in self.env:
                self.env[v] = self.phv(self.tag(i), v)
        for m in mem:
            self.kill(m, i)
        info = {"node": i, "body": body}
        # counted loop: v = lo; v < hi; v++   (cond/inc in any shape that normalises to it)
        iv = self.counted(cnd, inc, body, pre, vs, i)
        if iv:
            v, lo, hi, last = iv
            bv = ("bv", depth)
            self.env[v] = bv
            info.update(bv=bv, lo=lo, hi=hi, iv=v)
            if isinstance(last, tuple):
                self.env[v] = sub(last[1], bv) if last[0] == "down" else ("itr", last[1], bv)
            self.secondary(vs, pre, info, inc, body)
            self.growing(pre, info, body)
        if cnd >= 0:
            info["cond"] = self.cond(cnd)
        self.loops.append(info)
        self.body(body)
        if inc >= 0:
            self.ex(inc)
        self.loops.pop()
        self.finish(i, pre, vs, info, body, pred)
        self.scatflush(i, {b: self.scat[b] for b in mine}, body)
        if iv and isinstance(iv[3], tuple) and iv[3][0] == "down":
            self.env[iv[0]] = ("out", self.tag(i), iv[0], ("sym", "down"))
        elif iv and not self.has_brk(body):
            self.env[iv[0]] = iv[2] if iv[1] == ZERO and (iv[2][0] == "size" or is_size(iv[2])) else minmax("max", iv[1], iv[2]) if not isinstance(iv[3], tuple) else ("end", iv[3][1]) if iv[2] == ("size", iv[3][1]) else ("itr", iv[3][1], minmax("max", iv[1], iv[2]))

    def writes_of(self, v, roots):
        """nodes that may write variable v inside the given subtrees"""
        out = []
        fn = self.fn
        for r in roots:
            if r < 0:
                continue
            for z in fn.walk(r):
                q = self.N[z]
                t = []
                if q["c"] == "UnaryOperator" and q["op"] in ("++", "--", "&"):
                    t = [q["k"][0]]
                elif q["c"] in ("BinaryOperator", "CompoundAssignOperator") and (q["op"] == "=" or q["c"] == "CompoundAssignOperator"):
                    t = [q["k"][0]]
                elif q["c"] == "CXXOperatorCallExpr" and (q.get("op") in ("++", "--") or (q.get("op", "").endswith("=") and q.get("op") not in ("==", "!=", "<=", ">="))):
                    t = [q["a"][0]]
                elif q["c"] == "LambdaExpr":
                    if any(self.N[y].get("id") == v for y in fn.walk(z)):
                        t = []
                        out.append(z)
                elif "f" in q and "a" in q:
                    o, a = fn.args(z)
                    pk = q["f"].get("pk", "")
                    t = [y for k, y in enumerate(a) if k < len(pk) and pk[k] in "RP"]
                for y in t:
                    m = self.N[fn.strip(y, True)]
                    if m["c"] == "DeclRefExpr" and m.get("id") == v:
                        out.append(z)
        return out

    def step_of(self, z, v):
        """additive step of a single write node, or None"""
        fn = self.fn
        q = self.N[z]
        op = q.get("op")
        if op in ("++", "--") and q["c"] in ("UnaryOperator", "CXXOperatorCallExpr"):
            return ("k", 1 if op == "++" else -1)
        if q["c"] == "CompoundAssignOperator" and op in ("+=", "-="):
            return ("e", q["k"][1], 1 if op == "+=" else -1)
        if q["c"] == "BinaryOperator" and op == "=":
            r = self.N[fn.strip(q["k"][1], True)]
            if r["c"] == "BinaryOperator" and r["op"] == "%":
                # circular: v = (v + step) % m
                r2 = self.N[fn.strip(r["k"][0], True)]
                if r2["c"] == "BinaryOperator" and r2["op"] == "+":
                    for a, b in (r2["k"], r2["k"][::-1]):
                        if self.N[fn.strip(a, True)].get("id") == v and self.N[fn.strip(a, True)]["c"] == "DeclRefExpr":
                            return ("e", b, 1, r["k"][1])
                return None
            if r["c"] == "BinaryOperator" and r["op"] in ("+", "-"):
                a, b = r["k"]
                if self.N[fn.strip(a, True)].get("id") == v and self.N[fn.strip(a, True)]["c"] == "DeclRefExpr":
                    return ("e", b, 1 if r["op"] == "+" else -1)
                if r["op"] == "+" and self.N[fn.strip(b, True)].get("id") == v and self.N[fn.strip(b, True)]["c"] == "DeclRefExpr":
                    return ("e", a, 1)
        return None

    def secondary(self, vs, pre, info, inc, body):
        """variables advanced by an invariant step exactly once per iteration"""
        fn = self.fn
        info["sec"] = {}
        cont = any(self.N[x]["c"] == "ContinueStmt" for x in fn.walk(body))
        for v in vs:
            if v == info.get("iv") or v not in pre or not isinstance(pre[v], tuple):
                continue
            ws = self.writes_of(v, [inc, body])
            if len(ws) != 1:
                continue
            st = self.step_of(ws[0], v)
            if st is None:
                continue
            inbody = inc < 0 or ws[0] not in set(fn.walk(inc))
            if inbody and cont:
                continue
            ok = True
            for anc in fn.ancestors(ws[0]):
                if anc == info["node"]:
                    break
                if self.N[anc]["c"] in ("IfStmt", "SwitchStmt", "ConditionalOperator", "CXXTryStmt", "LambdaExpr") or self.N[anc]["c"] in ir.LOOPS or (self.N[anc]["c"] == "BinaryOperator" and self.N[anc]["op"] in ("&&", "||")):
                    ok = False
            if not ok:
                continue
            step = num(st[1]) if st[0] == "k" else None
            if step is None:
                # the step must not change inside the loop
                ids = {self.N[y].get("id") for y in fn.walk(st[1]) if self.N[y]["c"] == "DeclRefExpr"}
                if ids & set(vs) or any(q not in pre or q == self.N[info["node"]].get("lvid") for q in ids) or any(self.N[y].get("f") or self.N[y]["c"] in ("MemberExpr", "ArraySubscriptExpr") for y in fn.walk(st[1])):
                    continue
                step = self.ex(st[1])
                if st[2] < 0:
                    step = neg(step)
            p0 = pre[v]
            if len(st) == 4:
                if any(q not in pre or q in vs for q in (self.N[y].get("id") for y in fn.walk(st[3]) if self.N[y]["c"] == "DeclRefExpr")) or any(self.N[y].get("f") or self.N[y]["c"] in ("MemberExpr", "ArraySubscriptExpr") for y in fn.walk(st[3])):
                    continue
                m = self.ex(st[3])
                at = lambda k: ("call", "mod", add(p0, mul(step, k)), m)
                k = sub(info["bv"], info["lo"])
                small = p0 == ZERO or p0[:2] == ("call", "mod") and p0[3] == m
                self.env[v] = at(k) if small else ite(cmp_("==", k, ZERO), p0, at(k))
                end = sub(info["hi"], info["lo"])
                info["sec"][v] = ite(cmp_("<", ZERO, end), at(end), p0)
                continue
            if p0[0] == "begin":
                if step != ONE:
                    continue
                self.env[v] = ("itr", p0[1], sub(info["bv"], info["lo"]))
                info["sec"][v] = ("itr", p0[1], sub(info["hi"], info["lo"]))
            else:
                self.env[v] = add(p0, mul(step, sub(info["bv"], info["lo"])))
                info["sec"][v] = add(p0, mul(step, sub(info["hi"], info["lo"])))

    def growing(self, pre, info, body):
        """containers appended to exactly once per iteration: their size is an induction value"""
        fn = self.fn
        if any(self.N[x]["c"] in ("ContinueStmt", "BreakStmt", "ReturnStmt") for x in fn.walk(body)):
            return
        touched = {}
        for x in fn.walk(body):
            n = self.N[x]
            if n["c"] == "CXXMemberCallExpr" and n.get("f") and "o" in n and not n["f"].get("cst") and n["f"].get("rec", "").startswith(("std::vector", "std::deque")):
                nm = n["f"]["fq"].split("::")[-1]
                if nm in ("begin", "end", "operator[]", "at", "front", "back", "data", "reserve"):
                    continue
                o = fn.strip(n["o"], True)
                q = self.N[o]
                if q["c"] == "DeclRefExpr" and q.get("dk") in ("var", "parm") or q["c"] == "MemberExpr" and self.N[fn.strip(q["k"][0])]["c"] == "CXXThisExpr":
                    touched.setdefault(self.lval(o), []).append((x, nm))
        info["grow"] = {}
        for b, ws in touched.items():
            if len(ws) != 1 or ws[0][1] not in ("push_back", "emplace_back") or b[0] not in ("loc", "fld", "par"):
                continue
            ok = True
            for anc in fn.ancestors(ws[0][0]):
                if anc == info["node"]:
                    break
                if self.N[anc]["c"] in ("IfStmt", "SwitchStmt", "ConditionalOperator", "CXXTryStmt", "LambdaExpr") or self.N[anc]["c"] in ir.LOOPS or (self.N[anc]["c"] == "BinaryOperator" and self.N[anc]["op"] in ("&&", "||")):
                    ok = False
            decl = any(self.N[x]["c"] == "DeclStmt" and any(("loc", d["id"], d["n"]) == b for d in self.N[x].get("d", [])) for x in fn.walk(body))
            if not ok or decl:
                continue
            cur, self.env = self.env, pre
            p0 = self.sizeof(b)
            self.env = cur
            if any(x[0] == "phi" and x[1] == self.tag(info["node"]) for x in subterms(p0)):
                continue
            self.env[("size", b)] = add(p0, sub(info["bv"], info["lo"]))
            info["grow"][b] = add(p0, sub(info["hi"], info["lo"]))

    def counted(self, cnd, inc, body, pre, vs, i):
        if cnd < 0:
            return None
        fn = self.fn
        c = fn.strip(cnd)
        n = self.N[c]
        if n["c"] == "BinaryOperator" and n.get("op") == "&&":
            # both bounds hold: the nearer one ends the loop
            r1, r2 = self.counted(n["k"][0], inc, body, pre, vs, i), self.counted(n["k"][1], inc, body, pre, vs, i)
            if r1 is None or r2 is None or r1[0] != r2[0] or r1[1] != r2[1] or r1[3] is not None or r2[3] is not None:
                return None
            if any("!=" == self.N[q].get("op") for k in n["k"] for q in fn.walk(k)):
                return None
            return r1[0], r1[1], minmax("min", r1[2], r2[2]), None
        if n["c"] == "CXXOperatorCallExpr" and n.get("op") in ("!=", "<", "==") and len(n["a"]) == 2:
            a, b = n["a"]
            op = n["op"]
        elif n["c"] == "CXXRewrittenBinaryOperator":
            return None
        elif n["c"] != "BinaryOperator" or n["op"] not in ("<", "<=", "!=", ">", ">="):
            return None
        else:
            a, b = n["k"]
            op = n["op"]
        if op == "==":
            return None
        for x, y, o in ((a, b, op), (b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "!=": "!="}[op])):
            sx = fn.strip(x, True)
            m = self.N[sx]
            off = None
            if m["c"] == "BinaryOperator" and m["op"] in ("+", "-"):
                # v + e < y is v < y - e
                s1, s2 = m["k"]
                if m["op"] == "+" and self.N[fn.strip(s2, True)].get("id") in vs and self.N[fn.strip(s2, True)]["c"] == "DeclRefExpr":
                    s1, s2 = s2, s1
                if self.N[fn.strip(s1, True)]["c"] == "DeclRefExpr":
                    off = (s2, -1 if m["op"] == "+" else 1)
                    m = self.N[fn.strip(s1, True)]
            if m["c"] == "DeclRefExpr" and m.get("id") in vs and o in ("<", "<=", "!=", ">", ">="):
                v = m["id"]
                down = o in (">", ">=")
                # exactly one unit increment, outside nested control flow
                incs = []
                bad = False
                for z in list(fn.walk(inc) if inc >= 0 else []) + list(fn.walk(body)):
                    q = self.N[z]
                    t = None
                    if q["c"] == "UnaryOperator" and q["op"] in ("++", "--"):
                        t = q["k"][0]
                        unit = q["op"] == ("--" if down else "++")
                    elif q["c"] == "CXXOperatorCallExpr" and q.get("op") in ("++", "--", "+=", "-=", "="):
                        t = q["a"][0]
                        unit = q["op"] == "++" and not down
                    elif q["c"] in ("BinaryOperator", "CompoundAssignOperator") and (q["op"] == "=" or q["c"] == "CompoundAssignOperator"):
                        t = q["k"][0]
                        rhs = self.N[fn.strip(q["k"][1], True)]
                        unit = q["op"] == ("-=" if down else "+=") and rhs["c"] == "IntegerLiteral" and rhs["v"] == 1
                        if q["op"] == "=" and rhs["c"] == "BinaryOperator" and rhs["op"] == ("-" if down else "+"):
                            s1, s2 = (self.N[fn.strip(w, True)] for w in rhs["k"])
                            if s2["c"] == "DeclRefExpr" and not down:
                                s1, s2 = s2, s1
                            unit = s1.get("id") == v and s2.get("v") == 1
                    if t is None:
                        continue
                    tt = self.N[fn.strip(t, True)]
                    if tt["c"] == "DeclRefExpr" and tt.get("id") == v:
                        if not unit:
                            bad = True
                        incs.append(z)
                if bad or len(incs) != 1:
                    return None
                for anc in fn.ancestors(incs[0]):
                    if anc == i:
                        break
                    if self.N[anc]["c"] in ("IfStmt", "SwitchStmt", "ConditionalOperator") or self.N[anc]["c"] in ir.LOOPS or (self.N[anc]["c"] == "BinaryOperator" and self.N[anc]["op"] in ("&&", "||")):
                        return None
                ybase = fn.strip(y, True)
                hi = self.ex(y)
                if off is not None:
                    e = self.ex(off[0])
                    if any(s[0] == "phi" and s[1] == self.tag(i) for s in subterms(e)):
                        return None
                    hi = add(hi, e, off[1])
                lo = pre.get(v, ("undef", v))
                if any(s[0] == "phi" and s[1] == self.tag(i) for s in subterms(hi)):
                    return None
                if lo[0] == "begin" and hi[0] == "end" and lo[1] == hi[1]:
                    lo, hi, last = ZERO, ("size", lo[1]), lo
                elif lo[0] in ("begin", "itr") or hi[0] == "end" or lo[0] == "poly" and itx(lo) is not None:
                    a, b = itx(lo), itx(hi)
                    if a is None or b is None or a[0] != b[0] or ("END",) in set(subterms(a[1])) or down:
                        return None
                    last = ("begin", a[0])
                    lo, hi = a[1], subst(b[1], {("END",): ("size", a[0])}) if b[1] != ("END",) else ("size", a[0])
                else:
                    last = None
                if o == "<=":
                    hi = add(hi, ONE)
                if down:
                    if last is not None or lo[0] in ("undef", "begin", "end", "itr"):
                        return None
                    last = ("down", lo)
                    lo, hi = ZERO, add(sub(lo, hi), ONE if o == ">=" else ZERO)
                # an increment inside the body rather than the header must be its last statement
                if inc < 0 or incs[0] not in set(fn.walk(inc)):
                    ks = fn.kids(body)
                    if not ks or incs[0] not in set(fn.walk(ks[-1])):
                        return None
                return v, lo, hi, last
        return None

    def struct(self, v, i):
        """value of a local object: its known members"""
        i = self.fn.strip(i, True)
        while self.N[i]["c"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len(self.N[i].get("a", [])) == 1 and self.N[i].get("f", {}).get("ck") in ("copy", "move"):
            i = self.fn.strip(self.N[i]["a"][0], True)
        if self.N[i]["c"] != "DeclRefExpr":
            return v
        b = self.lval(i)
        if b[0] != "loc":
            return v
        fs = [("fv", k[2], x) for k, x in self.env.items() if cell(k) and k[0] == "fld" and k[1] == b]
        return ("struct", v[1]) + tuple(sorted(fs, key=lambda x: x[1])) if fs else v

    def defaults(self, loc, t):
        """members of a default-constructed local object hold their default initialisers"""
        r = self.fn.p.records.get(t.replace("const ", ""))
        if r is None or r.get("user_dc"):
            return
        for x in r["fields"]:
            if "iv" in x:
                self.env[("fld", loc, x["n"])] = num(Fraction(x["iv"]))
        for b in r["bases"]:
            self.defaults(loc, b)

    def has_brk(self, body):
        st = [body]
        while st:
            y = st.pop()
            c = self.N[y]["c"]
            if c in ("BreakStmt", "ReturnStmt", "GotoStmt", "CXXThrowExpr"):
                return True
            if c in ir.LOOPS or c == "SwitchStmt":
                if any(self.N[x]["c"] in ("ReturnStmt", "GotoStmt", "CXXThrowExpr") for x in self.fn.walk(y)):
                    return True
                continue
            if c == "LambdaExpr":
                continue
            st += self.fn.kids(y)
        return False

    def finish(self, i, pre, vs, info, body, pred=None):
        """Recognise reductions acc = acc + e / max / min; otherwise the value after the loop is opaque.
        Element stores indexed by the loop variable become array comprehensions."""
        T = self.tag(i)
        brk = self.has_brk(body)
        bv0 = info.get("bv")
        sm = lambda c: c if isinstance(c, tuple) and len(repr(c)) < 4000 else ("sym", "big")
        best = {}
        own = {}
        if bv0 is not None and not brk and pred is not None:
            # a cell that only this iteration writes still holds its value from before the loop
            ch = [k[1] if k[0] == "comp" else k for k, v in self.env.items() if cell(k) and k[0] != "size" and not (k in pre and pre[k] == v)]
            for k in ch:
                if k[0] in ("idx", "fld") and bv0 in set(subterms(k)) and injective(k, bv0) and not any(root(o) == root(k) and o != k and crosses(k, o, bv0) for o in ch) and not any(d[0] != T and prefixw(d[1], k) for d in self.dirty[len(pred):]):
                    dd, self.dirty = self.dirty, pred
                    p0 = self.load_in(pre, k)
                    self.dirty = dd
                    if not any(x[0] == "phi" and x[1] == T for x in subterms(p0)):
                        own[("phi", T, k)] = p0
            if own:
                for k, v in list(self.env.items()):
                    if isinstance(v, tuple) and v and any(x in own for x in subterms(v)):
                        self.env[k] = subst(v, {**own, **{("el", h): elval(p0) for h, p0 in own.items()}})
        if bv0 is not None and not brk:
            for v in list(vs) + [k for k in self.env if cell(k) and k[0] in ("fld", "idx")]:
                cur = self.env.get(v)
                ph = self.phv(T, v)
                if isinstance(cur, tuple) and cur and ph in set(subterms(cur)):
                    b = self.bestof(ph, cur)
                    if b:
                        p0 = pre.get(v)
                        if cell(v):
                            dd = self.dirty
                            if pred is not None:
                                self.dirty = pred
                            p0 = self.load_in(pre, v)
                            self.dirty = dd
                            if p0[0] == "phi" and p0[1] == T:
                                continue
                        best[ph] = (b[0], b[1], p0)
        for v in vs:
            if v not in pre or v == info.get("iv"):
                continue
            if v in info.get("sec", {}) and not brk:
                self.env[v] = info["sec"][v]
                continue
            ph = self.phv(T, v)
            cur = self.env.get(v)
            res = None
            if cur == ph:
                res = pre[v]
            elif "bv" in info and not brk and isinstance(cur, tuple):
                res = self.reduction(ph, cur, elval(pre[v]) if ph[0] == "el" and isinstance(pre[v], tuple) else pre[v], info)
                if res is None:
                    res = self.companion(ph, cur, pre[v], best, info, T)
                if res is None and not any(x[0] == "phi" and x[1] == T for x in subterms(cur)) and not (cur[0] in ADDR or cur[0] in ("itr", "begin", "obj", "lambda")):
                    # overwritten in every iteration: the last one's value
                    res = ite(cmp_("<", info["lo"], info["hi"]), subst(cur, {info["bv"]: add(info["hi"], num(-1))}), pre[v]) if isinstance(pre[v], tuple) else None
            self.env[v] = res if res is not None else ("out", T, v, sm(cur))
        # memory
        changed = [k[1] if k[0] == "comp" else k for k, v in self.env.items() if cell(k) and k[0] != "size" and not (k in pre and pre[k] == v)] if bv0 is not None else []
        clash = {a for a in changed for b in changed if a is not b and a != b and root(a) == root(b) and crosses(a, b, bv0)}
        new = {}
        post, self.env = self.env, pre
        d1 = self.dirty
        if pred is not None:
            self.dirty = pred
        bv = info.get("bv")
        lost = []
        for m, cur in post.items():
            if not cell(m) or (m in pre and pre[m] == cur):
                continue
            pat = m[1] if m[0] == "comp" else m
            qs = m[2] if m[0] == "comp" else ()
            ph = ("phi", T, pat)
            phs = {s for s in subterms(cur) if s[0] == "phi" and s[1] == T} if isinstance(cur, tuple) else None
            inb = bv is not None and bv in set(subterms(pat))
            if m[0] == "size" and m[1] in info.get("grow", {}) and not brk:
                new[m] = info["grow"][m[1]]
                continue
            if bv is None or brk or not isinstance(cur, tuple):
                lost.append((m, pat, cur))
                continue
            if inb:
                if phs - {ph} or m[0] == "size" or pat in clash or not injective(pat, bv):
                    lost.append((m, pat, cur))
                    continue
                p0 = self.load(pat)
                v = subst(cur, {ph: p0, ("el", ph): elval(p0)}) if phs else cur
                new[("comp", pat, qs + ((bv, info["lo"], info["hi"]),))] = v
                continue
            if phs - {ph}:
                r = self.companion(ph, cur, self.load(pat), best, info, T) if m[0] != "comp" and m[0] != "size" else None
                if r is not None:
                    new[m] = r
                    continue
                lost.append((m, pat, cur))
                continue
            if not phs and (bv not in set(subterms(cur))) and not any(bv in set(subterms(x)) for q in qs for x in q):
                # the same value whenever the body runs
                new[m] = cur if self.nonempty(info) else ite(cmp_("<", info["lo"], info["hi"]), cur, self.load(pat))
                continue
            if not any(bv in set(subterms(x)) for q in qs for x in q):
                p0 = self.load(pat)
                if ("el", ph) in phs_el(cur, ph):
                    # a point held in memory: reduced coordinate by coordinate
                    r = self.reduction(("el", ph), cur, elval(p0), info)
                else:
                    r = self.reduction(ph, cur, p0, info)
                if r is not None:
                    new[m] = r
                    continue
            lost.append((m, pat, cur))
        self.dirty = d1
        self.env = post
        # cells of an earlier iteration are gone; what was known before the loop stays only if untouched
        known = {}
        for k, v in post.items():
            if not cell(k) or (k in pre and pre[k] == v):
                known[k] = v
        if pred is not None:
            roots_new = [k[1] if k[0] == "comp" else k for k in new]
            lostr = [p for _, p, _ in lost]
            keep = list(pred)
            for d in self.dirty[len(pred):]:
                if d[0] == T and any(prefixw(d[1], p) for p in roots_new) and not any(prefixw(d[1], p) or prefixw(wild(p), d[1]) for p in lostr):
                    # every write of the loop under this root is accounted for: the rest keeps its value
                    for k, v in pre.items():
                        if cell(k) and k not in known:
                            kk = k[1] if k[0] == "comp" else k
                            if prefixw(d[1], kk) or prefixw(wild(kk), d[1]):
                                known[k] = v
                else:
                    keep.append(d)
            self.dirty = keep
        order = {k: v for k, v in pre.items() if k in known}
        order.update(known)
        self.env = order
        for k, v in new.items():
            self.env.pop(k, None)
            if k[0] == "comp":
                for c in [c for c in self.env if cell(c) and c[0] in ("idx", "fld")]:
                    b = match(k[1], c, [q[0] for q in k[2]])
                    if b is None:
                        continue
                    cond = ONE
                    for q, lo, hi in k[2]:
                        x = b.get(q)
                        if lo is None:
                            continue
                        if x is None or not self.inrange(x, subst(lo, b), subst(hi, b)):
                            cond = bool2("and", cond, bool2("and", cmp_("<=", subst(lo, b), x or ("sym", "q")), cmp_("<", x or ("sym", "q"), subst(hi, b))))
                    self.env[c] = ite(cond, subst(v, b), self.env[c])
            self.env[k] = v
        for m, p, cur in lost:
            if not (bv is not None and bv in set(subterms(p))) and m[0] != "comp":
                self.env[m] = ("out", T, ("sym", "mem"), sm(cur))

    # ---------- containers only added to ----------
    def scatters(self, info, roots):
        """containers whose only use in this loop nest is V[..] += e, at indices that are not just the counter"""
        fn = self.fn
        uses = {}
        for r in roots:
            if r < 0:
                continue
            for x in fn.walk(r):
                n = self.N[x]
                if n["c"] == "DeclRefExpr" and n.get("dk") in ("var", "parm") or n["c"] == "MemberExpr" and n["k"] and self.N[fn.strip(n["k"][0])]["c"] == "CXXThisExpr":
                    uses.setdefault(n.get("id") if n["c"] == "DeclRefExpr" else n["n"], []).append(x)
        out = {}
        steady = self.steady(roots)
        lam = [x for r in roots if r >= 0 for x in fn.walk(r) if self.N[x]["c"] == "LambdaExpr"]
        calls = [x for r in roots if r >= 0 for x in fn.walk(r) if "f" in self.N[x] and "a" in self.N[x]]
        for v, xs in uses.items():
            tg, ok = [], True
            for x in xs:
                y, idx = x, []
                while True:
                    q = fn.parent.get(y)
                    if q is None:
                        break
                    m = self.N[q]
                    if m["c"] in ir.TRANSPARENT:
                        y = q
                        continue
                    if m["c"] == "CXXOperatorCallExpr" and m.get("op") == "[]" and m["a"][0] == y:
                        idx.append(m["a"][1])
                        y = q
                        continue
                    if m["c"] == "ArraySubscriptExpr" and m["k"][0] == y:
                        idx.append(m["k"][1])
                        y = q
                        continue
                    break
                m = self.N[q] if q is not None else {"c": ""}
                if not idx and m["c"] in ("MemberExpr", "CXXMemberCallExpr") and (m.get("n") or m.get("f", {}).get("fq", "").rsplit("::", 1)[-1]) in ("size", "empty"):
                    continue
                add_ = (m["c"] == "CompoundAssignOperator" and m["op"] in ("+=", "-=") or m["c"] == "UnaryOperator" and m["op"] in ("++", "--")) and m["k"][0] == y
                if idx and add_:
                    tg.append(idx)
                else:
                    ok = False
                    break
            if not ok or not tg:
                continue
            plain = lambda e: self.N[fn.strip(e, True)]["c"] == "DeclRefExpr" and self.N[fn.strip(e, True)].get("id") not in steady
            if all(plain(e) for i in tg for e in i) and len({tuple(self.N[fn.strip(e, True)].get("id") for e in i) for i in tg}) == 1:
                continue
            base = self.lval(xs[0])
            if base[0] not in ("loc", "fld", "par"):
                continue
            if lam and any(any(self.N_lam(l, v)) for l in lam):
                continue
            if base[0] == "fld" and any(self.mentions(c, base[2]) for c in calls):
                continue
            if any(prefix(b, base) or prefix(base, b) for b in self.scat):
                continue
            out[base] = []
        return out

    def steady(self, roots):
        """variables declared inside a loop body, outside for headers, and never modified afterwards"""
        fn = self.fn
        decl, bad = set(), set()
        for r in roots:
            if r < 0:
                continue
            for x in fn.walk(r):
                n = self.N[x]
                if n["c"] == "DeclStmt":
                    q = fn.parent.get(x)
                    m = self.N[q] if q is not None else {"c": ""}
                    if m["c"] in ("CompoundStmt", "CaseStmt", "CXXForRangeStmt"):
                        decl |= {d["id"] for d in n["d"] if not d["n"].startswith("__")}
                elif n["c"] in ("BinaryOperator", "CompoundAssignOperator") and n.get("op", "").endswith("=") and n.get("op") not in ("==", "<=", ">=", "!="):
                    bad.add(self.N[fn.strip(n["k"][0], True)].get("id"))
                elif n["c"] == "UnaryOperator" and n.get("op") in ("++", "--", "&"):
                    bad.add(self.N[fn.strip(n["k"][0], True)].get("id"))
        return decl - bad - {None}

    def N_lam(self, l, v):
        for k in ([self.N[l]["lk"]] if "lk" in self.N[l] else self.N[l].get("specs", [])):
            g = self.fn.p.fns.get(k)
            if g is None:
                yield True
            else:
                for x in g.walk():
                    if g.N[x].get("id") == v or g.N[x].get("n") == v:
                        yield True

    def mentions(self, c, name):
        ts = self.fn.p.call_targets(self.fn, c)
        for k in self.fn.p.reachable(ts):
            g = self.fn.p.fns[k]
            if any(n["c"] == "MemberExpr" and n["n"] == name for n in g.N):
                return True
        return False

    def scathit(self, node, d):
        """record an addition to an accumulated container"""
        if not self.scat:
            return False
        lv = self.lval(node)
        for b in self.scat:
            if b != lv and prefix(b, lv):
                l0, c0 = self.scat0[b]
                self.scat[b].append((lv, d, tuple(self.conds[c0:]), tuple(self.loops[l0:])))
                return True
        return False

    def scatflush(self, i, done, body):
        T = self.tag(i)
        for b, recs in done.items():
            self.scat.pop(b)
            self.scat0.pop(b)
            ok = not self.has_brk(body)
            depth = None
            tot = None
            pats = []
            for lv, d, cs, ls in recs:
                ix, a = [], lv
                while a != b and a[0] == "idx":
                    ix.append(a[2])
                    a = a[1]
                if a != b or depth not in (None, len(ix)):
                    ok = False
                    break
                depth = len(ix)
                pats.append((list(reversed(ix)), d, cs, ls))
                tags = {self.tag(l["node"]) for l in ls}
                if any("bv" not in l or self.has_brk(l.get("body", body)) for l in ls) or any(s[0] in ("phi", "out") and s[1] in tags for t in list(ix) + [d] + list(cs) for s in subterms(t)):
                    ok = False
                    break
            if not recs:
                continue
            if not ok:
                self.kill(b, i)
                continue
            qs = [fresh() for _ in range(depth)]
            pat = b
            for q in qs:
                pat = ("idx", pat, q)
            self.assume |= set(qs)
            v = self.load(pat)
            self.assume -= set(qs)
            for ix, d, cs, ls in pats:
                c = ONE
                for x in cs:
                    c = bool2("and", c, x)
                for q, x in zip(qs, ix):
                    c = bool2("and", c, cmp_("==", q, x))
                e = ite(c, d, ZERO)
                for l in reversed(ls):
                    e = red("sum", e, l)
                v = add(v, e)
            sz = [(k, x) for k, x in self.env.items() if cell(k) and k[0] == "size" and prefix(b, k[1])]
            self.dropcells(b)
            for k, x in sz:
                self.env[k] = x
            self.env[("comp", pat, tuple((q, None, None) for q in qs))] = v

    def body(self, b):
        """one iteration; paths that continue early are joined at the end"""
        self.conts.append(([], len(self.conds)))
        self.fallc = None
        r, fall = self.st(b)
        self.fallc = None
        cs, _ = self.conts.pop()
        if cs and not fall:
            self.env = cs.pop()[1]
        for c, e in reversed(cs):
            self.env = self.merge(c, e, self.env)
        if self.hook is not None:
            self.hook(self, self.loops[-1] if self.loops else {}, b)

    def nonempty(self, info):
        d = sub(info["hi"], info["lo"])
        return d[0] == "num" and d[1] > 0

    def bestof(self, ph, cur):
        """(kind, e) when cur = max/min(ph, e), possibly under a condition free of ph"""
        def has(x):
            return ph in set(subterms(x))
        cur = splitcond(ph, cur)
        if cur[0] == "call" and cur[1] in ("max", "min") and ph in cur[2:]:
            rest = [x for x in cur[2:] if x != ph]
            if not any(has(x) for x in rest):
                return cur[1], minmax(cur[1], *rest)
        if cur[0] == "ite" and not has(cur[1]):
            for x, y, pos in ((cur[2], cur[3], True), (cur[3], cur[2], False)):
                b = self.bestof(ph, x) if y == ph else None
                if b:
                    neu = LIMMIN if b[0] == "max" else LIMMAX
                    return b[0], ite(cur[1], b[1], neu) if pos else ite(cur[1], neu, b[1])
        return None

    def companion(self, ph, cur, init, best, info, T):
        """value updated together with a running maximum / minimum"""
        def isph(x):
            return x[0] == "phi" and x[1] == T
        if cur[0] != "ite":
            return None
        for upd, keep, pos in ((cur[2], cur[3], True), (cur[3], cur[2], False)):
            if keep != ph or any(isph(x) for x in subterms(upd)):
                continue
            cs = cur[1] if pos else not_(cur[1])
            cs = cs[1:] if cs[0] == "and" else (cs,)
            for pb, (kind, e, p0) in best.items():
                hit = [c for c in cs if pb in set(subterms(c))]
                if len(hit) != 1 or hit[0][0] != "cmp":
                    continue
                c = hit[0]
                rest = ONE
                for x in cs:
                    if x != c:
                        rest = bool2("and", rest, x)
                if any(isph(x) for x in subterms(rest)):
                    continue
                cand = c[3] if kind == "max" else c[2]
                old = c[2] if kind == "max" else c[3]
                if c[1] not in ("<", "<=") or old != pb:
                    continue
                neu = LIMMIN if kind == "max" else LIMMAX
                if ite(rest, cand, neu) != e:
                    continue
                last = c[1] == "<="
                arg = binder("arg", kind + ("l" if last else ""), e, info)
                ext = red(kind, e, info)
                if p0 is None or any(isph(x) for x in subterms(p0)):
                    continue
                won = cmp_("<=" if last else "<", *((p0, ext) if kind == "max" else (ext, p0)))
                return ite(won, subst(upd, {info["bv"]: arg}), init)
        return None

    def lastset(self, t, ph, init, info):
        """if(c(i)) x = v(i): the value set by the last i that fulfils c"""
        if t[0] != "ite" or ph not in t[2:] or not isinstance(init, tuple) or info.get("hi") is None or ph[0] == "el":
            return None
        c, v = (t[1], t[2]) if t[3] == ph else (not_(t[1]), t[3])
        if v[0] in ADDR and v[0] != "idx" or v[0] in ("itr", "begin", "end", "obj", "lambda", "str") or init[0] in ("obj", "itr", "begin", "str", "undef"):
            return None
        if any(x[0] == "phi" and x[1] == ph[1] or x[0] in ("out", "sym", "after") for x in subterms(c)) or any(x[0] == "phi" and x[1] == ph[1] for x in subterms(v)):
            return None
        if info["bv"] not in set(subterms(c)) or info["bv"] not in set(subterms(v)):
            return None
        last = binder("arg", "maxl", ite(c, ONE, ZERO), info)
        return ite(bool2("and", cmp_("<", info["lo"], info["hi"]), subst(c, {info["bv"]: last})), subst(v, {info["bv"]: last}), init)

    def position(self, t, ph, init, info):
        """if(f(i) < f(best)) best = i: the position of the smallest or largest f"""
        bv, lo, hi = info.get("bv"), info.get("lo"), info.get("hi")
        if t[0] != "ite" or lo is None or hi is None or not isinstance(init, tuple) or init not in (lo, sub(lo, ONE)):
            return None
        c = t[1] if t[2:] == (bv, ph) else not_(t[1]) if t[2:] == (ph, bv) else None
        if c is None or c[0] != "cmp" or c[1] not in ("<", "<="):
            return None

        def inside(x):
            """best lies in the range that is searched"""
            if x[0] == "cmp" and (x == cmp_("<", ph, hi) or x == cmp_("<=", init, ph) or init[0] == "num" and x == cmp_("<=", ZERO, ph) and init[1] >= 0):
                return ONE
            return x
        a, b = (rewrite(z, inside) for z in c[2:])
        for f, g, kind in ((a, b, "min"), (b, a, "max")):
            if ph in set(subterms(f)) or bv in set(subterms(g)) or subst(g, {ph: bv}) != f or bv not in set(subterms(f)):
                continue
            return binder("arg", kind + ("l" if c[1] == "<=" else ""), f, dict(info, lo=init))
        return None

    def reduction(self, ph, cur, init, info):
        t = splitcond(ph, cur)
        # peel conditional update
        def has(x):
            return any(s == ph for s in subterms(x))
        if t[0] == "ite":
            if t[2] == ph and t[3] != ph:
                cond, upd, inv = t[1], t[3], True
            elif t[3] == ph:
                cond, upd, inv = t[1], t[2], False
            else:
                cond = None
            if cond is not None:
                if not has(cond) and has(upd):
                    d = sub(upd, ph)
                    if not has(d):
                        e = ite(cond, ZERO, d) if inv else ite(cond, d, ZERO)
                        return add(init, red("sum", e, info))
        if t[0] == "call" and t[1] in ("max", "min") and ph in t[2:]:
            rest = [x for x in t[2:] if x != ph]
            if not any(has(x) for x in rest):
                e = minmax(t[1], *rest)
                return minmax(t[1], init, red(t[1], e, info)) if init[0] != "num" or True else None
        if t[0] == "ite" and not has(t[1]):
            # conditional maximum / minimum
            for x, y, pos in ((t[2], t[3], True), (t[3], t[2], False)):
                if y == ph and x[0] == "call" and x[1] in ("max", "min") and ph in x[2:] and not any(has(z) for z in x[2:] if z != ph):
                    e = minmax(x[1], *[z for z in x[2:] if z != ph])
                    neu = LIMMIN if x[1] == "max" else LIMMAX
                    e = ite(t[1], e, neu) if pos else ite(t[1], neu, e)
                    return minmax(x[1], init, red(x[1], e, info))
        r = self.position(t, ph, init, info)
        if r is not None:
            return r
        d = peel(t, ph)
        if d is not None and not has(d):
            return add(init, red("sum", d, info))
        r = self.lastset(t, ph, init, info)
        if r is not None:
            return r
        q = topoly(t)
        if len(q) == 1:
            (m, co), = q.items()
            if (ph, 1) in m:
                rest = frompoly({tuple(x for x in m if x != (ph, 1)): co})
                if not has(rest):
                    return mul(init, red("prod", rest, info))
        return None

    def range_term(self, i):
        n = self.N[i]
        # __range variable initialiser
        d = self.N[n["k"][1]].get("d") if n["k"][1] >= 0 else None
        if d and "init" in d[0]:
            return self.lval(d[0]["init"])
        return ("sym", "range%d" % i)

    # ---------- stores ----------
    def note(self, kind, t, v, node):
        if self.trace is not None:
            self.trace.append((kind, t, v, tuple(self.conds), tuple((l.get("bv"), l.get("lo"), l.get("hi")) for l in self.loops), self.fn, node))

    def store(self, t, v, node):
        self.note("W", t, v, node)
        self.stores.append((node, t, v, tuple(self.conds), tuple((l.get("bv"), l.get("lo"), l.get("hi")) for l in self.loops)))
        for k in [k for k in self.env if cell(k) and k != t]:
            kk = k[1] if k[0] == "comp" else k
            if prefix(t, kk) or (kk[0] == "size" and t[0] != "size" and kk[1] != t and prefix(t, kk[1])):
                # part of the overwritten object
                del self.env[k]
            elif k[0] == "idx" and t[0] == "idx":
                c = mayalias(k, t)
                if c is not None and c != ZERO:
                    self.env[k] = ite(c, v, self.env[k])
        self.env.pop(t, None)
        self.env[t] = v

    def assign(self, target, v, node):
        if self.scan:
            return
        i = self.fn.strip(target, True)
        n = self.N[i]
        if n["c"] == "DeclRefExpr" and n.get("dk") in ("var", "parm", "slocal", "binding"):
            if self.env.get(("ref", n["id"])):
                self.store(self.env[n["id"]], v, node)
            elif n.get("dk") == "parm" and self.ptype(n["id"]).endswith("&") and isinstance(self.env.get(n["id"]), tuple):
                self.store(self.env[n["id"]] if self.env[n["id"]][0] != "par" else self.env[n["id"]], v, node)
                if self.env[n["id"]][0] == "par":
                    pass
            else:
                self.note("W", ("loc", n["id"], n["n"]), v, node)
                self.fresh_loc(n["id"])
                self.env[n["id"]] = v
        elif n["c"] == "ConditionalOperator":
            # (c ? a : b) = v sets a or b
            cd = self.ex(n["k"][0])
            for k, c in ((n["k"][1], cd), (n["k"][2], not_(cd))):
                if c == ZERO:
                    continue
                old = self.ex(k)
                if c != ONE:
                    self.conds.append(c)
                self.assign(k, under(c, v) if c == ONE else ite(c, under(c, v), old), node)
                if c != ONE:
                    self.conds.pop()
        else:
            self.store(self.lval(i), v, node)

    def fresh_loc(self, vid):
        """a local object gets a new value: cells of the old one are forgotten"""
        for k in [k for k in self.env if cell(k)]:
            r = root(k[1] if k[0] in ("comp", "size") else k)
            if r[0] == "loc" and r[1] == vid:
                del self.env[k]
        self.dirty = [d for d in self.dirty if not (root(d[1])[0] == "loc" and root(d[1])[1] == vid)]

    def ptype(self, pid):
        j = self.fn.pid.get(pid)
        return self.fn.params[j]["t"] if j is not None else ""

    # ---------- conditions ----------
    def cond(self, i):
        t = self.ex(i)
        return t

    # ---------- lvalues ----------
    def lval(self, i):
        """Memory term denoted by an lvalue (not its loaded value)."""
        i = self.fn.strip(i, True)
        n = self.N[i]
        c = n["c"]
        if c == "DeclRefExpr":
            dk = n.get("dk")
            if dk in ("var", "parm", "slocal", "binding"):
                e = self.env.get(n["id"])
                if self.env.get(("ref", n["id"])) and e is not None:
                    return e
                if dk == "parm" and e is not None:
                    return e
                if e is not None and e[0] in ("fld", "idx", "par", "this", "glob", "new"):
                    if n["t"].startswith("std::shared_ptr") or n["t"].endswith("*"):
                        return e
                return ("loc", n["id"], n["n"])
            if dk == "global":
                return ("glob", n["fq"])
            return self.ex(i)
        if c == "MemberExpr":
            return member(self.baset(n), n)
        if c == "ArraySubscriptExpr":
            return ("idx", self.lval(n["k"][0]), self.ex(n["k"][1]))
        if c == "UnaryOperator" and n["op"] == "*":
            return deref(self.ex(n["k"][0]))
        if c == "CXXOperatorCallExpr":
            op = n.get("op")
            if op == "[]":
                return ("idx", self.lval(n["a"][0]), self.ex(n["a"][1]))
            if op in ("*", "->") and len(n["a"]) == 1:
                return deref(self.ex(n["a"][0]))
        if c == "CXXMemberCallExpr" and n.get("f"):
            nm = n["f"]["fq"].split("::")[-1]
            if nm == "at" and "o" in n:
                return ("idx", self.lval(n["o"]), self.ex(n["a"][0]))
            # accessor returning a reference to a member
            r = self.accessor(n)
            if r is not None:
                return r
        return self.ex(i)

    def accessor(self, n):
        f = self.fn.p.fns.get(n["f"]["fk"])
        if f is None or f.d.get("virt"):
            return None
        ks = [k for k in f.N[f.body]["k"] if k >= 0]
        if len(ks) == 1 and f.N[ks[0]]["c"] == "ReturnStmt" and f.N[ks[0]]["k"]:
            m = f.N[f.strip(f.N[ks[0]]["k"][0])]
            if m["c"] == "MemberExpr" and f.N[f.strip(m["k"][0])]["c"] == "CXXThisExpr" and "o" in n:
                return member(self.lval(n["o"]), m)
        return None

    def baset(self, n):
        ks = n["k"]
        if not ks:
            return self.this
        b = self.fn.strip(ks[0])
        if self.N[b]["c"] == "CXXThisExpr":
            return self.this
        if n.get("arrow"):
            return deref(self.ex(b))
        return self.lval(b)

    # ---------- expressions ----------
    def ex(self, i):
        if self.trace is not None:
            n = self.N[i]
            k = n["k"][0] if n["c"] == "ImplicitCastExpr" and n.get("ck") == "LValueToRValue" else n["a"][0] if n["c"] == "CXXConstructExpr" and n.get("f", {}).get("ck") == "copy" and len(n.get("a", [])) == 1 else None
            if k is not None and self.N[self.fn.strip(k)]["c"] in ("DeclRefExpr", "MemberExpr", "CXXOperatorCallExpr", "ArraySubscriptExpr", "CXXMemberCallExpr", "UnaryOperator") and not any(self.N[x].get("op") in ("++", "--") for x in self.fn.walk(k)):
                tr, self.trace = self.trace, None
                t = self.lval(k)
                self.trace = tr
                self.note("R", t, None, i)
        t = self._ex(i)
        self.at[i] = t
        self.first.setdefault(i, t)
        if "f" in self.N[i]:
            self.encl.setdefault(i, list(self.loops))
        return t

    def load(self, t):
        if t in self.env:
            return self.env[t]
        if t[0] in ("idx", "fld") and not any(k[0] in ("idx", "comp", "fld", "loc") and root(k[1] if k[0] == "comp" else k) == root(t) for k in self.env if cell(k)):
            return self.load0(t)
        v = None
        for k in reversed([k for k in self.env if cell(k) and k[0] == "comp"]):
            b = match(k[1], t, [q[0] for q in k[2]])
            if b is None:
                continue
            ok, cond = True, ONE
            for q, lo, hi in k[2]:
                x = b.get(q)
                if x is None:
                    ok = False
                    break
                if lo is None:
                    continue
                lo2, hi2 = subst(lo, b), subst(hi, b)
                if not self.inrange(x, lo2, hi2):
                    cond = bool2("and", cond, bool2("and", cmp_("<=", lo2, x), cmp_("<", x, hi2)))
            if not ok:
                return ("sym", "comp", t)
            val = subst(self.env[k], b)
            if cond == ONE:
                v = val
            else:
                saved = self.env.pop(k)
                v = ite(cond, val, self.load(t))
                self.env[k] = saved
            break
        if v is None:
            v = self.load0(t)
        cand = [k for k in self.env if cell(k) and k[0] == "idx" and t[0] == "idx" and k != t]
        for k in cand:
            c = mayalias(k, t)
            if c is not None and c != ZERO and self.env[k] != v:
                v = ite(c, self.env[k], v)
        return v

    def boxed(self, loc):
        """value of a local container whose elements were written: an indexed family"""
        keys = [k[1] if k[0] == "comp" else k for k in self.env if cell(k)]
        keys = [k for k in keys if k[0] in ("idx", "fld") and k != loc and prefix(loc, k)]
        dirty = any(prefix(loc, r) for _, r in self.dirty)
        if not keys and not dirty:
            if ("size", loc) in self.env:
                s = self.env[("size", loc)]
                b = fresh()
                return ("lam", b, self.load(("idx", loc, b)), s)
            return None

        def depth(k):
            d = 0
            while k != loc:
                if k[0] != "idx":
                    return None
                d += 1
                k = k[1]
            return d
        ds = [depth(k) for k in keys] + [depth(r) for _, r in self.dirty if r != loc and r[0] in ("idx", "fld") and prefixw(loc, r)]
        if None in ds:
            return ("sym", "struct", loc)
        D = max(ds + [1])

        def mk(addr, d):
            b = fresh()
            a = ("idx", addr, b)
            self.assume.add(b)
            s = self.bound[b] = self.sizeof(addr)
            e = mk(a, d - 1) if d > 1 else self.load(a)
            self.assume.discard(b)
            return ("lam", b, e, s)
        return mk(loc, D)

    def sizeval(self, e, t):
        if isinstance(e, tuple) and e:
            if e[0] == "lam":
                return e[3]
            if e[0] == "list":
                return num(len(e) - 1)
            if e[0] == "obj" and e[1] in ("std::vector", "mltk::Point", "std::valarray", "std::deque"):
                if len(e) == 2:
                    return ZERO
                if e[2][0] not in ("begin", "itr", "end", "list", "str", "obj"):
                    return e[2]
            if e[0] in ("fld", "idx", "par", "glob") and e != t[1]:
                return ("size", e)
            if e[0] == "ite":
                a, b = self.sizeval(e[2], t), self.sizeval(e[3], t)
                if a != t and b != t:
                    return ite(e[1], a, b)
        return t

    def inrange(self, x, lo, hi):
        if x in self.assume:
            h = self.bound.get(x)
            if h is None:
                return True
            # an interval that provably leaves out elements of the container
            if lo[0] == "num" and lo[1] > 0 or hi != h and (hi[0] == "num" and h[0] == "num" and hi[1] < h[1] or hi[0] == "call" and hi[1] == "min" and h in hi[2:]):
                return False
            d = sub(h, hi) if hi[0] == "poly" and h[0] in ("poly", "size", "par", "fld") else None
            return not (d is not None and d[0] == "num" and d[1] > 0)
        if x == lo and x != hi:
            return True
        for l in self.loops:
            if l.get("bv") == x:
                return (l["lo"] == lo or (lo == ZERO and (l["lo"][0] in ("bv", "bb") or (l["lo"][0] == "num" and l["lo"][1] >= 0)))) and l["hi"] == hi
        if x[0] == "num" and lo[0] == "num" and hi[0] == "num":
            return lo[1] <= x[1] < hi[1]
        return False

    def load0(self, t):
        if t[0] == "size":
            b = t[1]
            for tag, r in reversed(self.dirty):
                if prefixw(r, t):
                    return ("phi", tag, t)
            e = self.env.get(b[1]) if b[0] == "loc" else self.env.get(b)
            if b[0] == "idx" and e is None:
                e = self.load(b)
                if e == b:
                    e = None
            return self.sizeval(e, t)
        # a container assigned as a whole
        if t[0] == "idx":
            b = t[1]
            e = self.env.get(b[1]) if b[0] == "loc" else self.env.get(b)
            if b[0] == "idx" and e is None:
                e = self.load(b)
                if e == b:
                    e = None
            # (a whole value still in memory was stored after anything that dirtied the container)
            whole = b[0] == "fld" and b in self.env and isinstance(e, tuple) and e[:1] == ("ite",)
            for tag, r in reversed(self.dirty):
                if prefixw(r, t) and not whole:
                    return ("phi", tag, t)
            if isinstance(e, tuple) and e:
                if e[0] == "lam":
                    return subst(e[2], {e[1]: t[2]})
                if e[0] == "list":
                    return e[1 + int(t[2][1])] if t[2][0] == "num" and t[2][1].denominator == 1 and 0 <= t[2][1] < len(e) - 1 else t
                if e[0] == "obj" and e[1] in ("std::vector", "mltk::Point", "std::valarray"):
                    if len(e) in (4, 5) and e[1] == "std::vector" or len(e) == 4:
                        return e[3]
                    if len(e) == 3:
                        return ZERO
                    return t
                if whole:
                    return indexw(e, t[2])
                if e[0] in ("poly", "call", "fld", "par", "idx", "el", "ite", "cmp", "glob") and e != b:
                    return index(e, t[2])
                if e[0] in ("phi", "out") and e != b:
                    return ("phi", e[1], t)
            return t
        for tag, r in reversed(self.dirty):
            if prefixw(r, t):
                return ("phi", tag, t)
        if t[0] == "fld" and t[1][0] in ("loc", "idx"):
            e = self.env.get(t[1][1]) if t[1][0] == "loc" else (self.load(t[1]) if t[1] not in self.env else self.env[t[1]])
            if isinstance(e, tuple) and e and e != t[1]:
                return self.fieldof(e, t[2], t)
        return t

    def fieldof(self, e, name, t):
        k = {"first": 0, "second": 1}.get(name)
        if k is not None and e[0] == "obj" and e[1] == "std::pair":
            return e[2 + k] if len(e) == 4 else (ZERO if len(e) == 2 else t)
        if k is not None and e[0] == "list" and len(e) == 3:
            return e[1 + k]
        if e[0] == "struct":
            for x in e[2:]:
                if x[1] == name:
                    return x[2]
            return t
        if e[0] == "ite":
            a, b = self.fieldof(e[2], name, t), self.fieldof(e[3], name, t)
            return t if t in (a, b) else ite(e[1], a, b)
        if e[0] in ("par", "fld", "idx", "glob", "this"):
            return self.load(("fld", e, name))
        return t

    def _ex(self, i):
        j = self.fn.strip(i)
        if j != i:
            t = self.ex(j)
            return t
        n = self.N[i]
        c = n["c"]
        if c == "IntegerLiteral":
            return num(n["v"])
        if c == "FloatingLiteral":
            return num(n["v"])
        if c == "CXXBoolLiteralExpr":
            return num(bool(n["v"]))
        if c == "CharacterLiteral":
            return ("num", Fraction(n["v"]))
        if c == "StringLiteral":
            return ("str", n.get("v", ""))
        if c in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
            return ("null",)
        if c == "CXXThisExpr":
            return self.this
        if c == "DeclRefExpr":
            dk = n.get("dk")
            if dk == "enum":
                return num(n["v"])
            if dk in ("var", "parm", "slocal", "binding"):
                e = self.env.get(n["id"])
                if e is None:
                    return ("var", n["id"], n["n"])
                if self.env.get(("ref", n["id"])):
                    return self.load(e)
                if dk == "var" and ("vector" in n["t"] or "Point<" in n["t"]):
                    v = self.boxed(("loc", n["id"], n["n"]))
                    if v is not None:
                        return v
                return self.load(e) if e[0] in ("par",) else e
            if dk == "fn":
                return ("fn", n["fq"])
            if dk == "global":
                return self.load(("glob", n["fq"]))
            return ("var", n.get("id"), n["n"])
        if c == "MemberExpr":
            if n.get("dk") == "fn":
                return ("fn", n["fq"])
            if n.get("dk") == "global":
                return ("glob", n["fq"])
            if n.get("dk") == "enum":
                return num(n["v"])
            ad = member(self.baset(n), n)
            if ad[0] == "loc":
                v = self.boxed(ad)
                if v is not None:
                    return v
            if ad not in self.env and ("vector" in n["t"] or "Point<" in n["t"] or "dMatrix" in n["t"]) and any(cell(k) and k[0] in ("comp", "idx", "size") and k != ad and prefix(ad, k[1]) for k in self.env):
                v = self.boxed(ad)
                if v is not None:
                    return v
            return self.load(ad)
        if c in ir.EXPLICIT_CASTS:
            t = self.ex(n["k"][0])
            if n.get("ck") == "FloatingToIntegral" or any(self.N[k].get("ck") == "FloatingToIntegral" for k in self.fn.walk(n["k"][0]) if self.N[k].get("pex")):
                return ("call", "trunc", t)
            return t
        if c == "UnaryOperator":
            op = n["op"]
            k = n["k"][0]
            if op == "-":
                return neg(self.ex(k))
            if op == "!":
                return not_(self.ex(k))
            if op == "*":
                return self.load(deref(self.ex(k)))
            if op == "&":
                return self.lval(k)
            if op in ("++", "--"):
                if self.scathit(k, ONE if op == "++" else num(-1)):
                    return ("sym", "scatter", i)
                old = self.ex(k)
                new = add(old, ONE, 1 if op == "++" else -1)
                self.assign(k, new, i)
                return old if n.get("post") else new
            return ("call", op, self.ex(k))
        if c == "CompoundAssignOperator":
            if self.scat and n["op"] in ("+=", "-="):
                b = self.ex(n["k"][1])
                if self.scathit(n["k"][0], b if n["op"] == "+=" else neg(b)):
                    return ("sym", "scatter", i)
            a = self.ex(n["k"][0])
            b = self.ex(n["k"][1])
            v = self.arith(n["op"][:-1], a, b, i)
            self.assign(n["k"][0], v, i)
            return v
        if c == "BinaryOperator":
            op = n["op"]
            if op == "=":
                v = self.ex(n["k"][1])
                self.assign(n["k"][0], v, i)
                return v
            if op == ",":
                self.ex(n["k"][0])
                return self.ex(n["k"][1])
            a, b = self.ex(n["k"][0]), self.ex(n["k"][1])
            return self.arith(op, a, b, i)
        if c in ("ConditionalOperator",):
            cd = self.ex(n["k"][0])
            return ite(cd, self.ex(n["k"][1]), self.ex(n["k"][2]))
        if c == "ArraySubscriptExpr":
            return self.load(("idx", self.lval(n["k"][0]), self.ex(n["k"][1])))
        if c == "LambdaExpr":
            self.snap.setdefault(i, (dict(self.env), list(self.loops), list(self.conds)))
            for k in n["k"]:
                if k >= 0:
                    self.ex(k)
            return ("lambda", n.get("lk") or (n.get("specs") or ["?"])[0])
        if c == "InitListExpr":
            return ("list",) + tuple(self.ex(k) for k in self.fn.kids(i))
        if c in ("CXXScalarValueInitExpr", "ImplicitValueInitExpr"):
            return ZERO
        if c == "CXXNewExpr":
            for k in self.fn.kids(i):
                self.ex(k)
            return ("new", i, n["at"])
        if c == "CXXDeleteExpr" or c == "CXXThrowExpr":
            for k in self.fn.kids(i):
                self.ex(k)
            return ("void",)
        if "f" in n or c in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            return self.callx(i)
        if c == "UnaryExprOrTypeTraitExpr":
            return ("sym", "sizeof")
        ks = self.fn.kids(i)
        if len(ks) == 1:
            return self.ex(ks[0])
        for k in ks:
            self.ex(k)
        return ("sym", c, i)

    def itpos(self, t):
        r = itx(t)
        if r is None:
            return None
        b, x = r
        if ("END",) in set(subterms(x)):
            x = subst(x, {("END",): self.sizeof(b)})
        return b, x

    def arith(self, op, a, b, i):
        if op in ("-", "==", "!=", "<", "<=", ">", ">=") and a[0] in ("begin", "itr", "end", "poly") and b[0] in ("begin", "itr", "end", "poly"):
            x, y = self.itpos(a), self.itpos(b)
            if x and y and x[0] == y[0]:
                return sub(x[1], y[1]) if op == "-" else cmp_(op, x[1], y[1])
        if op == "+":
            return add(a, b)
        if op == "-":
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        if op == "/":
            n = self.N[i]
            if n.get("t") in ("int", "unsigned int", "long", "unsigned long", "short", "long long", "unsigned long long") and n["c"] in ("BinaryOperator",):
                if not (a[0] == "num" and b[0] == "num"):
                    return ("call", "idiv", a, b)
                return num(int(a[1] / b[1])) if b[1] != 0 else ("call", "idiv", a, b)
            return div(a, b)
        if op == "%":
            return ("call", "mod", a, b)
        if op in ("<", "<=", ">", ">=", "==", "!="):
            return cmp_(op, a, b)
        if op == "&&":
            return bool2("and", a, b)
        if op == "||":
            return bool2("or", a, b)
        return ("call", op, a, b)

    def callx(self, i):
        n = self.N[i]
        fn = self.fn
        f = n.get("f")
        c = n["c"]
        if f is None:
            return ("call", "?") + tuple(self.ex(k) for k in n.get("a", []))
        fq = ir.short(f["fq"])
        nm = fq.split("::")[-1]
        o, a = fn.args(i)
        rec = f.get("rec", "")
        isstd = fq.startswith("std::") or fq.startswith("__gnu_cxx")
        # constructors
        if c in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            av = [self.ex(x) for x in a if self.N[x]["c"] != "CXXDefaultArgExpr"]
            if f.get("ck") in ("copy", "move") and len(av) >= 1:
                return av[0]
            if len(av) == 1 and (isstd or rec.startswith("mltk::Point<")):
                if rec.startswith(("std::vector", "mltk::Point")) and self.N[fn.strip(a[0])].get("t", "").replace("const ", "") in ("int", "unsigned long", "unsigned int", "long"):
                    return ("obj", ir.short(rec), av[0])
                return av[0]
            return ("obj", ir.short(rec)) + tuple(av)
        if c == "CXXInheritedCtorInitExpr":
            return ("obj", ir.short(rec))
        if c == "CXXOperatorCallExpr":
            op = n["op"]
            A = n["a"]
            if op == "[]" and len(A) == 2:
                return self.load(("idx", self.lval(A[0]), self.ex(A[1])))
            if op in ("*", "->") and len(A) == 1:
                return self.load(deref(self.ex(A[0])))
            if op == "=" and len(A) == 2:
                v = self.ex(A[1])
                self.assign(A[0], v, i)
                return v
            if op in ("+=", "-=", "*=", "/=", "%=") and len(A) == 2:
                x, y = self.ex(A[0]), self.ex(A[1])
                if is_pt(self.N[fn.strip(A[0])].get("t", "")):
                    x = self.elv(x)
                    if is_pt(self.N[fn.strip(A[1])].get("t", "")):
                        y = self.elv(y)
                v = self.arith(op[:-1], x, y, i)
                self.assign(A[0], v, i)
                return v
            if op in ("++", "--"):
                old = self.ex(A[0])
                new = add(old, ONE, 1 if op == "++" else -1)
                self.assign(A[0], new, i)
                return new
            if op in ("+", "-", "*", "/", "<", "<=", ">", ">=", "==", "!=", "%") and len(A) == 2:
                av, bv = self.ex(A[0]), self.ex(A[1])
                if op in ("+", "-", "*", "/", "%"):
                    if is_pt(self.N[fn.strip(A[0])].get("t", "")):
                        av = self.elv(av)
                    if is_pt(self.N[fn.strip(A[1])].get("t", "")):
                        bv = self.elv(bv)
                if op == "/" :
                    return div(av, bv)
                return self.arith(op, av, bv, i)
            if op == "-" and len(A) == 1:
                v = self.ex(A[0])
                return neg(self.elv(v) if is_pt(self.N[fn.strip(A[0])].get("t", "")) else v)
            if op == "!" and len(A) == 1:
                return not_(self.ex(A[0]))
            if op in ("<<", ">>"):
                vals = [self.ex(x) for x in A]
                return ("call", op) + tuple(vals)
        if fq.startswith("std::numeric_limits::") and o is None and not a:
            return LIMMIN if nm == "lowest" else ("call", "lim_" + nm)
        # lambdas held in locals
        tg = fn.p.fns.get(f["fk"])
        if tg is not None and tg.d.get("lambda") and self.depth < 8 and tg.key not in self.stack:
            av = [self.ex(x) for x in a]
            return self.inl(tg, av, a, self.this, lam=True, node=i)
        objv = None
        if o is not None:
            objv = self.lval(o)
        av = [self.ex(x) for x in a]
        if isstd and o is None and nm in ALGO:
            r = self.algo(nm, av, a, i)
            if r is not None:
                return r
        if isstd and o is None and nm in ("find", "find_if", "find_if_not", "max_element", "min_element", "distance", "next", "prev"):
            r = self.search(nm, av, a, i)
            if r is not None:
                return r
        if fq == "std::make_pair" and len(av) == 2:
            return ("obj", "std::pair", av[0], av[1])
        if isstd and o is None and nm in ("sort", "stable_sort", "nth_element", "partial_sort"):
            r = self.sorting(nm, av, a, i)
            if r is not None:
                return r
        if isstd and o is None and nm not in RDALGO:
            for v in av:
                for x in subterms(v):
                    if x[0] in ("begin", "itr", "end"):
                        self.kill(x[1], i)
        if isstd and o is not None:
            if nm in ("size", "length", "empty") and not av:
                self.note("R", ("size", self.sizebase(o, objv)), None, i)
            if nm in ("size", "length") and not av:
                return self.sizeof(self.sizebase(o, objv))
            if nm == "empty" and not av:
                return cmp_("==", self.sizeof(self.sizebase(o, objv)), ZERO)
            if rec.startswith(("std::atomic<", "std::__atomic_base<")) and not av and (nm.startswith("operator ") or nm == "load"):
                return self.ex(o)
            if nm == "operator bool" and not av and self.ex(o) == ("null",):
                return ZERO
            if nm in ("get", "lock", "operator->", "operator*", "c_str", "data", "begin", "cbegin", "operator bool", "str") and not av:
                if nm in ("begin", "cbegin"):
                    return ("begin", objv)
                return self.ex(o)
            if nm in ("end", "cend") and not av:
                return ("end", objv)
            if nm == "at":
                return self.load(("idx", objv, av[0]))
            if nm in ("front", "back") and not av:
                return self.load(("idx", objv, ZERO if nm == "front" else sub(self.sizeof(objv), ONE)))
            if nm.startswith("operator") and f.get("cst"):
                return ("call", nm, self.ex(o)) + tuple(av)
            if not f.get("cst"):
                self.mutate(nm, objv, av, i, rec)
            return ("call", nm, self.ex(o) if self.N[fn.strip(o)]["c"] == "DeclRefExpr" else objv) + tuple(av)
        if o is None and fq.startswith("mltk::") and nm in ("pow", "abs", "exp", "log", "sin", "cos") and len(av) <= 2:
            return call(nm, [self.elv(av[0])] + av[1:])
        if nm == "sum" and rec.startswith("mltk::Point<"):
            # default functional is the identity: check the argument was defaulted
            if all(self.N[x]["c"] == "CXXDefaultArgExpr" for x in a):
                r = vred("sum", self.elv(objv if objv[0] != "loc" else self.ex(o)))
                if r is not None:
                    return r
        if fq == "mltk::dot" and len(av) == 2:
            r = vred("sum", mul(self.elv(av[0]), self.elv(av[1])))
            if r is not None:
                return r
        if fq in ("mltk::max", "mltk::min") and len(av) == 1:
            r = vred(nm, self.elv(av[0]))
            if r is not None:
                return r
        if o is None and nm in MATH:
            return call(nm, av)
        if fq == "std::make_shared" and not av:
            return ("call", "make_shared", ("str", "%s#%d" % (fn.sq, i)))
        if fq in ("std::make_shared", "std::move", "std::forward", "std::ref", "std::cref", "std::make_unique") and len(av) == 1:
            if fq in ("std::make_shared", "std::make_unique") and av[0] and av[0][0] not in ADDR and _arith(self.N[fn.strip(a[0])].get("t", "")):
                return ("call", "make_shared", av[0], ("str", "%s#%d" % (fn.sq, i)))
            return av[0]
        if rec.startswith("mltk::Point<") and nm == "size":
            return self.sizeof(self.sizebase(o, objv))
        # size()-like accessor of repo classes go through inlining
        ts = fn.p.call_targets(fn, i)
        if len(ts) == 1 and self.inline and self.depth < 7 and ts[0].key not in self.stack and ir.short(ts[0].q) not in self.stop:
            t = ts[0]
            if len(t.N) < 1500:
                thisv = None
                if o is not None:
                    b = fn.strip(o)
                    thisv = self.this if self.N[b]["c"] == "CXXThisExpr" else (self.ex(b) if n["k"] and self.N[fn.strip(n["k"][0])].get("arrow") else objv)
                r = self.inl(t, av, a, thisv, node=i)
                if r is not None:
                    return r
        # opaque: kill what it may modify
        pk = f.get("pk", "")
        for k, x in enumerate(a):
            if k < len(pk) and pk[k] in "RP":
                if fq in ("std::make_shared", "std::make_unique") and (_arith(self.N[fn.strip(x, True)].get("t", "")) or self.N[fn.strip(x, True)].get("t", "").replace("const ", "").strip(" &") in self.ENUMS):
                    continue        # perfect forwarding of a number
                self.havoc_arg(x, i)
        if o is not None and "rec" in f and not f.get("cst") and not (f.get("fk") in fn.p.fns and nm in ("begin", "end")):
            b = self.this if self.N[fn.strip(o)]["c"] == "CXXThisExpr" else objv
            ms = modany(ts)
            if ms is not None:
                for q in ms:
                    self.kill(("fld", b, q), i)
            else:
                self.kill(b, i)
        nmq = fq if fq.startswith("mltk") else nm
        if self.trace is not None and fq.startswith("mltk"):
            self.note("C", ("call", nmq) + ((objv,) if objv is not None else ()) + tuple(av), None, i)
        return ("call", nmq) + ((objv,) if objv is not None else ()) + tuple(av)

    def lam(self, t):
        if isinstance(t, tuple) and t and t[0] == "lambda":
            return self.fn.p.fns.get(t[1])
        return None

    def pseudo(self, lamf, args, i, hi):
        """One abstract iteration of an algorithm calling a lambda; captured locals may be accumulators."""
        bv = ("bv", len(self.loops))
        vs = set()
        for z in lamf.walk():
            q = lamf.N[z]
            t = None
            if q["c"] in ("BinaryOperator", "CompoundAssignOperator") and (q["op"] == "=" or q["c"] == "CompoundAssignOperator"):
                t = q["k"][0]
            elif q["c"] == "UnaryOperator" and q["op"] in ("++", "--"):
                t = q["k"][0]
            if t is not None:
                m = lamf.N[lamf.strip(t, True)]
                if m["c"] == "DeclRefExpr" and m.get("id") in self.env and m["id"] not in lamf.pid:
                    vs.add(m["id"])
        pre = dict(self.env)
        pred = list(self.dirty)
        for v in vs:
            self.env[v] = self.phv(self.tag(i), v)
        info = {"node": i, "bv": bv, "lo": ZERO, "hi": hi}

        def once():
            self.loops.append(info)
            r = self.inl(lamf, args(bv), [], self.this, lam=True, node=i)
            self.loops.pop()
            return r
        start, ns = dict(self.env), len(self.stores)
        nt = len(self.trace or ())
        r = once()
        # what one call wrote may be read by the next one
        mem = [k[1] if k[0] in ("comp", "size") else k for k, v in self.env.items() if cell(k) and start.get(k) != v]
        mem += [d[1] for d in self.dirty[len(pred):]]
        more = {k for k, v in start.items() if isinstance(k, int) and k in pre and self.env.get(k) != v} - vs
        if mem or more:
            self.env, self.dirty = dict(start), list(pred)
            del self.stores[ns:]
            if self.trace is not None:
                del self.trace[nt:]
            for v in more:
                vs.add(v)
                self.env[v] = self.phv(self.tag(i), v)
            for m in mem:
                self.kill(m, i)
            r = once()
        # captured counters advanced by the same constant in every call
        step = {}
        for v in vs:
            d = sub(self.env.get(v), self.phv(self.tag(i), v)) if isinstance(pre.get(v), tuple) and isinstance(self.env.get(v), tuple) else None
            if d is not None and d[0] == "num" and d != ZERO and pre[v][0] not in ADDR and pre[v][0] not in ("itr", "begin", "end", "obj", "lambda"):
                step[v] = d
        if step:
            self.env, self.dirty = dict(start), list(pred)
            del self.stores[ns:]
            if self.trace is not None:
                del self.trace[nt:]
            for v in more if mem or more else ():
                self.env[v] = self.phv(self.tag(i), v)
            for m in mem:
                self.kill(m, i)
            info["sec"] = {}
            for v, d in step.items():
                self.env[v] = add(pre[v], mul(d, bv))
                info["sec"][v] = add(pre[v], mul(d, hi))
            r = once()
        self.finish(i, pre, vs, info, i, pred)
        return r, info

    def algo(self, nm, av, a, i):
        if not av or av[0][0] not in ("begin", "itr"):
            return None
        base = av[0][1]
        if nm in ("inner_product",) and len(av) == 4 and av[1] == ("end", base) and av[2][0] == "begin":
            bv = ("bv", len(self.loops))
            return add(av[3], red("sum", mul(self.load(("idx", base, bv)), self.load(("idx", av[2][1], bv))), {"bv": bv, "lo": ZERO, "hi": ("size", base)}))
        if len(av) < 2 or av[0][0] != "begin":
            return None
        if av[1] == ("end", base):
            hi = self.sizeof(base)
        else:
            hi = deref(av[1])
            if hi[0] == "idx" and hi[1] == base:
                hi = hi[2]
            else:
                return None
        info = {"bv": ("bv", len(self.loops)), "lo": ZERO, "hi": hi, "node": i}
        el = lambda bv: self.load(("idx", base, bv))
        if nm == "accumulate" and len(av) == 3:
            return add(av[2], red("sum", el(info["bv"]), info))
        if nm == "accumulate" and len(av) == 4 and self.lam(av[3]):
            ph = ("phi", self.tag(i), "acc")
            r, info = self.pseudo(self.lam(av[3]), lambda bv: [ph, el(bv)], i, hi)
            return self.reduction(ph, r, av[2], info)
        if nm == "for_each" and len(av) == 3 and self.lam(av[2]):
            self.pseudo(self.lam(av[2]), lambda bv: [("idx", base, bv)], i, hi)
            return ("void",)
        if nm in ("count_if", "all_of", "any_of", "none_of") and len(av) == 3 and self.lam(av[2]):
            r, info = self.pseudo(self.lam(av[2]), lambda bv: [el(bv)], i, hi)
            s_ = red("sum", ite(r, ONE, ZERO) if r[0] not in ("cmp", "and", "or", "not") else r, info)
            if nm == "count_if":
                return s_
            return {"any_of": cmp_("<", ZERO, s_), "none_of": cmp_("==", s_, ZERO), "all_of": cmp_("==", s_, hi)}[nm]
        if nm == "count" and len(av) == 3:
            return red("sum", cmp_("==", el(info["bv"]), av[2]), info)
        if nm in ("fill", "iota") and len(av) == 3:
            self.storeall(base, info, av[2] if nm == "fill" else add(av[2], info["bv"]), i)
            return ("void",)
        if nm == "generate" and len(av) == 3 and self.lam(av[2]):
            r, info = self.pseudo(self.lam(av[2]), lambda bv: [], i, hi)
            if isinstance(r, tuple) and r[0] != "void":
                # a draw differs from one element to the next
                if any(x[0] == "call" and "operator()" in str(x[1]) for x in subterms(r)):
                    r = ("call", "drawn", r, info["bv"])
                self.storeall(base, info, r, i)
            else:
                self.kill(base, i)
            return ("void",)
        if nm == "transform" and len(av) == 4 and av[2][0] == "begin" and self.lam(av[3]):
            ob = av[2][1]
            r, info = self.pseudo(self.lam(av[3]), lambda bv: [el(bv)], i, hi)
            self.storeall(ob, info, r, i)
            return ("end", ob)
        return None

    def search(self, nm, av, a, i):
        """iterator-valued algorithms over a whole container"""
        if nm == "distance" and len(av) == 2:
            x, y = self.itpos(av[0]), self.itpos(av[1])
            return sub(y[1], x[1]) if x and y and x[0] == y[0] else None
        if nm in ("next", "prev") and av and itx(av[0]):
            return add(av[0], av[1] if len(av) > 1 else ONE, 1 if nm == "next" else -1)
        if len(av) < 2:
            return None
        x, y = self.itpos(av[0]), self.itpos(av[1])
        if not x or not y or x[0] != y[0]:
            return None
        base, lo, hi = x[0], x[1], y[1]
        info = {"bv": ("bv", len(self.loops)), "lo": lo, "hi": hi, "node": i}
        bv = info["bv"]
        self.assume.add(bv)
        e = self.load(("idx", base, bv))
        r = None
        if nm in ("max_element", "min_element"):
            if len(av) == 2:
                r = binder("arg", nm[:3], e, info)
            elif len(av) == 3 and self.lam(av[2]):
                r = self.bycmp(nm[:3], self.lam(av[2]), e, info, i)
        elif nm == "find" and len(av) == 3:
            r = binder("fst", "first", cmp_("==", e, av[2]), info)
        elif nm in ("find_if", "find_if_not") and len(av) == 3 and self.lam(av[2]):
            c = self.inl(self.lam(av[2]), [e], [], self.this, lam=True, node=i)
            if c is not None and c[0] != "void":
                r = binder("fst", "first", not_(c) if nm == "find_if_not" else c, info)
        self.assume.discard(bv)
        return ("itr", base, r) if r is not None else None

    def bycmp(self, kind, lf, e, info, i):
        """max_element / min_element with a comparison F(a) < F(b) or F(a) <= F(b)"""
        A, B = fresh(), fresh()
        self.assume |= {A, B}
        c = self.inl(lf, [A, B], [], self.this, lam=True, node=i)
        self.assume -= {A, B}
        if not isinstance(c, tuple) or c[0] != "cmp" or c[1] not in ("<", "<="):
            return None
        x, y = c[2], c[3]
        if A in set(subterms(x)) and B not in set(subterms(x)) and subst(x, {A: B}) == y:
            flip = False
        elif B in set(subterms(x)) and A not in set(subterms(x)) and subst(x, {B: A}) == y:
            flip = True
        else:
            return None
        f = subst(x, {(B if flip else A): e})
        last = c[1] == "<="
        # max: keeps the first a with less(best, a); <= takes every later equal one
        up = (kind == "max") != flip
        return binder("arg", ("max" if up else "min") + ("l" if last else ""), f, info)

    def storeall(self, base, info, v, i):
        """base[k] = v(k) for k in [0, hi)"""
        bv, hi = info["bv"], info["hi"]
        self.loops.append(info)
        self.note("W", ("idx", base, bv), v, i)
        self.stores.append((i, ("idx", base, bv), v, tuple(self.conds), tuple((l.get("bv"), l.get("lo"), l.get("hi")) for l in self.loops)))
        self.loops.pop()
        q = fresh()
        n = self.sizeof(base)
        if n == hi:
            self.dropcells(base)
            self.dirty = [d for d in self.dirty if not prefixw(d[1], ("idx", base, ANY)) or d[1] != ("idx", base, ANY)]
            self.env[("size", base)] = n
        self.env[("comp", ("idx", base, q), ((q, ZERO, hi),))] = subst(v, {bv: q})

    def sorting(self, nm, av, a, i):
        """the range holds the sorted sequence of its previous elements"""
        cmpv = None
        if nm in ("sort", "stable_sort"):
            if len(av) not in (2, 3) or av[0][0] != "begin" or av[1] != ("end", av[0][1]):
                return None
            cmpv = av[2] if len(av) == 3 else None
        else:
            if len(av) not in (3, 4) or av[0][0] != "begin" or av[2] != ("end", av[0][1]):
                return None
            cmpv = av[3] if len(av) == 4 else None
        base = av[0][1]
        A, B = fresh(), fresh()
        if cmpv is not None:
            lf = self.lam(cmpv)
            if lf is None:
                return None
            self.assume |= {A, B}
            less = self.inl(lf, [A, B], [], self.this, lam=True, node=i)
            self.assume -= {A, B}
        else:
            less = cmp_("<", A, B)
        if less is None or less[0] in ("void",):
            return None
        b = fresh()
        self.assume.add(b)
        e = self.load(("idx", base, b))
        self.assume.discard(b)
        n = self.sizeof(base)
        if e == ("idx", base, b):
            # elements of unknown content: keep their address
            pass
        fb, fa, fc = ("sb", 0), ("sb", 1), ("sb", 2)
        t = ("srt", fb, subst(e, {b: fb}), n, fa, fc, subst(less, {A: fa, B: fc}))
        self.dropcells(base)
        q = fresh()
        self.env[("comp", ("idx", base, q), ((q, ZERO, n),))] = ("idx", t, q)
        self.env[("size", base)] = n
        return ("void",)

    def elv(self, t):
        """element form of a vector value, unless its elements were written since"""
        if t[0] in ADDR:
            if t[0] == "loc":
                v = self.boxed(t)
                if v is not None:
                    return ("el", v)
            if any(isinstance(k, tuple) and k and k[0] == "idx" and k[1] == t or (k and k[0] == "comp" and root(k[1]) == root(t) and (prefixw(wild(k[1]), wild(t)) or prefixw(wild(t), wild(k[1])))) for k in self.env if isinstance(k, tuple)):
                return ("el", ("sym", "written", t))
            if t[0] == "loc":
                e = self.env.get(t[1])
                if isinstance(e, tuple) and e and e[0] not in ("obj",):
                    return el(e)
            elif t[0] == "fld":
                e = self.load(t)
                if isinstance(e, tuple) and e and e[0] not in ("obj", "sym"):
                    return el(e)
            elif t[0] == "idx":
                e = self.load(t)
                if isinstance(e, tuple) and e and e != t and e[0] in ("phi", "poly", "ite", "el", "idx", "obj"):
                    return elval(e)
        return el(t)

    def sizeof(self, b):
        if b[0] == "lam":
            return b[3]
        if b[0] not in ADDR:
            bs = sorted({x[1] for x in subterms(b) if x[0] == "el"}, key=lambda b: (any(y[0] in ("bb", "sb") for y in subterms(b)), key(b)))
            if bs:
                return szof(bs[0])
        if b[0] in ("loc", "fld", "idx", "par", "glob"):
            return self.load(("size", b))
        return ("size", b)

    def mutate(self, nm, objv, av, i, rec):
        """a modifying method of a standard container"""
        seqc = rec.startswith(("std::vector", "std::deque", "mltk::Point", "std::valarray"))
        known = seqc and objv[0] in ("loc", "fld", "idx", "par")
        if known and nm in ("push_back", "emplace_back") and len(av) == 1:
            s = self.sizeof(objv)
            self.store(("idx", objv, s), av[0], i)
            self.env.pop(("size", objv), None)
            self.env[("size", objv)] = add(s, ONE)
            self.note("W", ("size", objv), None, i)
            self.stores.append((i, ("size", objv), ("after", nm, i), tuple(self.conds), tuple((l.get("bv"), l.get("lo"), l.get("hi")) for l in self.loops)))
            return
        if known and nm in ("clear", "resize", "assign"):
            s = self.sizeof(objv)
            if nm == "clear":
                n, v = ZERO, ZERO
            elif nm == "resize":
                n, v = av[0], (av[1] if len(av) > 1 else ZERO)
            elif len(av) == 2 and av[0][0] not in ("begin", "itr", "end", "poly"):
                n, v = av
            else:
                n = None
            self.note("W", ("size", objv), None, i)
            self.stores.append((i, ("size", objv), ("after", nm, i), tuple(self.conds), tuple((l.get("bv"), l.get("lo"), l.get("hi")) for l in self.loops)))
            if n is not None and (nm != "resize" or s == ZERO):
                self.note("F", objv, ("lam", ("bv", 900), v, n), i)
                self.dropcells(objv)
                if n != ZERO:
                    b = fresh()
                    self.env[("comp", ("idx", objv, b), ((b, ZERO, n),))] = v
                self.env[("size", objv)] = n
                return
            if nm == "resize":
                # elements below the old size stay, those above are new
                b = fresh()
                old = self.load(("idx", objv, b))
                self.dropcells(objv)
                self.env[("comp", ("idx", objv, b), ((b, ZERO, n),))] = ite(cmp_("<", b, s), old, v)
                self.env[("size", objv)] = n
                return
            self.kill(objv, i)
            return
        if nm in ("push_back", "erase", "clear", "resize", "insert", "emplace_back", "pop_back", "assign", "emplace", "pop", "push", "swap", "reserve", "shrink_to_fit"):
            if nm in ("reserve", "shrink_to_fit"):
                return
            self.kill(objv, i)
            self.store(("size", objv), ("after", nm, i), i)

    def dropcells(self, b):
        for k in [k for k in self.env if cell(k)]:
            kk = k[1] if k[0] == "comp" else k
            if prefix(b, kk) and kk != b:
                del self.env[k]

    def sizebase(self, o, objv):
        if objv[0] == "loc":
            e = self.ex(o)
            if e[0] in ("fld", "par", "idx", "call", "poly"):
                return e
        if objv[0] == "fld" and objv[2] == "x":
            return objv[1]
        return objv

    ENUMS = ("mltk::KernelType", "KernelType", "mltk::DistributionType")

    def havoc_arg(self, x, i):
        s = self.fn.strip(x, True)
        n = self.N[s]
        if n["c"] == "UnaryOperator" and n["op"] == "&":
            s = self.fn.strip(n["k"][0], True)
            n = self.N[s]
        if n["c"] == "DeclRefExpr" and n.get("dk") in ("var", "slocal") and not self.env.get(("ref", n["id"])):
            self.fresh_loc(n["id"])
            self.env[n["id"]] = ("out", self.tag(i), n["id"], ("sym", "arg"))
        else:
            self.kill(self.lval(s), i)

    def inl(self, t, av, anodes, thisv, lam=False, node=None):
        env = dict(self.env) if lam else {k: v for k, v in self.env.items() if cell(k)}
        for k, p in enumerate(t.params):
            if k < len(av):
                v = av[k]
                if p["t"].endswith("&") and k < len(anodes):
                    lv = self.lval(anodes[k])
                    if lv[0] in ("fld", "idx", "par", "glob") and lv not in self.env:
                        v = lv
                    elif not p["t"].startswith("const") and lv[0] in ("fld", "idx", "par", "glob"):
                        v = lv
                env[p["id"]] = v
                env.pop(("ref", p["id"]), None)
        sub_ = Ev(t, env, thisv if thisv is not None else ("this",), self.depth + 1, self.stack, True, self.stop)
        sub_.loops = list(self.loops)
        sub_.conds = list(self.conds)
        sub_.dirty = list(self.dirty)
        sub_.assume = self.assume
        sub_.trace = self.trace
        sub_.hook = self.hook
        try:
            r = sub_.run()
        except RecursionError:
            return None
        self.subs = getattr(self, "subs", [])
        self.subs.append((node, sub_))
        self.stores += [s for s in sub_.stores]
        # propagate memory effects visible to the caller
        for k in [k for k in self.env if cell(k) and k not in sub_.env]:
            del self.env[k]
        for k, v in sub_.env.items():
            if cell(k) and self.env.get(k) != v:
                self.env.pop(k, None)
                self.env[k] = v
        self.dirty = sub_.dirty
        if lam:
            for k, v in sub_.env.items():
                if not isinstance(k, tuple) and k in self.env and k not in {p["id"] for p in t.params}:
                    self.env[k] = v
        else:
            # reference parameters bound to locals
            for k, p in enumerate(t.params):
                if k < len(anodes) and p["t"].endswith("&") and not p["t"].startswith("const"):
                    s = self.fn.strip(anodes[k], True)
                    m = self.N[s]
                    if m["c"] == "DeclRefExpr" and m.get("dk") in ("var", "slocal") and not self.env.get(("ref", m["id"])):
                        st = [x for x in sub_.stores if x[1] == env.get(p["id"])]
                        if st:
                            self.env[m["id"]] = sub_.env.get(env.get(p["id"]), ("out", self.tag(node), m["id"], ("sym", "arg")))
        if isinstance(r, tuple) and r and isinstance(r[0], tuple):
            # conditional return with possible fall-through
            r = ("call", "maybe", r[0], r[1])
        if r is None:
            return ("void",)
        return r


BINDERS = ("red", "arg", "fst")


def splitcond(ph, t):
    """an update under a conjunction, the part that does not look at ph outermost"""
    if t[0] != "ite":
        return t
    for upd, keep, c in ((t[2], t[3], t[1]), (t[3], t[2], not_(t[1]))):
        if keep == ph and upd != ph and c[0] == "and":
            own = [x for x in c[1:] if ph in set(subterms(x))]
            if own and len(own) < len(c) - 1:
                a = b = ONE
                for x in c[1:]:
                    if x in own:
                        a = bool2("and", a, x)
                    else:
                        b = bool2("and", b, x)
                inner = ite(a, upd, ph)
                return ("ite", b, inner, ph)
    return t


def under(c, v):
    """the value where c holds"""
    return rewrite(v, lambda x: x[2] if x[0] == "ite" and x[1] == c else x[3] if x[0] == "ite" and x[1] == not_(c) else x)


def binder(h, kind, e, info):
    """red: reduction; arg: position of the first (maxl/minl: last) extreme value; fst: first position
    where e holds, else the upper bound"""
    if h == "red":
        return red(kind, e, info)
    b = ("bb", height(e))
    return (h, kind, subst(e, {info["bv"]: b}), b, info["lo"], info["hi"])


def red(kind, e, info):
    """reduction of e over bv in [lo, hi), binder canonically renamed, invariant factors pulled out"""
    bv, lo, hi = info["bv"], info["lo"], info["hi"]
    if bv not in set(subterms(e)):
        if kind == "sum":
            return mul(sub(hi, lo), e)
        if kind == "prod":
            return ("call", "pow", e, sub(hi, lo))
        return e
    if kind == "sum":
        if e[0] == "ite" and e[3] != ZERO and e[2] != ZERO and not (e[1][0] == "cmp" and e[1][1] == "=="):
            pass
        parts = mono_split(e, bv)
        if len(parts) > 1 or parts[0][0] != ONE:
            r = ZERO
            for f, x in parts:
                r = add(r, mul(f, red("sum", x, info)))
            return r
    if kind in ("max", "min") and lo != ZERO and False:
        pass
    b = ("bb", height(e))
    e2 = subst(e, {bv: b})
    return ("red", kind, e2, b, lo, hi)


def value_of(fn, stop=(), this=("this",), inline=True):
    """Return term of a function and its evaluator."""
    ev = Ev(fn, stop=stop, this=this, inline=inline)
    r = ev.run()
    if isinstance(r, tuple) and r and isinstance(r[0], tuple):
        r = ("call", "maybe", r[0], r[1])
    return r, ev


def show(t, d=0):
    if not isinstance(t, tuple) or not t:
        return str(t)
    h = t[0]
    if d > 14:
        return "…"
    S = lambda x: show(x, d + 1)
    if h == "num":
        return str(t[1])
    if h == "par":
        return t[2] or "arg%d" % t[1]
    if h == "this":
        return "this"
    if h == "fld":
        return S(t[1]) + "." + t[2]
    if h == "idx":
        return "%s[%s]" % (S(t[1]), S(t[2]))
    if h == "poly":
        out = []
        for mono, c in t[1]:
            ms = "*".join(S(a) + ("" if e == 1 else "^%d" % e) for a, e in mono)
            out.append((str(c) if not ms else (ms if c == 1 else "%s*%s" % (c, ms))))
        return "(" + " + ".join(out) + ")"
    if h == "cmp":
        return "(%s %s %s)" % (S(t[2]), t[1], S(t[3]))
    if h in ("and", "or"):
        return "(" + (" %s " % h).join(S(x) for x in t[1:]) + ")"
    if h == "ite":
        return "(%s ? %s : %s)" % (S(t[1]), S(t[2]), S(t[3]))
    if h == "call":
        return "%s(%s)" % (t[1], ", ".join(S(x) for x in t[2:]))
    if h in ("bv", "bb", "sb"):
        return {"bv": "#%d", "bb": "k%d", "sb": "s%d"}[h] % t[1]
    if h == "el":
        return S(t[1])
    if h in BINDERS:
        return ("" if h == "red" else h) + "%s[%s=%s..%s](%s)" % (t[1], S(t[3]), S(t[4]), S(t[5]), S(t[2]))
    if h == "size":
        return "|%s|" % S(t[1])
    if h in ("loc", "var"):
        return str(t[2]) if len(t) > 2 else str(t[1])
    return "%s(%s)" % (h, ", ".join(S(x) for x in t[1:]))
