"""Algebraic identity testing of two value-graph terms: both terms are evaluated at the
same pseudo-random algebraic points (Schwartz-Zippel).  Used only to tell apart terms that
are equal but not syntactically normalised; no code of the subject is run."""
import math, random
import sym


class Undecided(Exception):
    pass


class Undefined(Exception):
    pass


def rnd(t, seed, lo=0.15, hi=2.0):
    return lo + (hi - lo) * random.Random(repr(t) + "|" + str(seed)).random()


ADDRS = ("par", "this", "glob", "fld", "idx", "var", "loc", "begin", "end", "any")


def shape(t):
    """address with indices abstracted"""
    if t[0] == "idx":
        return ("idx", shape(t[1]), "*")
    if t[0] == "fld":
        return ("fld", shape(t[1]), t[2])
    if t[0] == "par":
        return ("par", t[1])
    if t[0] == "size":
        return ("size", shape(t[1]))
    return t


def eqdomains(*ts):
    """shapes compared for equality, with the constants they are compared with"""
    dom, links = {}, []
    for t in ts:
        for s in sym.subterms(t):
            if s[0] == "cmp" and s[1] in ("==", "!="):
                a, b = s[2], s[3]
                for x, y in ((a, b), (b, a)):
                    if x[0] in ADDRS:
                        d = dom.setdefault(shape(x), set())
                        if y[0] == "num":
                            d.add(float(y[1]))
                        elif y[0] in ADDRS:
                            links.append((shape(x), shape(y)))
    for _ in range(3):
        for a, b in links:
            u = dom.get(a, set()) | dom.get(b, set())
            dom[a], dom[b] = u, u
    ints = set()
    for t in ts:
        for s in sym.subterms(t):
            if s[0] in ("red", "arg", "fst", "srt"):
                for b in (s[4:6] if s[0] != "srt" else s[3:4]):
                    ints |= {shape(x) for x in leaves(b)}
    out = {k: sorted(v | {1.0, 2.0} | ({-1.0} if v else set())) for k, v in dom.items()}
    out.update({k: [1.0, 2.0, 3.0] for k in ints})
    return out


def leaves(t):
    """addresses whose values a bound is computed from"""
    if not isinstance(t, tuple) or not t:
        return set()
    if t[0] in ADDRS:
        return {t}
    if t[0] in ("size", "num", "cmp"):
        return set()
    out = set()
    for x in t[1:]:
        if isinstance(x, tuple):
            if t[0] == "poly":
                for mono, c in x:
                    for a, e in mono:
                        out |= leaves(a)
            elif x and isinstance(x[0], str):
                out |= leaves(x)
    return out


class NumEval:
    def __init__(self, seed=0, dim=3, lo=0.15, hi=2.0, bind=None, sizes=None, dom=None):
        self.seed, self.dim, self.lo, self.hi = seed, dim, lo, hi
        self.bind = bind
        self.sizes = sizes or {}
        self.bv = {}
        self.dom = dom or {}

    def addr(self, t):
        if t[0] == "idx":
            iv = self.ev(t[2])
            return ("idx", self.addr(t[1]), int(round(iv)) if abs(iv - round(iv)) < 1e-9 else round(iv, 9))
        if t[0] == "fld":
            return ("fld", self.addr(t[1]), t[2])
        if t[0] == "par":
            return ("par", t[1])
        if t[0] in ("this", "glob", "var", "loc", "begin", "end", "num"):
            return t
        if t[0] in ("call",):
            return ("call", t[1]) + tuple(self.addr(x) if isinstance(x, tuple) else x for x in t[2:])
        if t[0] in ("bv", "bb", "sb"):
            return ("n", self.ev(t))
        if t[0] == "poly":
            return ("n", round(self.ev(t), 9))
        return t

    def sorted_(self, t, seen={}):
        import functools
        _, b, e, n, A, B, less = t
        m = self.ev(n)
        if m > 64 or abs(m - round(m)) > 1e-9:
            raise Undecided("range")
        old = {x: self.bv.get(x) for x in (b, A, B)}
        xs = []
        for j in range(int(round(m))):
            self.bv[b] = j
            xs.append(self.ev(e))

        def lt(x, y):
            self.bv[A], self.bv[B] = x, y
            if self.ev(less) != 0:
                return -1
            self.bv[A], self.bv[B] = y, x
            return 1 if self.ev(less) != 0 else 0
        xs = sorted(xs, key=functools.cmp_to_key(lt))
        for x, v in old.items():
            if v is None:
                self.bv.pop(x, None)
            else:
                self.bv[x] = v
        return xs

    def atom(self, t):
        if t[0] == "idx" and t[1][0] == "srt":
            xs = self.sorted_(t[1])
            k = int(round(self.ev(t[2])))
            if not 0 <= k < len(xs):
                raise Undefined("beyond the sorted range")
            return xs[k]
        if t[0] == "idx" and t[1][0] == "lam":
            return self.ev(sym.subst(t[1][2], {t[1][1]: t[2]}))
        if self.bind:
            b = self.bind(self, t)
            if b is not None:
                return b
        a = self.addr(t)
        d = self.dom.get(shape(t))
        if d:
            return d[random.Random(repr(a) + "@" + str(self.seed)).randrange(len(d))]
        return rnd(a, self.seed, self.lo, self.hi)

    def ev(self, t):
        h = t[0]
        if h == "num":
            return float(t[1])
        if h == "str":
            return 100.0 + random.Random(t[1]).random()
        if h == "poly":
            s = 0.0
            for mono, c in t[1]:
                x = float(c)
                for a, e in mono:
                    v = self.ev(a)
                    if v == 0 and e < 0:
                        raise Undefined("division by zero")
                    x *= v ** e
                s += x
            return s
        if h in ADDRS or h == "el":
            return self.atom(t[1] if h == "el" else t)
        if h in ("bv", "bb", "sb"):
            if t not in self.bv:
                return float(random.Random(repr(t) + "|" + str(self.seed)).randrange(self.dim))
            return float(self.bv[t])
        if h == "size":
            if self.bind:
                b = self.bind(self, t)
                if b is not None:
                    return b
            if t[1][0] == "lam":
                return self.ev(t[1][3])
            if callable(self.sizes):
                v = self.sizes(t[1])
                if v is not None:
                    return float(v)
            return float(self.dim)
        if h == "red":
            _, kind, e, bv, lo, hi = t
            a, b = self.ev(lo), self.ev(hi)
            if b - a > 64 or abs(a - round(a)) > 1e-9 or abs(b - round(b)) > 1e-9:
                raise Undecided("range")
            xs = []
            old = self.bv.get(bv)
            for j in range(int(round(a)), int(round(b))):
                self.bv[bv] = j
                xs.append(self.ev(e))
            self.bv.pop(bv, None)
            if old is not None:
                self.bv[bv] = old
            if kind == "sum":
                return sum(xs)
            if kind == "prod":
                return math.prod(xs)
            if not xs:
                raise Undecided("empty reduction")
            return max(xs) if kind == "max" else min(xs)
        if h in ("arg", "fst"):
            _, kind, e, bv, lo, hi = t
            a, b = self.ev(lo), self.ev(hi)
            if b - a > 64 or abs(a - round(a)) > 1e-9 or abs(b - round(b)) > 1e-9:
                raise Undecided("range")
            old = self.bv.get(bv)
            best, at = None, b
            for j in range(int(round(a)), int(round(b))):
                self.bv[bv] = j
                x = self.ev(e)
                if h == "fst":
                    if x != 0:
                        at = j
                        break
                elif best is None or (x > best if kind == "max" else x >= best if kind == "maxl" else x < best if kind == "min" else x <= best):
                    best, at = x, j
            self.bv.pop(bv, None)
            if old is not None:
                self.bv[bv] = old
            if h == "arg" and best is None:
                raise Undefined("empty range")
            return float(at)
        if h == "cmp":
            a, b = self.ev(t[2]), self.ev(t[3])
            return float({"<": a < b, "<=": a <= b, "==": a == b, "!=": a != b}[t[1]])
        if h == "and":
            return float(all(self.ev(x) != 0 for x in t[1:]))
        if h == "or":
            return float(any(self.ev(x) != 0 for x in t[1:]))
        if h == "not":
            return float(self.ev(t[1]) == 0)
        if h == "ite":
            return self.ev(t[2]) if self.ev(t[1]) != 0 else self.ev(t[3])
        if h == "call":
            n = t[1]
            if n == "lim_max":
                return 1e300
            if n in ("out", "maybe", "switch", "?"):
                raise Undecided(n)
            if self.bind and n.startswith("mltk::"):
                b = self.bind(self, t)
                if b is not None:
                    return b
            if n.startswith("mltk::"):
                return rnd(("uf", n) + tuple(self.addr(x) if x[0] in ADDRS else round(self.ev(x), 9) for x in t[2:] if isinstance(x, tuple)), self.seed, self.lo, self.hi)
            a = [self.ev(x) for x in t[2:] if isinstance(x, tuple)]
            try:
                if n == "abs":
                    return abs(a[0])
                if n == "max":
                    return max(a)
                if n == "min":
                    return min(a)
                if n == "pow":
                    return a[0] ** a[1]
                if n == "mul":
                    return a[0] * a[1]
                if n == "idiv":
                    return float(int(a[0] / a[1]))
                if n == "trunc":
                    return float(int(a[0]))
                if n in ("mod", "fmod"):
                    return math.fmod(a[0], a[1])
                if n == "div":
                    return a[0] / a[1]
                if n in ("sqrt", "exp", "log", "log2", "log10", "sin", "cos", "tan", "tanh", "atan", "floor", "ceil"):
                    return float(getattr(math, n)(a[0]))
                if n == "round":
                    return float(math.floor(a[0] + 0.5))
            except (ValueError, ZeroDivisionError, OverflowError):
                raise Undefined(n)
            raise Undecided("call " + n)
        raise Undecided(h)


def same(a, b, trials=12, binder=None, dims=(2, 3, 4), lo=0.15, hi=2.0, sizes=None):
    """True (equal at every point), False (+ witness), None (undecided)."""
    if a == b:
        return True, "normal forms coincide"
    n_ok = 0
    dom = eqdomains(a, b)
    for s in range(trials):
        d = dims[s % len(dims)]
        mk = lambda: NumEval(s, d, lo, hi, binder, (lambda x: sizes(x, s, d)) if sizes else None, dom)
        try:
            x = mk().ev(a)
            y = mk().ev(b)
        except Undefined:
            continue
        except Undecided as e:
            return None, str(e)
        except (OverflowError, ZeroDivisionError):
            continue
        if isinstance(x, complex) or isinstance(y, complex):
            continue
        if abs(x - y) > 1e-7 * max(1.0, abs(x), abs(y)):
            return False, "differ at sample point %d: %.6g vs %.6g" % (s, x, y)
        n_ok += 1
    if n_ok < 3:
        return None, "undefined at sample points"
    return True, "equal at %d algebraic points" % n_ok
