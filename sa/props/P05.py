"""Copies are complete (value graphs of the copying operations, attribute transfer of every cloned
point) and independent (ownership analysis: whose points a dataset holds)."""
import ir, sym, effects
from golden import norm
from props.common import *

DATA, POINT = "mltk::Data", "mltk::Point"
# operations documented to hold the very point they are given
VIEWS = {("mltk::Data::setPoint", 2), ("mltk::Data::insertPoint", 2)}
# members of a point and the reports of them
ATTRS = ("y", "alpha", "id")


def run(f):
    ev = sym.Ev(f, this=("this",))
    ev.trace = []
    r = ev.run()
    return r, ev


def strip_phi(t):
    while t and t[0] == "phi" and any(isinstance(x, tuple) and x and x[0] in sym.ADDR for x in t[1:]):
        t = next(x for x in t[1:] if isinstance(x, tuple) and x and x[0] in sym.ADDR)
    return t


def fresh(t):
    """is t an object allocated here (a new point)?"""
    return isinstance(t, tuple) and t and t[0] not in ("par", "this", "fld", "idx", "phi", "num", "deref", "bv", "poly")


def member(t):
    """(object, attribute) of an address of a member of a point"""
    if not isinstance(t, tuple) or not t:
        return None
    if t[0] == "fld" and t[2] in ("x",) + ATTRS:
        return strip_phi(t[1]), t[2]
    if t[0] == "idx":
        m = member(t[1])
        if m and m[1] == "x":
            return m[0], "x[]"
    return None


def point_source(v):
    """objects whose coordinates a value is made of"""
    out = set()
    for s in sym.subterms(v):
        if s[0] == "fld" and s[2] == "x":
            out.add(strip_phi(s[1]))
        elif s[0] == "idx":
            b = strip_phi(s[1])
            if b[0] == "idx":
                out.add(b)
            elif b[0] == "fld" and b[2] == "m_points":
                out.add(s)
    return out


def clones(ev):
    """fresh points whose coordinates come from another point: {object: (sources, {attr: [(value, conds)]}, conds, fn, node)}"""
    objs = {}
    ks = {}
    for kind, t, v, conds, loops, fn, node in ev.trace:
        if kind == "K":
            m = member(t)
            if m and m[1] == "x":
                ks.setdefault((fn.key, node), []).append((m[0], conds, fn, node, loops))
        if kind != "W" or t[0] == "size":
            continue
        m = member(t)
        if m is None and t[0] == "idx" and fresh(t[1]) and v is not None and v[0] == "idx" and strip_phi(v[1])[0] == "idx":
            m = t[1], "x[]"      # coordinates through the subscript operator
        if m is None:
            continue
        o, a = m
        if not fresh(o):
            continue
        d = objs.setdefault(o, dict(src=set(), at={}, conds=None, fn=fn, node=node, loops=loops))
        if a in ("x", "x[]"):
            if v is not None:
                s = {z for z in point_source(v) if not fresh(z)}
                if v[0] == "idx" and a == "x":
                    s.add(strip_phi(v))
                if a == "x[]":
                    # gathering one coordinate of many points is no clone
                    b = {z for z in sym.subterms(t[-1]) if z[0] == "bv"}
                    s = {z for z in s if not b & set(sym.subterms(z))}
                if s:
                    d["src"] |= s
                    d["conds"] = conds if d["conds"] is None else d["conds"]
                    d["fn"], d["node"], d["loops"] = fn, node, loops
        else:
            d["at"].setdefault(a, []).append((v, conds, loops))
    for k, l in ks.items():
        dst = [x for x in l if fresh(x[0])]
        src = [x for x in l if not fresh(x[0])]
        for o, conds, fn, node, loops in dst:
            if src:
                d = objs.setdefault(o, dict(src=set(), at={}, conds=None, fn=fn, node=node, loops=loops))
                d["src"] |= {x[0] for x in src}
                d["conds"] = conds
                d["fn"], d["node"], d["loops"] = fn, node, loops
    return {o: d for o, d in objs.items() if d["src"]}


def check(p, rep):
    rep.rule("complete", "the copying operations of datasets and points give every member of the copy the value of that member in the original")
    rep.rule("covered", "the copying operations clone every point of the original, in order, on every path")
    rep.rule("carried", "a point cloned from another one gets its label, multiplier and id as well as its coordinates")
    rep.rule("independent", "no dataset or learner keeps a point, or the dataset itself, that it was given by reference or that belongs to the dataset it was derived from")
    rep.rule("members", "every member of a dataset or point except the point list is held by value, so that copying it leaves nothing shared")
    fns = sorted((f for f in p.fns.values() if f.body >= 0 and not f.d.get("implicit") and not f.d.get("defaulted")), key=lambda f: f.key)
    seen = set()
    runs = {}

    def get(f):
        if f.key not in runs:
            runs[f.key] = run(f)
        return runs[f.key]
    for f in fns:
        sq = ir.short(f.q)
        isd = bare(f.rec or "").startswith("mltk::Data<")
        isp = bare(f.rec or "").startswith("mltk::Point<")
        one = len(f.params) == 1
        cc = f.d.get("kind") == "ctor" and one and bare(f.params[0]["t"]) == bare(f.rec or "")
        ca = f.n == "operator=" and one and bare(f.params[0]["t"]) == bare(f.rec or "")
        cp = f.n == "copy" and isd
        conv = isp and f.d.get("kind") == "ctor" and one and bare(f.params[0]["t"]).startswith("mltk::Point<")
        if not (isd and (cc or ca or cp) or isp and (cc or conv)):
            continue
        r, ev = get(f)
        src = ("par", 0, f.params[0]["n"]) if f.params else ("this",)
        if isp:
            # conversions from lazy expressions name their members differently
            ps = f.params[0]["t"]
            fl = p.all_fields(bare(ps))
            if not any(x["n"] == "y" for b, x in fl):
                continue
        for b, fl in p.all_fields(f.rec):
            n = fl["n"]
            if n == "m_points" or fl.get("static"):
                continue
            if isp and n == "x" and not cc:
                continue       # coordinates are compared by P22
            want = norm(("fld", ("par", 0, "") if f.params else ("this",), n))
            if f.params:
                v = norm(ev.load(("fld", ("this",), n)))
                old = ("fld", ("this",), n)
            else:
                t = r
                v = None
                old = None
                if isinstance(t, tuple) and t and t[0] == "struct":
                    v = next((norm(x[2]) for x in t[2:] if x[1] == n), None)
            c = "%s::%s .%s" % (bare(f.rec).split("<")[0].replace("mltk::", ""), f.n, n)
            key = "complete|%s::%s|%s" % (bare(f.rec).split("<")[0], f.n, n)
            if v is None:
                rep.unk("complete", c, "value of the member not resolved", f.loc())
                continue
            rep.put(same_member(v, want, old, n, src), "complete", c, "the copy has %s = %s" % (n, sym.show(v)[:120]), f.loc(), key)
        if isd:
            coverage(p, rep, f, ev, src)
    # attribute transfer
    done = {}
    for f in fns:
        if not (f.rec and bare(f.rec).startswith("mltk::Data<")) and not f.sq.startswith(("mltk::validation::partTrainTest", "mltk::validation::kfoldsplit", "mltk::make_")):
            continue
        if f.sq in ("mltk::Data::load", "mltk::Data::operator<<"):
            continue
        try:
            r, ev = get(f)
        except RecursionError:
            rep.unk("carried", f.sq, "not analysable", f.loc())
            continue
        for o, d in clones(ev).items():
            for a in ATTRS:
                k = (d["fn"].sq, d["fn"].loc(d["node"]), a)
                got = d["at"].get(a, [])
                ok, why = None, ""
                if not got:
                    ok, why = False, "the clone never gets its %s" % a
                else:
                    good = [g for g in got if exact(g[0], a, d["src"])]
                    if not good:
                        other = [g for g in got if g[0] is not None and g[0][0] == "fld" and g[0][2] != a and strip_phi(g[0][1]) in d["src"] or g[0] is not None and g[0][0] in ("num", "bv")]
                        ok, why = (False, "the %s of the clone is %s" % (a, sym.show(other[0][0])[:80])) if other else (None, "value of %s not resolved" % a)
                    elif not any(set(g[1]) <= set(d["conds"] or ()) for g in good):
                        ok, why = None, "the %s is copied under further conditions" % a
                        if all(len(g[1]) > len(d["conds"] or ()) for g in good):
                            ok = False
                    elif got[-1] not in good:
                        ok, why = None, "the %s is changed again" % a
                    else:
                        ok = True
                prev = done.get(k)
                if prev is None or prev[0] is None or ok is False:
                    done[k] = (ok, why, d, a)
    for k, (ok, why, d, a) in sorted(done.items()):
        rep.put(ok, "carried", "%s .%s" % (k[0].replace("mltk::", ""), a), why, k[1], "carried|%s|%s" % (k[0], a))
    independent(p, rep)
    T = effects.Types(p)
    for rec in sorted(p.records):
        if rec.startswith(("mltk::Data<", "mltk::Point<")):
            for fl in p.records[rec].get("fields", []):
                if fl["n"] == "m_points":
                    continue
                if rec.startswith("mltk::Point<") and fl["n"] == "x" and not fl["t"].startswith(("std::vector", "std::array")):
                    continue    # representation of lazy expressions
                rep.put(True if T.deep(fl["t"]) else False, "members", "%s.%s" % (rec.split("<")[0].replace("mltk::", ""), fl["n"]), "the member of type %s is shared by copies" % fl["t"][:60], "", "members|%s|%s" % (rec.split("<")[0], fl["n"]))
    rep.floor("complete", 40)
    rep.floor("covered", 2)
    rep.floor("carried", 9)
    rep.floor("independent", 100)
    rep.floor("members", 15)


def exact(v, a, srcs):
    return v is not None and v[0] == "fld" and v[2] == a and (strip_phi(v[1]) in srcs or not srcs)


def same_member(v, want, old, n, src):
    if v == want:
        return True
    # size and dimension are functions of the point list
    if n == "m_size" and v in (norm(("size", ("fld", ("par", 0, "") if src[0] == "par" else src, "m_points"))), norm(("size", norm(src)))):
        return True
    if n == "m_dim" and v[0] in ("ite", "size"):
        return True if any(s[0] == "fld" and s[2] == "m_points" for s in sym.subterms(v)) else None
    if v[0] == "ite":
        # self assignment: unchanged if source and destination are the same object
        c, a, b = v[1], v[2], v[3]
        cs = {s for s in sym.subterms(c) if s in (("this",), norm(src))}
        if len(cs) == 2:
            # which branch is the copy? (the other one keeps the object as it was)
            sh = sym.show(c)
            copy = b if "==" in sh and "not" not in sh else a if "!=" in sh and "not" not in sh else None
            if copy is not None:
                return same_member(copy, want, old, n, src)
        r = [same_member(x, want, old, n, src) for x in (a, b)]
        if r == [True, True]:
            return True
        if False in r:
            return False if old is None or old in (a, b) else None
        return None
    if v == old or v[0] in ("num", "str", "list", "null", "fld"):
        return False
    if v[0] == "obj" and not any(s[0] in ("par", "this") for s in sym.subterms(v)):
        return False
    return None


def coverage(p, rep, f, ev, src):
    """the store of clones into the point list runs over every point of the source"""
    c = "Data::%s" % f.n
    key = "covered|%s" % f.n
    base = None
    sts = []
    for kind, t, v, conds, loops, fn, node in ev.trace:
        if kind == "W" and t[0] == "idx" and t[1][0] == "fld" and t[1][2] == "m_points" and v is not None and fresh(v):
            sts.append((t, v, conds, loops, fn, node))
    if not sts:
        rep.unk("covered", c, "no store of cloned points recognised", f.loc())
        return
    want = {("size", ("fld", src, "m_points"))}
    for t, v, conds, loops, fn, node in sts:
        old = [x for x in leaves(v) if strip_phi(x)[0] in ("idx", "fld", "par")]
        if old and v[0] == "ite":
            rep.bad("covered", c, "the copy can hold %s, a point that existed before" % sym.show(old[0])[:80], fn.loc(node), "reused|%s" % f.n)
    for t, v, conds, loops, fn, node in sts:
        lp = [l for l in loops if l[0] is not None]
        if len(loops) != 1 or not lp:
            rep.unk("covered", c, "loop over the points not resolved", fn.loc(node))
            continue
        bv, lo, hi = lp[0]
        w = {sym.show(x) for x in want}
        ok = sym.show(lo) == "0" and sym.show(hi) in w
        cl = clones(ev).get(v)
        inner = [x for x in conds if any(s[0] == "bv" for s in sym.subterms(x))]
        guard = [x for x in conds if x not in inner and not all(s in (("this",), src) or s[0] not in ("par", "this", "fld", "size", "idx") for s in sym.subterms(x))]
        if inner:
            rep.put(False, "covered", c, "points are copied only if %s" % sym.show(inner[0])[:80], fn.loc(node), key)
        elif not ok:
            known = all(s[0] in ("num", "poly", "size", "fld", "par", "this", "mul", "bv", "call") or True for s in sym.subterms(hi))
            import numeval
            r = bounds_differ(lo, hi, src)
            rep.put(r, "covered", c, "the loop runs from %s to %s" % (sym.show(lo), sym.show(hi)[:60]), fn.loc(node), key)
        elif cl and not all(strip_phi(s)[0] == "idx" and strip_phi(s)[2] == bv for s in cl["src"]):
            rep.put(None, "covered", c, "the source of point i is not point i", fn.loc(node), key)
        elif guard:
            rep.unk("covered", c, "copied under the condition %s" % sym.show(guard[0])[:60], fn.loc(node))
        else:
            rep.ok("covered", c, "", fn.loc(node))


def leaves(v):
    """values a conditional value can take"""
    if v[0] == "ite":
        return leaves(v[2]) + leaves(v[3])
    return [v]


def bounds_differ(lo, hi, src):
    """False if the range certainly differs from [0, number of points of the source)"""
    import numeval
    diff = False
    for n in (1, 2, 3, 5):
        def bind(ne, t):
            if t[0] == "size" and t[1][0] == "fld" and t[1][2] == "m_points" and t[1][1] == src:
                return float(n)
            if t[0] == "fld" and t[2] == "m_size" and t[1] == src:
                return float(n)
            return None
        try:
            ne = numeval.NumEval(0, bind=bind)
            a, b = ne.ev(lo), ne.ev(hi)
        except (numeval.Undecided, numeval.Undefined):
            return None
        if (a, b) != (0, n):
            diff = True
    return not diff


def independent(p, rep):
    E = effects.program(p)
    for f in sorted(E.rel, key=lambda f: f.key):
        if f.d.get("implicit"):
            continue
        s = E.S[f.key]
        par = lambda k: f.params[k]
        bad = []
        n = len(f.params)
        for r, t in s.stores:
            if t[0] == "P":
                if (f.sq, n) in VIEWS and t[1][0] == "p" and len(t[1]) == 2:
                    pt = par(t[1][1])["t"]
                    if "shared_ptr<" in pt or pt.rstrip().endswith("*"):
                        continue
                if dataset_root(p, E, f, r):
                    bad.append("the dataset %s keeps points of %s" % (name(f, r), name(f, t[1])))
            elif t[0] == "D" and t[1][0] == "p" and len(t[1]) == 2:
                pt = par(t[1][1])["t"].rstrip()
                if "shared_ptr<" in pt or pt.endswith("*") or f.sq.startswith("mltk::visualize::"):
                    continue
                bad.append("%s refers to the dataset it was given by reference (%s)" % (name(f, r), name(f, t[1])))
        for t in s.retc:
            if t[0] == "P":
                bad.append("the returned dataset shares points with %s" % name(f, t[1]))
        if bad or touches(E, f):
            rep.put(not bad, "independent", f.sq.replace("mltk::", ""), "; ".join(sorted(set(bad))[:2]), f.loc(), "independent|%s|%d" % (f.sq, n))


def dataset_root(p, E, f, r):
    if r[0] == "t" and len(r) == 1:
        return E.T.level(f.rec) == "D"
    if r[0] == "p" and len(r) == 2:
        return E.T.level(f.params[r[1]]["t"]) == "D"
    return True


def touches(E, f):
    return any(E.T.level(x["t"]) in ("D", "P") for x in f.params) or E.T.level(f.rec or "") == "D" or E.T.level(f.d.get("ret") or "") in ("D", "P")


def name(f, r):
    if r[0] == "t":
        return ".".join(("this",) + r[1:])
    if r[0] == "p":
        return ".".join((f.params[r[1]]["n"] or "argument %d" % (r[1] + 1),) + r[2:])
    return "result"
