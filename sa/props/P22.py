"""Point arithmetic."""
import pointops, ir, sym
from report import AnchorError


def is_expr(t):
    """type is a point holding a lazy expression"""
    t = t.replace("const ", "").strip()
    return t.startswith("mltk::Point<") and any("mltk::%s_" % c in t for c in "AF")


def check(p, rep):
    pointops.check(p, rep)
    rep.floor("elementwise", 20)
    rep.floor("assignment", 12)
    rep.floor("reduction", 5)
    lifetime(p, rep)


NODES = ("mltk::BExprOp", "mltk::UExprOp", "mltk::A_Scalar", "mltk::Point")


def lifetime(p, rep):
    rep.rule("scalar-by-value", "lazy expression nodes hold scalar operands by value, and own their exponent")
    rep.rule("node-by-value", "lazy expression nodes hold the expressions they are made of by value")
    owned = True
    for n, r in sorted(p.records.items()):
        if not ir.short(n) in NODES and not ir.short(n).startswith("mltk::F_"):
            continue
        for f in r["fields"]:
            t = f["t"].strip()
            ref = t.endswith("&") or t.endswith("*")
            c = "%s.%s" % (ir.short(n), f["n"])
            scalar = "mltk::A_Scalar<" in t[:24] or (not "mltk::" in t and not "std::" in t)
            if scalar:
                rep.put(not ref, "scalar-by-value", c, "the node keeps a reference to a scalar operand (%s) that is a temporary of the operator that created it" % t, "")
            elif any("mltk::%s_" % x in t[:14] for x in "AF"):
                owned &= not ref
                rep.put(not ref, "node-by-value", c, "the node keeps a reference to the expression %s, which is a temporary when expressions are nested" % t[:60], "")
    rep.rule("no-escaping-expr", "no function returns a lazy expression over its own locals, and no local keeps a lazy expression over temporaries")
    rep.rule("scalar-alias", "a compound assignment does not read its scalar again through a reference after it changed a coordinate (the scalar may be one of them)")
    rep.floor("scalar-by-value", 2)
    for f in p.fns.values():
        alias(p, rep, f)
        ret = f.d.get("ret", "")
        for i in f.walk_all():
            n = f.N[i]
            if n["c"] == "ReturnStmt" and is_expr(ret):
                bad = [x for x in f.walk(i) if f.N[x]["c"] == "DeclRefExpr" and ((f.N[x].get("dk") == "var" and not f.N[x]["t"].endswith("&") and not localref(f, f.N[x]["id"])) or (f.N[x].get("dk") == "parm" and byval(f, f.N[x]["id"])))
                       and not scalar_t(f.N[x]["t"]) and not (owned and is_expr(f.N[x]["t"]))]
                mark(rep, f, i, bad, "returns a lazy expression referring to local %s" % (f.N[bad[0]]["n"] if bad else ""))
            elif n["c"] == "DeclStmt":
                for d in n.get("d", []):
                    if is_expr(d["t"]) and "init" in d and "drv" not in f.file:
                        # nodes inside the initialiser that are themselves expression temporaries
                        root = f.strip(d["init"])
                        bad = [x for x in f.walk(d["init"]) if x != root and ("f" in f.N[x] and "a" in f.N[x]) and (is_expr(f.N[x].get("t", "")) and not owned or leaf_temp(f, x))]
                        mark(rep, f, i, bad, "keeps a lazy expression whose operand %s is a temporary destroyed at the end of the statement" % (f.text(bad[0]) if bad else ""))


def leaf_temp(f, x):
    """a point (or vector) that is a temporary"""
    n = f.N[x]
    t = n.get("t", "").replace("const ", "").strip()
    return not n.get("lv") and (t.startswith("mltk::Point<") and not is_expr(t) or t.startswith("std::vector<"))


def alias(p, rep, f):
    if not (f.rec and ir.short(f.rec) == "mltk::Point" and f.n in ("operator+=", "operator-=", "operator*=", "operator/=", "operator=") and len(f.params) == 1):
        return
    q = f.params[0]
    el = f.rec.split("<", 1)[1].split(",")[0].strip()
    t = q["t"]
    if not scalar_t(t) or t.replace("const ", "").strip("& ") != el or f.n == "operator=":
        return
    bad = []
    if t.strip().endswith("&"):
        for g in [f] + list(p.lambdas_of(f) if hasattr(p, "lambdas_of") else []):
            for i in g.walk_all():
                n = g.N[i]
                if n["c"] == "DeclRefExpr" and n.get("id") == q["id"] and any(g.N[a]["c"] in ir.LOOPS or g.N[a]["c"] == "LambdaExpr" for a in g.ancestors(i)):
                    bad.append((g, i))
        for h in p.fns.values():
            if h.d.get("kind") == "lambda" or "(lambda" in h.q or "(anonymous" in h.q:
                if h.q.startswith(f.q):
                    for i in h.walk_all():
                        if h.N[i]["c"] == "DeclRefExpr" and h.N[i].get("id") == q["id"]:
                            bad.append((h, i))
    c = "Point::%s(%s)" % (f.n, "scalar")
    if bad:
        rep.bad("scalar-alias", c, "the scalar is read through a reference for every coordinate: p %s p[0] uses p[0] after it was changed" % f.n[8:], bad[0][0].loc(bad[0][1]))
    else:
        rep.ok("scalar-alias", c, "", f.loc())


def mark(rep, f, i, bad, msg):
    c = "%s" % f.sq
    if bad:
        rep.bad("no-escaping-expr", c, msg, f.loc(i))
    else:
        rep.ok("no-escaping-expr", c, "", f.loc(i))


def scalar_t(t):
    t = t.replace("const ", "").strip("& ")
    return t in ("double", "float", "int", "unsigned long", "unsigned int", "long")


def byval(f, pid):
    k = f.pid.get(pid)
    return k is not None and not f.params[k]["t"].endswith("&")


def localref(f, vid):
    v = f.vars.get(vid)
    return v is not None and v["t"].endswith("&")
