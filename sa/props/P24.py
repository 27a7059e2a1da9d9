"""Validation figures."""
import re
import sym, ir
from golden import *

STOP = ("mltk::validation::kfoldsplit", "mltk::validation::kfold", "mltk::validation::partTrainTest", "mltk::Data::shuffle", "mltk::Data::join")
X = ("par", 77, "")
MODEL = ("par", 78, "")


def canon(t):
    """predictions are one function of the point; the sample tested is one dataset"""
    def c1(s):
        if s[0] == "call" and s[1].startswith("mltk::") and s[1].endswith("::evaluate") and len(s) >= 4:
            return ("call", "mltk::Learner::evaluate", s[3])
        if s[0] == "call" and s[1].endswith("::getFormulationString"):
            return ("call", s[1])
        return s
    t = sym.rewrite(norm(t), c1)
    bases = {s[2][1] for s in sym.subterms(t) if s[0] == "call" and s[1] == "mltk::Learner::evaluate" and s[2][0] == "idx"}
    return sym.subst(t, {b: X for b in bases})


def ev_(x):
    return T(("call", "mltk::Learner::evaluate", w(x)))


def check(p, rep):
    rep.rule("report", "counts and ratios of the metrics report equal their definitions on the confusion matrix")
    rep.rule("labels", "counts and ratios of the classification report equal their definitions on the label vectors")
    rep.rule("accuracy", "accuracy figures equal their definitions")
    rep.rule("matrix", "the confusion matrix counts every point once, at [true class][predicted class]")
    rep.rule("fold", "cross-validation reports the mean error over the folds, and repetitions the mean over the executions")
    rep.rule("print", "every printed figure is the one its heading names")
    g = Golden(p, rep)
    for f in sorted(p.fns.values(), key=lambda f: f.key):
        s = f.sq
        if s == "mltk::validation::confusionMatrixAccuracy":
            M = par(0)
            tot = sumi(0, size(M), lambda i: sumi(0, size(M[i]), lambda j: M[i][j]))
            dia = sumi(0, size(M), lambda i: sumi(0, size(M[i]), lambda j: ifel(eq(i, j), M[i][j], 0)))
            g.ret("accuracy", f, 100 * dia / tot)
        elif s == "mltk::validation::accuracy":
            t, ev = sym.value_of(f, stop=tuple(ir.short(x.q) for x in p.fns.values() if x.n in ("evaluate", "train")))
            D = T(X)
            g.put("accuracy", name(f), f, canon(t) if t is not None else None, sumi(0, size(D), lambda i: eq(ev_(D[i]), D[i].y)) / size(par(0)))
        elif s == "mltk::validation::metricsReport":
            metrics(g, f)
        elif s == "mltk::validation::classificationReport":
            labels(g, f)
        elif s == "mltk::validation::generateConfusionMatrix":
            matrix(p, rep, f)
        elif s in ("mltk::validation::kfold", "mltk::validation::kkfold"):
            t, ev = sym.value_of(f, stop=STOP)
            if s.endswith("::kfold"):
                D = T(X)
                err = 100 * sumi(0, size(D), lambda i: ifel(eq(ev_(D[i]), D[i].y), 0, 1)) / size(D)
                acc = 100 - err
                gd = ONE
            else:
                e = sumi(0, par(2), lambda k: T(("call", "mltk::kf", w(par(5) + k)))) / par(2)
                err, acc = ifel(lt(0, par(2)), e, 0), ifel(lt(0, par(2)), 100 - e, 0)
            for n, sp in (("error", err), ("accuracy", acc)):
                v = ev.fieldof(t, n, None) if t is not None else None
                if v is not None:
                    v = canon(v) if s.endswith("::kfold") else runs(norm(v))
                g.put("fold", name(f) + " ." + n, f, v, sp, under={sym.cmp_("==", sym.ZERO, ("par", 5, "")): sym.ZERO})
        elif s == "mltk::validation::ValidationReport::print":
            prints(rep, f)
    rep.floor("report", 8)
    rep.floor("accuracy", 2)
    rep.floor("print", 4)


def runs(t):
    def r1(s):
        if s[0] == "fld" and s[2] == "error" and s[1][0] == "call" and s[1][1] == "mltk::validation::kfold":
            return ("call", "mltk::kf", s[1][2:][4]) if len(s[1]) >= 7 else s
        return s
    return sym.rewrite(t, r1)


def metrics(g, f):
    M, n = par(1), size(par(1))
    cnt = lambda c: sumi(0, n, lambda i: sumi(0, n, lambda j: ifel(c(i, j), M[i][j], 0)))
    dia, off, z = cnt(lambda i, j: eq(i, j)), cnt(lambda i, j: T(sym.not_(w(eq(i, j))))), T(sym.ZERO)
    acc = dia / size(par(0))
    figures(g, "report", f, "all classes positive", dia, z, z, off, acc, lambda t: sym.subst(norm(t), {("size", ("par", 2, "")): sym.ZERO}))

    def none(t):
        t = norm(t)
        flag = {v["id"] if "id" in v else k for k, v in f.vars.items() if re.match(r"std::vector<(char|bool|int)\b", v.get("t", ""))}
        unset = lambda s: sym.ZERO if s[0] == "phi" and s[2][0] == "idx" and s[2][1][0] == "loc" and s[2][1][1] in flag else s
        return sym.subst(sym.rewrite(t, unset), {("size", ("par", 2, "")): sym.ONE})
    figures(g, "report", f, "no class positive", z, dia, off, z, acc, none)


def figures(g, rule, f, label, tp, tn, fp, fn_, acc, pre, sizes=True):
    t, ev = g.run(f)
    zero = lambda x: w(x) == sym.ZERO
    spec = {"tp": tp, "tn": tn, "fp": fp, "fn": fn_, "accuracy": acc}
    sens, prec = tp / (tp + fn_), tp / (tp + fp)
    if not zero(tp):
        spec.update(sensitivity=sens, recall=sens, precision=prec, fscore=2 * prec * sens / (prec + sens))
    if not zero(tn):
        spec["specificity"] = tn / (tn + fp)
    if sizes:
        spec["error"] = 1 - acc
        spec["errors"] = fp + fn_
    for n, sp in spec.items():
        v = ev.fieldof(t, n, None) if t is not None else None
        g.put(rule, "%s, %s .%s" % (name(f), label, n), f, pre(v) if v is not None else None, sp, ragged=False)


def labels(g, f):
    a, b = par(0), par(1)
    n = size(a)
    both = lambda x, y: T(sym.bool2("and", w(x), w(y)))
    no = lambda x: T(sym.not_(w(x)))
    cnt = lambda same, pos: sumi(0, n, lambda i: ifel(both(same(eq(a[i], b[i])), pos(eq(a[i], 1))), 1, 0))
    yes = lambda x: x

    def binary(t):
        def r(s):
            if s[0] == "cmp" and s[1] == "==" and sym.num(2) in s[2:] and any(x[0] == "after" for x in sym.subterms(s)):
                return sym.ONE
            return s
        return sym.rewrite(norm(t), r)
    figures(g, "labels", f, "two classes", cnt(yes, yes), cnt(yes, no), cnt(no, no), cnt(no, yes), sumi(0, n, lambda i: eq(a[i], b[i])) / n, binary, sizes=False)


def has(t, what):
    lab = any(s[0] == "fld" and s[2] == "y" for s in sym.subterms(t))
    pr = any(s[0] == "call" and s[1].endswith("::evaluate") for s in sym.subterms(t))
    return lab, pr


def parts(f, i):
    """(variable -> the conditional statements that set it) and the breaks of a loop, without its inner loops"""
    sets, breaks = {}, []

    def go(x, ifs):
        n = f.N[x]
        c = n["c"]
        if c in ir.LOOPS and x != i:
            return
        if c == "IfStmt":
            k = [y for y in n["k"]]
            for j, y in enumerate(k):
                if y >= 0:
                    go(y, ifs + [(x, j)])
            return
        if c == "BreakStmt":
            breaks.append((x, ifs))
        if c == "BinaryOperator" and n.get("op") == "=":
            l = f.N[f.strip(n["k"][0])]
            if l["c"] == "DeclRefExpr" and ifs:
                sets.setdefault(l["id"], []).append((x, ifs[-1], n["k"][1]))
        for y in f.kids(x):
            go(y, ifs)
    for y in f.kids(i):
        go(y, [])
    return sets, breaks


def three(f, i, known):
    """value of a condition when only some variables are known: a number, or None"""
    i = f.strip(i, True)
    n = f.N[i]
    c = n["c"]
    if c in ("IntegerLiteral", "CXXBoolLiteralExpr"):
        return int(n.get("v", 0))
    if c == "DeclRefExpr":
        return known.get(n["id"])
    if c == "UnaryOperator" and n["op"] in ("!", "-"):
        v = three(f, n["k"][0], known)
        return None if v is None else (int(not v) if n["op"] == "!" else -v)
    if c == "BinaryOperator":
        a, b = (three(f, x, known) for x in n["k"][:2])
        op = n["op"]
        if op == "&&":
            return 0 if a == 0 or b == 0 else 1 if a and b else None
        if op == "||":
            return 1 if a or b else 0 if a == 0 and b == 0 else None
        if a is None or b is None:
            return None
        return {"==": int(a == b), "!=": int(a != b), "<": int(a < b), ">": int(a > b), "<=": int(a <= b), ">=": int(a >= b), "+": a + b, "*": a * b, "&": a & b, "|": a | b}.get(op)
    return None


def early(rep, f, used):
    """a search for several positions ends early only when none of them is still missing"""
    for i in [x for x in f.walk(f.body) if f.N[x]["c"] in ir.LOOPS]:
        sets, breaks = parts(f, i)
        found = {v: ws for v, ws in sets.items() if v in used and len(ws) == 1}
        if len(found) < 2 or not breaks:
            continue
        inits = {}
        for x in f.walk(f.body):
            n = f.N[x]
            if n["c"] == "BinaryOperator" and n.get("op") == "=":
                l = f.N[f.strip(n["k"][0])]
                if l["c"] == "DeclRefExpr" and not any(x == w_[0] for w_ in sets.get(l["id"], ())):
                    inits.setdefault(l["id"], []).append(three(f, n["k"][1], {}))
            elif n["c"] == "DeclStmt":
                for d in n.get("d", []):
                    if d.get("init", -1) >= 0:
                        inits.setdefault(d["id"], []).append(three(f, d["init"], {}))
        for b, ifs in breaks:
            for v, ws in sorted(found.items()):
                nm = f.vars.get(v, {}).get("n", str(v)) if isinstance(f.vars.get(v), dict) else str(v)
                here = ws[0][1]
                group = {u for u, us in sets.items() if len(us) == 1 and us[0][1] == here}
                known = {u: inits[u][0] for u in group if len(set(inits.get(u, []))) == 1}
                if v not in known or not ifs:
                    r = None
                else:
                    vals = []
                    ids = set()
                    for x, j in ifs:
                        c = f.N[x]["k"][0]
                        vals.append(0 if (x, j) == here else three(f, c, known))
                        ids |= {f.N[y]["id"] for y in f.walk(c) if f.N[y]["c"] == "DeclRefExpr"}
                    stop = 0 if 0 in vals else None
                    r = True if stop == 0 else False if ids <= set(sets) else None
                    if r is None and any((x, j) == u[0][1] for x, j in ifs for w_, u in found.items() if w_ != v):
                        r = False
                rep.put(r, "matrix", "%s search for %s" % (name(f), nm), "the loop over the classes can end before %s was compared with all of them" % nm, f.loc(b))


def matrix(p, rep, f):
    for i in f.walk(f.body):
        n = f.N[i]
        if n["c"] == "UnaryOperator" and n.get("op") == "++" and f.N[f.strip(n["k"][0], True)]["c"] in ("CXXOperatorCallExpr", "ArraySubscriptExpr"):
            early(rep, f, {f.N[y]["id"] for y in f.walk(i) if f.N[y]["c"] == "DeclRefExpr"})
    t, ev = sym.value_of(f)
    if t is None:
        rep.unk("matrix", name(f), "no value", f.loc())
        return
    cs = [s for s in ev.stores if s[1][0] == "idx" and s[1][1][0] == "idx" and s[1][1][1][0] == "loc"]
    if len(cs) != 1:
        rep.unk("matrix", name(f), "%d matrix stores" % len(cs), f.loc())
        return
    node, addr, v, conds, loops = cs[0]
    row, col = addr[1][2], addr[2]
    rl, rp = has(row, 0)
    cl, cp = has(col, 0)
    msg = "row index from %s, column index from %s" % ("/".join(x for x, y in (("label", rl), ("prediction", rp)) if y) or "?", "/".join(x for x, y in (("label", cl), ("prediction", cp)) if y) or "?")
    r = True if (rl, rp, cl, cp) == (True, False, False, True) else False if (rl, rp, cl, cp) == (False, True, True, False) else None
    rep.put(r, "matrix", name(f) + " orientation", msg, f.loc(node))
    d = sym.sub(v, ONE)
    rep.put(True if d[0] in ("phi", "idx") else None, "matrix", name(f) + " increment", "each point adds %s" % sym.show(v)[:200], f.loc(node))
    n = w(norm(w(size(par(0)))))
    lo = [norm(l[1]) for l in loops if l[0] is not None]
    hi = [norm(l[2]) for l in loops if l[0] is not None]
    ok = len(loops) == 1 and lo == [sym.ZERO] and hi == [n] and not conds
    bad = len(loops) == 1 and len(hi) == 1 and not conds and not opaque(hi[0]) and not opaque(lo[0]) and not ok
    rep.put(True if ok else False if bad else None, "matrix", name(f) + " coverage", "counted for positions %s..%s %s" % ([sym.show(x) for x in lo], [sym.show(x) for x in hi], [sym.show(c)[:80] for c in conds]), f.loc(node))


WORDS = [("true positive rate", {"tprate", "recall", "sensitivity"}), ("true negative rate", {"tnrate", "specificity"}), ("true positive", {"tp", "truePositive"}), ("true negative", {"tn", "trueNegative"}), ("false positive", {"fp", "falsePositive"}),
         ("false negative", {"fn", "falseNegative"}), ("precision", {"precision"}), ("recall", {"recall", "sensitivity"}), ("sensitivity", {"sensitivity", "recall"}),
         ("specificity", {"specificity", "tnrate"}), ("f1", {"fscore"}), ("fscore", {"fscore"}), ("f-score", {"fscore"}), ("accuracy", {"accuracy"}), ("errors", {"errors"}), ("error", {"error", "errors"})]


def prints(rep, f):
    seq = []

    def flat(i):
        i = f.strip(i, True)
        n = f.N[i]
        if n["c"] == "CXXOperatorCallExpr" and n.get("op") == "<<":
            flat(n["a"][0])
            flat(n["a"][1])
        elif n["c"] == "StringLiteral":
            seq.append(("s", n.get("v", ""), i))
        elif n["c"] == "MemberExpr" and n["k"] and f.N[f.strip(n["k"][0])]["c"] == "CXXThisExpr":
            seq.append(("m", n["n"], i))
        else:
            seq.append(("?", n["c"], i))

    def top(i):
        n = f.N[i]
        if n["c"] == "CXXOperatorCallExpr" and n.get("op") == "<<":
            flat(i)
            seq.append(("end", "", i))
            return
        for k in f.kids(i):
            top(k)
    top(f.body)
    for a, b in zip(seq, seq[1:]):
        if a[0] != "s":
            continue
        want = next((m for k, m in WORDS if k in a[1].lower()), None)
        if want is None:
            continue
        if b[0] == "m":
            rep.put(b[1] in want, "print", "%s '%s'" % (name(f), a[1].strip()), "prints the member %s" % b[1], f.loc(b[2]))
        else:
            rep.unk("print", "%s '%s'" % (name(f), a[1].strip()), "what follows the heading is not a member", f.loc(a[2]))
