"""Hyper-parameters: every constructor and setter parameter ends up in the object, getters report
it, operations read it, inner trainers and copies receive it."""
import re
import ir, sym
from golden import norm
from props.common import *

SKIP = ("mltk::Point", "mltk::A_", "mltk::F_", "mltk::BExp", "mltk::UExp", "mltk::Data::Data", "Gnuplot", "mltk::ThreadPool", "mltk::synced_stream", "mltk::timer", "mltk::validation::TrainTestPair")

# settings every learner has; who must obey which (from the documentation of the learners)
NEEDS = {
    "mltk::classifier::BalancedPerceptron": "rate max_time MAX_UP MAX_EPOCH seed",
    "mltk::classifier::PerceptronPrimal": "rate max_time MAX_IT MAX_UP",
    "mltk::classifier::PerceptronFixedMarginPrimal": "rate max_time MAX_IT MAX_UP gamma q flexible",
    "mltk::classifier::PerceptronDual": "rate max_time MAX_IT MAX_UP kernel",
    "mltk::classifier::PerceptronFixedMarginDual": "rate max_time MAX_IT MAX_UP gamma kernel",
    "mltk::classifier::IMAp": "rate max_time MAX_IT MAX_UP q flexible alpha_aprox margin verbose",
    "mltk::classifier::IMApFixedMargin": "rate max_time MAX_IT MAX_UP gamma q flexible",
    "mltk::classifier::IMADual": "rate max_time MAX_IT MAX_UP kernel verbose",
    "mltk::classifier::SMO": "kernel_type kernel_param kernel MAX_EPOCH EPS verbose C",
    "mltk::classifier::KNNClassifier": "k distances precomputed algorithm",
    "mltk::classifier::OneVsAll": "seed samp_method",
    "mltk::classifier::OneVsOne": "seed samp_method",
    "mltk::clusterer::KMeans": "n_clusters initialization seed max_time verbose",
    "mltk::ensemble::AdaBoostClassifier": "seed n_estimators",
    "mltk::ensemble::BaggingClassifier": "seed",
    "mltk::ensemble::PerceptronCommittee": "seed n",
    "mltk::ensemble::VotingClassifier": "seed weights voting_type",
    "mltk::regressor::LMSPrimal": "rate max_time MAX_IT EPS verbose",
    "mltk::regressor::KNNRegressor": "k",
    "mltk::featselect::RFE": "depth jump cv leave_one_out verbose classifier",
    "mltk::featselect::AOS": "depth breadth cut sorting_shape choice_shape look_ahead_depth g_margin cv verbose classifier",
    "mltk::featselect::Fisher": "number classifier verbose",
    "mltk::featselect::Golub": "number classifier verbose",
    "mltk::SMOTE": "k r seed distance_metric",
    "mltk::BorderlineSMOTEOne": "k r m seed distance_metric",
}
# settings an inner trainer must be given by the learner that owns it
HANDED = {"mltk::classifier::IMAp": "rate max_time MAX_UP MAX_IT q flexible",
          "mltk::classifier::IMADual": "rate max_time MAX_UP MAX_IT kernel"}
CONFIG = set("rate start_time max_time EPS MIN_INC MAX_IT MAX_UP MAX_EPOCH verbose seed samples gamma hasInitialSolution q p flexible alpha_aprox kernel_type kernel_param kernel weights voting_type m_learners c_size n_clusters k initialization algorithm distances precomputed n_estimators base_learners samp_method".split())
# members of settings whose setter has no getter
SETS = {"setMaxUpdates": "MAX_UP", "setMaxIterations": "MAX_IT", "setMaxEpochs": "MAX_EPOCH", "setLearningRate": "rate", "setMaxTime": "max_time", "setStartTime": "start_time", "setqNorm": "q", "setpNorm": "p", "setSeed": "seed", "setVerbose": "verbose", "setEPS": "EPS", "setGamma": "gamma", "setFlexible": "flexible", "setAlphaAprox": "alpha_aprox", "setVotingType": "voting_type", "setFinalDimension": "final_dim", "setDepth": "depth", "setJump": "jump", "setSkip": "skip", "setBreadth": "breadth", "setCut": "cut", "setLookAheadDepth": "look_ahead_depth", "setChoiceShape": "choice_shape", "setSortingShape": "sorting_shape", "setSteps": "steps", "setCtot": "ctot"}
DERIVED = {("mltk::featselect::AOS", "final_dim"): "depth", ("mltk::RSM", "dims"): "n_dims"}


def key(n):
    return re.sub(r"[^a-z]", "", n.lower())


def tokens(t):
    return [s for s in sym.subterms(t) if s[0] == "par"]


def is_param(t, k):
    t = norm(t)
    if t[0] == "par" and t[1] == k:
        return True
    return False


class Ctx:
    def __init__(self, p, rep):
        self.p, self.rep = p, rep
        self.evs = {}

    def run(self, f):
        if f.key not in self.evs:
            self.evs[f.key] = sym.value_of(f)
        return self.evs[f.key]

    def cells(self, f):
        """(name, address, value) of every member of the object after f, one level into objects it owns"""
        t, ev = self.run(f)
        out = []
        for b, fl in self.p.all_fields(f.rec):
            a = ("fld", ("this",), fl["n"])
            v = ev.load(a)
            out.append((fl["n"], a, v))
            ty = bare(fl["t"])
            sub = None
            for x in (ty, ty.rstrip("*").strip(), bare(ty.rstrip("*").strip())):
                if x in self.p.records:
                    sub = x
            if sub is None:
                m = re.match(r"std::(?:shared_ptr|unique_ptr)<(.*?)(?:, std::default_delete<.*)?>$", ty)
                if m and m.group(1).strip() in self.p.records:
                    sub = m.group(1).strip()
            if sub and short_rec(sub) in ("mltk::Kernel", "mltk::Solution", "mltk::ensemble::PerceptronCommittee"):
                for b2, f2 in self.p.all_fields(sub):
                    a2 = ("fld", a, f2["n"])
                    out.append((f2["n"], a2, ev.load(a2)))
                    if v[0] not in ("par", "fld"):
                        out.append((f2["n"], a2, ev.load(("fld", v, f2["n"]))))
        return out


def short_rec(r):
    return ir.short(r)


def conditions(fn):
    """nodes used as branch conditions only"""
    out = set()
    for b in fn.cfg.blocks.values() if isinstance(fn.cfg.blocks, dict) else fn.cfg.blocks:
        if "cond" in b:
            out |= set(fn.walk(b["cond"]))
    return out


def param_refs(f, pid):
    """uses of a parameter outside branch conditions, initialisers included"""
    cond = conditions(f)
    n = 0
    for i, x in enumerate(f.N):
        if x["c"] == "DeclRefExpr" and x.get("id") == pid and i not in cond:
            n += 1
        if x["c"] == "LambdaExpr" and any(c.get("id") == pid for c in x.get("caps", [])):
            n += 1
    return n


def stored(cx, f, k, pm, cells):
    """(status, how)"""
    exact, part = [], []
    for n, a, v in cells:
        if is_param(v, k):
            exact.append(n)
        elif any(s[1] == k for s in tokens(v)):
            part.append(n)
    return exact, part


def check_store(cx, f, rule):
    p, rep = cx.p, cx.rep
    cells = cx.cells(f)
    who = f.sq.replace("mltk::", "")
    rec = short_rec(f.rec)
    fields = {key(n): n for n, a, v in cells if a[1] == ("this",)}
    same_name = {}
    for n, a, v in cells:
        same_name.setdefault(key(n), []).append((n, a, v))
    for k, pm in enumerate(f.params):
        t = pm["t"]
        c = "%s(%s)" % (who, pm["n"])
        kk = "%s|%s|%s" % (rule, who, pm["n"])
        exact, part = stored(cx, f, k, pm, cells)
        data = "Data<" in t
        twin = [x for x in same_name.get(key(pm["n"]), []) if x[1][1] == ("this",)]
        derived = DERIVED.get((rec, pm["n"]))
        if exact:
            # a parameter with a member of its own name must be in that one
            wrong = [x for x in twin if not is_param(x[2], k) and tokens(x[2])and not any(s[1] == k for s in tokens(x[2]))]
            if wrong:
                rep.bad(rule, c, "the parameter %s is stored in %s while the member %s receives %s" % (pm["n"], ", ".join(exact), wrong[0][0], sym.show(wrong[0][2])[:80]), f.loc(), kk)
            else:
                rep.ok(rule, c, "stored in " + ", ".join(sorted(set(exact))))
            continue
        if part:
            if t.strip().endswith("*") or data or "shared_ptr" in t or "vector" in t or "Point<" in t:
                rep.ok(rule, c, "reaches " + ", ".join(sorted(set(part))))
            elif derived:
                rep.put(derived in part, rule, c, "expected in %s" % derived, f.loc(), kk)
            elif twin and not any(is_param(x[2], k) for x in twin):
                v = twin[0][2]
                if any(s[0] in ("phi", "out", "after", "sym") for s in sym.subterms(v)):
                    rep.unk(rule, c, "member %s is %s" % (twin[0][0], sym.show(v)[:100]), f.loc())
                else:
                    rep.bad(rule, c, "the parameter %s is stored as %s" % (pm["n"], sym.show(v)[:120]), f.loc(), kk)
            else:
                v = next(v for n, a, v in cells if n == part[0])
                rep.unk(rule, c, "only in a derived value: %s" % sym.show(v)[:100], f.loc())
            continue
        # not in any member: does it leave the function another way?
        refs = param_refs(f, pm["id"])
        if refs == 0:
            rep.bad(rule, c, "the parameter %s is accepted and ignored: no member or callee receives it" % pm["n"], f.loc(), kk)
        elif is_config_type(t) and twin and not any(s[0] in ("phi", "out", "after") for s in sym.subterms(twin[0][2])):
            rep.bad(rule, c, "the member %s is %s, the parameter %s is not stored" % (twin[0][0], sym.show(twin[0][2])[:80], pm["n"]), f.loc(), kk)
        else:
            rep.unk(rule, c, "used, but the analysis finds it in no member", f.loc())


def is_config_type(t):
    t = bare(t)
    return not ("Data<" in t or "*" in t or "std::" in t or "Point<" in t)


# ---- reading

def operations(p, c):
    fs, drop = [], set()
    for b in p.all_bases(c):
        for f in p.methods(b):
            if f.d.get("kind") in ("ctor", "dtor") or re.match(r"(set|get)[A-Z_]", f.n) or f.n.startswith(("operator=", "~")):
                continue
            fs.append(f)
            drop |= set(f.d.get("ovr", []))
    return [f for f in fs if f.key not in drop]


def on_this(fn, i):
    n = fn.N[i]
    if n["c"] != "CXXMemberCallExpr":
        return False
    return "o" not in n or fn.N[fn.strip(n["o"])]["c"] == "CXXThisExpr"


def closure(p, c):
    bases = set(p.all_bases(c))
    seen, st = {}, operations(p, c)
    while st:
        f = st.pop()
        if f.key in seen:
            continue
        seen[f.key] = f
        for i in f.calls():
            n = f.N[i]
            if n.get("f", {}).get("rec") in bases and on_this(f, i):
                st += [t for t in p.call_targets(f, i) if t.rec in bases and t.d.get("kind") != "ctor"]
        for n in f.N:
            if n["c"] == "LambdaExpr":
                for k in ([n["lk"]] if "lk" in n else n.get("specs", [])):
                    if k in p.fns:
                        st.append(p.fns[k])
    return list(seen.values())


def reads(p, c):
    r = {}
    for f in closure(p, c):
        for i, n in enumerate(f.N):
            if n["c"] == "MemberExpr" and n.get("dk") == "field" and n["k"] and f.N[f.strip(n["k"][0])]["c"] == "CXXThisExpr":
                par = f.parent.get(i)
                pn = f.N[par] if par is not None else {}
                if pn.get("c") == "BinaryOperator" and pn.get("op") == "=" and pn["k"][0] == i:
                    continue
                if pn.get("c") == "CXXOperatorCallExpr" and pn.get("op") == "=" and pn["a"] and pn["a"][0] == i:
                    continue
                if discarded(f, i):
                    continue
                r.setdefault(n["n"], []).append(f.sq)
    return r


def discarded(f, i):
    """a read whose value is thrown away: (void)x, or an expression statement"""
    par = f.parent
    while i in par:
        n = f.N[par[i]]
        if n["c"] in ("ImplicitCastExpr", "ParenExpr") or n["c"] in ir.EXPLICIT_CASTS:
            if n.get("ck") == "ToVoid":
                return True
            i = par[i]
            continue
        return n["c"] == "CompoundStmt"
    return False


def sets_of(cx):
    """setter -> the members of the object it stores a parameter into"""
    out = {}
    for f in cx.p.fns.values():
        if f.rec and re.match(r"set[A-Za-z]", f.n) and len(f.params) == 1 and not f.sq.startswith(SKIP):
            t, ev = cx.run(f)
            ms = [s[1][2] for s in ev.stores if isinstance(s[1], tuple) and s[1][0] == "fld" and s[1][1] == ("this",) and is_param(s[2], 0)]
            out[f.key] = ms
    return out


def check(p, rep):
    rep.rule("constructor", "every constructor parameter is stored in the member it is meant for (or demonstrably handed on)")
    rep.rule("setter", "every setter stores its parameter")
    rep.rule("getter", "a getter returns the member its setter stores into")
    rep.rule("used", "the settings a learner documents are read by its operations")
    rep.rule("handed", "an inner trainer is given the owner's settings")
    rep.rule("copied", "a user-written copy carries every setting")
    cx = Ctx(p, rep)
    # ---- constructors
    own = {}
    for f in sorted(p.fns.values(), key=lambda f: f.key):
        if f.d.get("kind") != "ctor" or f.d.get("implicit") or f.d.get("defaulted") or f.d.get("ck") or not f.params or not f.rec or "(lambda" in f.q:
            continue
        if f.sq.startswith(SKIP):
            continue
        check_store(cx, f, "constructor")
        for n, a, v in cx.cells(f):
            if a[1] == ("this",) and norm(v)[0] == "par" and is_config_type(f.params[norm(v)[1]]["t"]):
                if param_refs(f, f.params[norm(v)[1]]["id"]) <= 1:
                    own.setdefault(f.rec, set()).add(n)
    # ---- setters
    where = {}
    for f in sorted(p.fns.values(), key=lambda f: f.key):
        if not f.rec or not re.match(r"set[A-Za-z]", f.n) or not f.params or f.sq.startswith(("Gnuplot",)):
            continue
        t, ev = cx.run(f)
        who = f.sq.replace("mltk::", "")
        for k, pm in enumerate(f.params):
            hit = [s for s in ev.stores if isinstance(s[2], tuple) and any(x[1] == k for x in tokens(s[2]))]
            exact = [s for s in hit if is_param(s[2], k) and sym.root(s[1]) == ("this",)]
            idx = [s for s in ev.stores if isinstance(s[1], tuple) and any(x[1] == k for x in tokens(s[1]))]
            c = "%s(%s)" % (who, pm["n"])
            kk = "setter|%s|%s" % (who, pm["n"])
            if exact:
                # the last store into that member must be the parameter
                dead = []
                for s in exact:
                    v = ev.load(s[1])
                    if not is_param(v, k):
                        dead.append((s, v))
                live = [s for s in exact if s not in [d[0] for d in dead]]
                if live:
                    for s in live:
                        if s[1][0] == "fld" and s[1][1] == ("this",):
                            where.setdefault(f.rec, {}).setdefault(key(f.n[3:]), set()).add(s[1][2])
                    names = {fl["n"] for b, fl in p.all_fields(f.rec)}
                    if f.n in SETS and SETS[f.n] in names and not any(s[1] == ("fld", ("this",), SETS[f.n]) for s in live):
                        rep.bad("setter", c, "stored in %s, not in %s" % (sym.show(live[0][1]), SETS[f.n]), f.loc(), kk)
                        continue
                    twin = [fl["n"] for b, fl in p.all_fields(f.rec) if key(fl["n"]) == key(pm["n"])]
                    if twin and not any(s[1][0] == "fld" and s[1][2] in twin for s in live) and len(f.params) == 1 and any(tokens(ev.load(("fld", ("this",), x))) for x in twin):
                        rep.bad("setter", c, "stored in %s, not in %s" % (sym.show(live[0][1]), twin[0]), f.loc(), kk)
                    else:
                        rep.ok("setter", c, "stores into " + ", ".join(sym.show(s[1]) for s in live))
                else:
                    v = dead[0][1]
                    if v[0] == "ite" and any(x[1] == k for x in tokens(v)):
                        rep.bad("setter", c, "stores the parameter only under a condition: %s" % sym.show(v)[:150], f.loc(), kk)
                    else:
                        rep.bad("setter", c, "the value stored is overwritten by %s" % sym.show(v)[:150], f.loc(), kk)
            elif hit:
                s = hit[0]
                if is_config_type(pm["t"]) and s[1][0] == "fld" and s[1][1] == ("this",) and not any(x[0] in ("phi", "out", "after") for x in sym.subterms(s[2])):
                    rep.bad("setter", c, "stores %s instead of the parameter" % sym.show(s[2])[:120], f.loc(), kk)
                else:
                    rep.unk("setter", c, "stores a derived value %s" % sym.show(s[2])[:100], f.loc())
            elif idx:
                rep.ok("setter", c, "selects the element that is set")
            elif param_refs(f, pm["id"]) == 0:
                rep.bad("setter", c, "the parameter is ignored", f.loc(), kk)
            elif is_config_type(pm["t"]) and not [i for i in f.calls() if not f.N[i]["f"].get("repo") is None and f.N[i]["f"].get("repo")]:
                rep.bad("setter", c, "no member receives the parameter", f.loc(), kk)
            else:
                rep.unk("setter", c, "the parameter is used, but no store of it is resolved", f.loc())
    # kernel settings also reach a kernel that exists already
    for f in sorted(p.fns.values(), key=lambda f: f.key):
        if f.sq in ("mltk::classifier::DualClassifier::setKernelParam", "mltk::classifier::DualClassifier::setKernelType"):
            t, ev = cx.run(f)
            n = "param" if f.n.endswith("Param") else "type"
            v = ev.load(("fld", ("fld", ("this",), "kernel"), n))
            if any(s[0] == "ite" for s in sym.subterms(v)):
                v = sym.rewrite(v, lambda s: s[2] if s[0] == "ite" and any(x[0] == "par" for x in sym.subterms(s[2])) else s)
            rep.put(True if is_param(v, 0) else (False if v == ("fld", ("fld", ("this",), "kernel"), n) else None), "setter", "%s existing kernel" % f.sq.replace("mltk::", ""), "an existing kernel keeps %s" % sym.show(v)[:100], f.loc())
    for f in sorted(p.fns.values(), key=lambda f: f.key):
        if f.rec in p.derived("mltk::classifier::DualClassifier") and f.d.get("kind") != "ctor":
            for i, n in enumerate(f.N):
                if n["c"] == "CXXConstructExpr" and n["f"]["fq"].endswith("::Kernel") and not n["f"].get("ck") and len(n["a"]) == 2 and n["f"].get("rec", "").startswith("mltk::Kernel"):
                    src = [source_field(f, resolve(f, a)) for a in n["a"]]
                    rep.put(src == ["kernel_type", "kernel_param"], "handed", "%s creates a kernel" % f.sq.replace("mltk::", ""), "the kernel is created with (%s) instead of the configured type and parameter" % ", ".join(f.text(a) for a in n["a"]), f.loc(i), "handed|%s|kernel" % f.sq)
    # ---- getters
    for f in sorted(p.fns.values(), key=lambda f: f.key):
        if not f.rec or not re.match(r"get[A-Za-z]", f.n) or f.params or f.sq.startswith("Gnuplot"):
            continue
        t, ev = cx.run(f)
        want = None
        for b in p.all_bases(f.rec):
            for kn in (key(f.n[3:]), key(f.n[3:]) + "norm"):
                want = want or where.get(b, {}).get(kn)
        if not want:
            # named after a member of the class
            m = [fl["n"] for b, fl in p.all_fields(f.rec) if key(fl["n"]) == key(f.n[3:])]
            if len(m) != 1:
                continue
            want = set(m)
        if t is None:
            rep.unk("getter", f.sq, "no value", f.loc())
            continue
        t = norm(t)
        addr = {("fld", ("this",), w_) for w_ in want}
        if t in {norm(a) for a in addr} or t in addr:
            rep.ok("getter", f.sq)
        elif f.n in ("getUpdates",):
            rep.unk("getter", f.sq, "", f.loc())
        elif any(s in addr for s in sym.subterms(t)) and t[0] != "fld":
            if t[0] in ("poly", "num", "ite", "not", "cmp", "bool"):
                rep.bad("getter", f.sq, "returns %s" % sym.show(t)[:120], f.loc(), "getter|" + f.sq)
            else:
                rep.unk("getter", f.sq, "returns %s" % sym.show(t)[:120], f.loc())
        elif t[0] in ("num", "poly", "fld", "str"):
            rep.bad("getter", f.sq, "the setter stores into %s, the getter returns %s" % (", ".join(sorted(want)), sym.show(t)[:100]), f.loc(), "getter|" + f.sq)
        else:
            rep.unk("getter", f.sq, "returns %s" % sym.show(t)[:120], f.loc())
    # ---- used
    for c in sorted(p.records):
        s = short_rec(c)
        if s not in NEEDS and c not in own:
            continue
        if s.startswith(("mltk::Kernel", "mltk::metrics", "mltk::featselect::AOS::Hash", "mltk::visualize")) or p.records[c].get("abstract"):
            continue
        if s in ("mltk::classifier::Classifier", "mltk::classifier::PrimalClassifier", "mltk::classifier::DualClassifier", "mltk::clusterer::Clusterer", "mltk::Learner"):
            continue
        r = reads(p, c)
        fields = {fl["n"] for b, fl in p.all_fields(c)}
        want = set(NEEDS.get(s, "").split()) | own.get(c, set())
        for n in sorted(want):
            k = "used|%s|%s" % (s, n)
            if n not in fields:
                rep.unk("used", "%s.%s" % (s, n), "no such member")
                continue
            rep.put(n in r, "used", "%s.%s" % (s.replace("mltk::", ""), n), "the setting %s is stored but no operation of %s reads it" % (n, s), p.records[c].get("l", ""), k)
    # ---- handed
    st = sets_of(cx)
    for c in sorted(p.records):
        s = short_rec(c)
        if s not in HANDED:
            continue
        fs = [f for f in closure(p, c) if f.sq.startswith(s + "::")]
        for n in HANDED[s].split():
            good, other = [], []
            for f in fs:
                for i in f.calls():
                    x = f.N[i]
                    if x["c"] == "CXXMemberCallExpr" and "o" in x and not on_this(f, i):
                        ms = {m for t in p.call_targets(f, i) for m in st.get(t.key, [])}
                        if n in ms and x["a"]:
                            a = resolve(f, x["a"][0])
                            (good if source_field(f, a) == n else other).append((f, i))
                    elif x["c"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and x["f"].get("rec") in p.derived("mltk::Learner"):
                        for t in p.targets(x["f"]):
                            for k, a in enumerate(x["a"]):
                                if k < len(t.params) and any(m == n and is_param(v, k) for m, ad, v in cx.cells(t)) and source_field(f, resolve(f, a)) == n:
                                    good.append((f, i))
            k = "handed|%s|%s" % (s, n)
            if other:
                f, i = other[0]
                rep.bad("handed", "%s.%s" % (s, n), "the inner trainer is given %s instead of %s" % (f.text(f.N[i]["a"][0])[:80], n), f.loc(i), k)
            else:
                rep.put(bool(good), "handed", "%s.%s" % (s, n), "the inner trainer of %s is never given %s" % (s, n), "", k)
    # ---- copies
    for f in sorted(p.fns.values(), key=lambda f: f.key):
        cc = f.d.get("kind") == "ctor" and f.d.get("ck") == "copy"
        ca = f.n == "operator=" and len(f.params) == 1 and bare(f.params[0]["t"]) == f.rec
        if not (cc or ca) or f.d.get("implicit") or f.d.get("defaulted") or not f.rec:
            continue
        s = short_rec(f.rec)
        if not s.startswith("mltk::") or s.startswith(("mltk::A_", "mltk::Point", "mltk::Data", "mltk::BExp")):
            continue
        t, ev = cx.run(f)
        # members of bases whose compiler-provided assignment is called
        based = set()
        for i in f.calls():
            x = f.N[i]
            if ca and x["c"] == "CXXMemberCallExpr" and x["f"].get("ck") == "copyassign" and x["f"].get("rec") in p.all_bases(f.rec) and on_base(f, i) and not [g for g in p.call_targets(f, i) if not g.d.get("implicit") and not g.d.get("defaulted")]:
                based |= set(p.all_bases(x["f"]["rec"]))
        for b, fl in p.all_fields(f.rec):
            n = fl["n"]
            if n not in CONFIG and s != "mltk::Solution":
                continue
            if s == "mltk::classifier::PrimalClassifier" and n == "svs":
                continue
            v = norm(ev.load(("fld", ("this",), n)))
            want = ("fld", ("par", 0, ""), n)
            r = None
            if b in based and (v[0] == "phi" or v == ("fld", ("this",), n)):
                r = True
            elif v == norm(want):
                r = True
            elif v == ("fld", ("this",), n) or v[0] in ("num", "str", "list", "fld", "poly", "null"):
                r = False
            elif v[0] == "obj" and not any(x[0] == "par" for x in sym.subterms(v)):
                r = False
            rep.put(r, "copied", "%s %s .%s" % (s.replace("mltk::", ""), "copy constructor" if cc else "assignment", n), "the copy has %s = %s" % (n, sym.show(v)[:100]), f.loc(), "copied|%s|%s|%s" % (s, "cc" if cc else "ca", n))
    rep.floor("constructor", 60)
    rep.floor("setter", 40)
    rep.floor("getter", 20)
    rep.floor("used", 60)
    rep.floor("copied", 30)


def on_base(f, i):
    n = f.N[i]
    return "o" not in n or f.N[f.strip(n["o"], True)]["c"] == "CXXThisExpr"


def source_field(f, i):
    """member of this object whose value expression i is (through conversions, get(), getters are not followed)"""
    n = f.N[f.strip(i, True)]
    if n["c"] in ir.EXPLICIT_CASTS and n["k"]:
        return source_field(f, n["k"][0])
    if n["c"] == "MemberExpr" and n.get("dk") == "field" and n["k"] and f.N[f.strip(n["k"][0])]["c"] == "CXXThisExpr":
        return n["n"]
    if n["c"] == "CXXConstructExpr" and len(n.get("a", [])) == 1:
        return source_field(f, n["a"][0])
    if n["c"] == "CXXMemberCallExpr" and on_this(f, f.strip(i, True)):
        for t in f.prog.call_targets(f, f.strip(i, True)) if hasattr(f, "prog") else f.p.call_targets(f, f.strip(i, True)):
            t_, ev = sym.value_of(t)
            if t_ and t_[0] == "fld" and t_[1] == ("this",):
                return t_[2]
    return None
