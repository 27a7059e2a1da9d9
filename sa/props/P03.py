"""Work items of a parallel computation: the addresses every item reads and writes are terms over
the item's index; two items conflict when one writes what another touches."""
import itertools
import sym, numeval
from formula import opaque
from props.common import *

STARTERS = ("parallelize_loop", "push_loop", "submit", "push_task", "async", "detach_task", "submit_task", "detach_blocks", "submit_blocks")
POOL = "mltk::ThreadPool::"
N = 5
IDS = [3, 1, 5, 2, 4, 7, 6, 9, 8, 10]
PARTS = ([(0, 5)], [(0, 2), (2, 5)], [(0, 1), (1, 3), (3, 4), (4, 5)], [(i, i + 1) for i in range(5)])


def starters(p):
    """(function, call node, lambda node, block range?)"""
    for f in p.fns.values():
        if f.q.startswith(POOL):
            continue
        for i in f.calls():
            n = f.N[i]
            fq = ir.short(n["f"]["fq"])
            nm = fq.split("::")[-1]
            thread = n["c"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and fq.startswith(("std::thread::", "std::jthread::"))
            pol = fq.startswith("std::") and nm in ("for_each", "transform", "for_each_n") and n.get("a") and "execution" in f.N[n["a"][0]].get("t", "")
            if not (thread or pol or (nm in STARTERS and (fq.startswith(POOL) or fq == "std::async"))):
                continue
            ls = [x for x in (lambda_node(f, a) for a in n.get("a", [])) if x is not None]
            yield f, i, (ls[0] if ls else None), nm


class Task:
    """one parallel region: the task body with its addresses as terms"""

    def __init__(self, p, f, i, lam, nm):
        self.p, self.f, self.i, self.nm = p, f, i, nm
        self.why = None
        ks = [lam] if lam is not None else []
        n = f.N[lam] if lam is not None else {}
        lk = n.get("lk") or (n.get("specs") or [None])[0]
        self.g = p.fns.get(lk)
        if self.g is None:
            self.why = "task body not identified"
            return
        self.caps = n.get("caps", [])
        self.capid = {c["id"]: c for c in self.caps if "id" in c}
        self.block = nm in ("parallelize_loop", "push_loop")
        t, ev = sym.value_of(f, stop=(POOL + "parallelize_loop", POOL + "push_task", POOL + "submit", POOL + "push_loop", POOL + "wait_for_tasks"))
        self.ev = ev
        snap = ev.snap.get(lam)
        self.outer = snap[1] if snap else []
        env = dict(snap[0]) if snap else {}
        # a task started inside a loop is one work item per round; further arguments are the task's parameters
        at = ev.encl.get(i) or []
        if len(at) > len(self.outer):
            self.outer = at
        self.pargs = {}
        if not self.block and nm in ("push_task", "submit", "submit_task", "detach_task", "async"):
            na = list(f.N[i].get("a", []))
            k0 = next((k for k, a in enumerate(na) if lambda_node(f, a) == lam), None)
            if k0 is not None:
                for k, a in enumerate(na[k0 + 1:]):
                    if k < len(self.g.params) and ev.first.get(a) is not None:
                        self.pargs[("par", k, self.g.params[k]["n"])] = ev.first[a]
        # captured scalars of the enclosing iteration keep their terms; captured objects keep their identity
        benv = {}
        for c in self.caps:
            v = env.get(c.get("id"))
            if isinstance(v, tuple) and v:
                scalar = v[0] in ("num", "bv", "poly", "cmp", "size") or (v[0] in ("fld", "idx", "par") and not env.get(("ref", c["id"])) and bare(self.ty(c["id"])) in ("int", "unsigned int", "unsigned long", "long", "size_t", "bool", "double"))
                if (scalar and not c.get("ref")) or env.get(("ref", c["id"])):
                    benv[c["id"]] = v
                    if env.get(("ref", c["id"])):
                        benv[("ref", c["id"])] = True
        e = sym.Ev(self.g, benv, ("this",))
        e.loops = [l for l in self.outer if "bv" in l]
        e.trace = []
        e.run()
        self.trace = e.trace
        self.nouter = len(e.loops)

    def ty(self, vid):
        v = self.f.vars.get(vid)
        if v:
            return v["t"]
        for a in self.f.params:
            if a["id"] == vid:
                return a["t"]
        return ""

    def shared(self, t):
        """is the storage the address denotes visible to other work items?"""
        r = sym.root(t[1] if t[0] == "size" else t)
        if r[0] in ("this", "glob"):
            return True
        if r[0] in ("loc", "var"):
            if r[1] in self.capid:
                return True
            for fn in {x[5] for x in self.trace}:
                v = fn.vars.get(r[1])
                if v is not None:
                    return bool(v.get("static")) and not v["t"].startswith("const ")
            return False
        if r[0] == "par":
            # a parameter of the enclosing function reached through a captured reference
            return True if self.f.params and r[1] < len(self.f.params) and len(r) > 2 and r[2] == self.f.params[r[1]]["n"] and r[2] not in [a["n"] for a in self.g.params] else None
        return None


def path(t, ne):
    """concrete address: root and the list of its selectors"""
    out = []
    while True:
        if t[0] == "idx":
            out.append(int(round(ne.ev(t[2]))))
            t = t[1]
        elif t[0] in ("fld", "size"):
            out.append("." + (t[2] if t[0] == "fld" else "#size"))
            t = t[1]
        else:
            break
    return (t[:2],) + tuple(reversed(out))


def evaluator(vals, cfg):
    def bind(ne, t):
        if t[0] == "fld" and t[2] in ("id", "m_id", "_id"):
            q = t[1]
            if q[0] == "idx":
                try:
                    k = int(round(ne.ev(q[2])))
                except (numeval.Undecided, numeval.Undefined):
                    return None
                return float(IDS[k % len(IDS)])
        if t[0] == "par" and t in vals:
            return float(vals[t])
        if t in cfg:
            return float(cfg[t])
        return None
    ne = numeval.NumEval(0, dim=N, bind=bind, sizes=lambda b: N)
    return ne


def accesses(T, bind, cfg, bvs):
    """{(path): set of (kind, trace index)} of one work item; None entries are undecided"""
    out, und = {}, []
    for k, (kind, t, v, conds, loops, fn, node) in enumerate(T.trace):
        sh = T.shared(t)
        if sh is False:
            continue
        if sh is None:
            if kind != "R":
                und.append((k, "object not identified"))
            continue
        if atomic_access(fn, node):
            continue
        o = opaque(t) or (any(x[0] == "phi" for x in sym.subterms(t)) and "depends on an earlier iteration")
        if o:
            if kind != "R":
                und.append((k, "address not resolved (%s)" % o))
            continue
        ne = evaluator(bind, cfg)
        ne.bv.update(bvs)
        rest = [l for l in loops[T.nouter:]]

        def rec(j):
            if j == len(rest):
                for c in () if t[0] == "size" and kind == "W" else conds:
                    if opaque(c):
                        und.append((k, "condition not resolved"))
                        continue
                    try:
                        if ne.ev(c) == 0:
                            return
                    except (numeval.Undecided, numeval.Undefined):
                        und.append((k, "condition not evaluable"))
                try:
                    out.setdefault(path(t, ne), set()).add((kind, k))
                except (numeval.Undecided, numeval.Undefined) as e:
                    und.append((k, "index not evaluable (%s)" % e))
                return
            bv, lo, hi = rest[j]
            if bv is None:
                return rec(j + 1)
            try:
                a, b = int(round(ne.ev(lo))), int(round(ne.ev(hi)))
            except (numeval.Undecided, numeval.Undefined):
                und.append((k, "loop range not evaluable"))
                return
            for x in range(a, min(b, a + 12)):
                ne.bv[bv] = x
                rec(j + 1)
            ne.bv.pop(bv, None)
        rec(0)
    return out, und


def atomic_access(fn, node):
    n = fn.N[node]
    if n["c"] == "ImplicitCastExpr" and n["k"]:
        n = fn.N[fn.strip(n["k"][0])]
    for x in fn.walk(node):
        m = fn.N[x]
        if is_atomic(m.get("t", "")) or m.get("f", {}).get("rec", "").startswith(ATOMIC) or is_mutex(m.get("t", "")):
            return True
    return False


def locked(fn):
    return any(bare(v["t"]).startswith(GUARDS) for v in fn.vars.values())


def prefix(a, b):
    return len(a) <= len(b) and b[:len(a)] == a


def show(fn, node, T):
    return "%s (%s)" % (fn.text(node), fn.loc(node))


def configs(T):
    """both values of every flag the addresses and conditions depend on"""
    fl = set()
    for kind, t, v, conds, loops, fn, node in T.trace:
        for c in conds:
            for s in sym.subterms(c):
                if s[0] == "fld" and s[1] == ("this",):
                    fl.add(s)
    fl = {x for x in fl if bool_field(T, x)}
    fl = sorted(fl, key=repr)[:4]
    for vs in itertools.product((0, 1), repeat=len(fl)):
        yield dict(zip(fl, vs))


def bool_field(T, x):
    for b, f in T.p.all_fields(T.f.rec or ""):
        if f["n"] == x[2]:
            return bare(f["t"]) == "bool"
    return False


def items(T, bp):
    """the work items: list of list of (bindings, loop variables)"""
    if T.block:
        g = T.g
        return [[({("par", 0, g.params[0]["n"]): a, ("par", 1, g.params[1]["n"]): b}, {}) for a, b in part] for part in PARTS] if len(g.params) == 2 else None
    ol = [l for l in T.outer if "bv" in l]
    if len(ol) != len(T.outer) or not ol:
        return None
    ne = evaluator({}, {})
    out = []

    def rec(j):
        if j == len(ol):
            out.append(({q: int(round(ne.ev(t))) for q, t in T.pargs.items()}, dict(ne.bv)))
            return
        for x in range(int(ne.ev(ol[j]["lo"])), min(int(ne.ev(ol[j]["hi"])), int(ne.ev(ol[j]["lo"])) + 6)):
            ne.bv[ol[j]["bv"]] = x
            rec(j + 1)
        ne.bv.pop(ol[j]["bv"], None)
    try:
        rec(0)
    except (numeval.Undecided, numeval.Undefined):
        return None
    return [out]


def check(p, rep):
    rep.rule("region", "the body of every parallel task is known")
    rep.rule("disjoint", "no work item touches an address another work item writes")
    rep.rule("blocks", "what is written does not depend on how the range is divided into blocks")
    rep.rule("values", "what is written does not depend on the number of threads or on the block the index falls in")
    rep.rule("awaited", "nothing a task writes is used, and nothing it refers to is destroyed, before the tasks are waited for")
    rep.floor("region", 1)
    rep.floor("disjoint", 1)
    for f, i, lam, nm in starters(p):
        T = Task(p, f, i, lam, nm)
        c = "%s: %s" % (f.sq, nm)
        if T.why:
            rep.unk("region", c, T.why, f.loc(i))
            continue
        rep.ok("region", c, "", f.loc(i))
        region(p, rep, T, c)
        awaited(p, rep, T, c)


def region(p, rep, T, c):
    f, g = T.f, T.g
    # captured loop variables by reference
    ps = items(T, None)
    if ps is None:
        # a single task: it must not share what its starter goes on using; see awaited
        if T.outer:
            rep.unk("disjoint", c, "work items not enumerable", f.loc(T.i))
        return
    if g.sq and locked(g):
        rep.unk("disjoint", c, "the task takes a lock", f.loc(T.i))
        return
    bad, und, n = {}, [], 0
    writes = {}
    for cfg in configs(T):
        for part in ps:
            acc = []
            for bind, bvs in part:
                a, u = accesses(T, bind, cfg, bvs)
                und += u
                acc.append(a)
            tot = set()
            for x in range(len(acc)):
                ws = [(q, k) for q, ks in acc[x].items() for kind, k in ks if kind != "R"]
                tot |= {(k, q) for q, k in ws}
                for q, k in ws:
                    for y in range(len(acc)):
                        if y == x:
                            continue
                        for r, ks in acc[y].items():
                            if prefix(q, r) or (prefix(r, q) and any(kd != "R" for kd, _ in ks)):
                                for kd, k2 in ks:
                                    if kd == "R" and not prefix(q, r):
                                        continue
                                    bad.setdefault((k, k2), (q, r, part))
                n += len(ws)
            if T.block:
                writes.setdefault(tuple(sorted(cfg.items(), key=repr)), []).append(({q for k, q in tot}, part))
    # several writes of one address are one complaint
    for (k, k2), (q, r, part) in bad.items():
        a, b = T.trace[k], T.trace[k2]
        what = "also writes" if b[0] != "R" else "reads"
        rep.bad("disjoint", "%s: %s" % (c, a[5].text(a[6])[:60]), "%s writes %s while another work item %s it at %s" % (show(a[5], a[6], T), sym.show(a[1]), what, show(b[5], b[6], T)), a[5].loc(a[6]), "disjoint|%s|%s" % (f.sq, a[5].text(a[6])[:60]))
    if not bad:
        if und:
            k, why = und[0]
            rep.unk("disjoint", c, "%s: %s" % (T.trace[k][5].text(T.trace[k][6])[:80], why), f.loc(T.i))
        else:
            rep.ok("disjoint", c, "%d writes" % n, f.loc(T.i))
    for cfg, ws in writes.items():
        if und:
            rep.unk("blocks", c, und[0][1], f.loc(T.i))
            break
        for w, part in ws[1:]:
            if w != ws[0][0]:
                d = sorted(w ^ ws[0][0], key=repr)[:3]
                rep.bad("blocks", c, "dividing the range into blocks %s changes what is written: %s" % (part, d), f.loc(T.i), "blocks|%s" % f.sq)
                break
        else:
            rep.ok("blocks", c, "", f.loc(T.i))
    # values
    blk = {("par", k, a["n"]) for k, a in enumerate(g.params)} if T.block else set()
    nthr = threads_terms(T)
    for kind, t, v, conds, loops, fn, node in T.trace:
        if kind == "R" or not T.shared(t) or v is None:
            continue
        terms = [v] + list(conds)
        dep = [s for x in terms for s in sym.subterms(x) if s in blk or s in nthr or (s[0] == "call" and s[1] in ("get_id", "hardware_concurrency", "get_thread_count"))]
        # the block limits as such may only decide which indices are visited
        rep.put(not dep, "values", "%s: %s" % (c, fn.text(node)[:60]), "the value written depends on %s" % (sym.show(dep[0]) if dep else ""), fn.loc(node), "values|%s|%s" % (f.sq, fn.text(node)[:60]))
    # the range given to the loop
    n = f.N[T.i]
    if T.block and len(n["a"]) >= 2:
        for k in (0, 1):
            t = T.ev.first.get(n["a"][k])
            if t is None:
                continue
            dep = [s for s in sym.subterms(t) if s in nthr]
            rep.put(not dep, "values", "%s: range" % c, "the range of the parallel loop depends on the number of threads", f.loc(n["a"][k]), "values|%s|range" % f.sq)
    for node, t, v, conds, loops in T.ev.stores:
        if not isinstance(v, tuple) or sym.root(t[1] if t[0] == "size" else t)[0] != "this":
            continue
        if t in nthr:
            continue
        dep = [s for x in [v] + list(conds) for s in sym.subterms(x) if s in nthr]
        rep.put(not dep, "values", "%s: before" % c, "what is stored in %s depends on the number of threads" % sym.show(t), f.loc(T.i), "values|%s|%s" % (f.sq, sym.show(t)))


def threads_terms(T):
    """members and parameters that hold a number of threads: what the pool is built with"""
    f, out = T.f, set()
    for j, n in enumerate(f.N):
        if n["c"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and n.get("f", {}).get("fq", "").startswith(POOL) and n.get("a"):
            t = T.ev.first.get(n["a"][0])
            if t is not None and t[0] in ("fld", "par", "var", "loc"):
                out.add(t)
            if t is not None:
                out |= {s for s in sym.subterms(t) if s[0] in ("fld", "par", "var")}
    if T.block and len(f.N[T.i]["a"]) > 3:
        t = T.ev.first.get(f.N[T.i]["a"][3])
        if t is not None and t[0] in ("fld", "par"):
            out.add(t)
    return out


WAITS = ("wait_for_tasks", "get", "wait", "join")


def waits(p, f, i, seen=()):
    """is call i one that waits for tasks?"""
    n = f.N[i]
    fq = ir.short(n["f"]["fq"])
    nm = fq.split("::")[-1]
    if fq.startswith(POOL) and nm in ("wait_for_tasks", "reset", "~ThreadPool"):
        return True
    return fq.startswith(("std::future", "std::__basic_future", "std::shared_future", "std::thread::join", "std::jthread")) and nm in ("get", "wait", "join")


def starter_waits(p, T):
    """does the starting function itself wait before it returns?  (polling a shared counter counts)"""
    if T.nm == "parallelize_loop":
        for t in p.call_targets(T.f, T.i):
            poll = False
            for b, cnd, ss in t.cfg.branch_edges():
                # a loop that goes round until an atomic counter captured by the tasks is zero
                x = t.N[t.strip(cnd)]
                names = [t.N[y] for y in t.walk(cnd)]
                if any(is_atomic(y.get("t", "")) for y in names) and b in t.cfg.reach([s for s in t.cfg.succ[b]]):
                    poll = True
            if poll or any(waits(p, t, j) for j in t.calls()):
                return True
    return False


def awaited(p, rep, T, c):
    f = T.f
    if starter_waits(p, T):
        rep.ok("awaited", c, "the starting operation waits", f.loc(T.i))
        return
    pos = f.pos(T.i)
    ws = [j for j in f.calls() if waits(p, f, j)]
    wpos = [f.pos(j) for j in ws]
    written = {sym.root(t[1] if t[0] == "size" else t) for k, t, *_ in T.trace if k != "R" and T.shared(t)}
    # blocks reachable from the start without passing a wait
    cfg = f.cfg
    seen, st = set(), [(pos[0], pos[1] + 1)]
    reached = set()
    while st:
        b, k = st.pop()
        if (b, k) in seen:
            continue
        seen.add((b, k))
        stop = False
        for e in range(k, len(cfg.blocks[b]["e"])):
            if (b, e) in wpos:
                stop = True
                break
            x = cfg.blocks[b]["e"][e]
            if isinstance(x, int):
                reached.add(x)
            elif isinstance(x, dict) and "ThreadPool" in str(x.get("t", "")):
                stop = True           # destroying the pool waits
                break
        if not stop:
            if b == cfg.exit:
                reached.add("exit")
            for s in cfg.succ[b]:
                st.append((s, 0))
    names = {}
    for r in written:
        if r[0] in ("loc", "var"):
            names[r[1]] = r[-1]
    inloop = T.outer
    use = None
    for x in reached:
        if x == "exit":
            continue
        n = f.N[x]
        if any(T.i == y for y in f.walk(x)) or any(x == y for y in f.walk(T.i)):
            continue
        if n["c"] == "DeclRefExpr" and n.get("id") in names:
            up = [f.N[a] for a in f.ancestors(x)]
            if not any(a["c"] == "LambdaExpr" for a in up):
                use = x
        if n["c"] == "MemberExpr" and ("this",) in written and n.get("dk") == "field" and f.N[f.strip(n["k"][0])]["c"] == "CXXThisExpr" and any(k != "R" and ("fld", ("this",), n["n"]) in set(sym.subterms(t)) for k, t, *_ in T.trace):
            use = x
    if use is not None:
        rep.bad("awaited", c, "%s is used before the tasks are waited for" % show(f, use, T), f.loc(use), "awaited|%s" % f.sq)
    elif "exit" in reached and not any("ThreadPool" in v["t"] and not v["t"].endswith("&") for v in f.vars.values()):
        refs = [x for x in T.caps if x.get("ref") and "id" in x and x["id"] in f.vars]
        if refs:
            rep.bad("awaited", c, "%s may return while a task still refers to its local %s" % (f.sq, refs[0]["n"]), f.loc(T.i), "awaited|%s" % f.sq)
        else:
            rep.unk("awaited", c, "the tasks outlive the starting function", f.loc(T.i))
    else:
        rep.ok("awaited", c, "", f.loc(T.i))
