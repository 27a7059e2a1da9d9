"""Lockset analysis of every class that starts threads or owns a mutex."""
import ir, flow
from props.common import *


def guards(fn):
    """guard variable -> (mutex names, held at construction)"""
    g = getattr(fn, "_guards", None)
    if g is None:
        g = fn._guards = {}
        for vid, v in fn.vars.items():
            if bare(v["t"]).startswith(GUARDS) and "init" in v:
                n = fn.N[fn.strip(v["init"])]
                ms, held = [], True
                for a in n.get("a", []):
                    m = mutex_name(fn, a)
                    if m:
                        ms.append(m)
                    elif "defer_lock" in fn.N[fn.strip(a)].get("t", ""):
                        held = False
                g[vid] = (tuple(ms), held)
    return g


def mutex_name(fn, a):
    f = field_of(fn, a)
    if f and is_mutex(fn.N[fn.strip(a)].get("t")):
        return f
    n = fn.N[fn.strip(a)]
    if is_mutex(n.get("t")):
        return fn.text(a)
    return None


def lock_events(fn, i):
    """('lock'|'unlock', mutexes) of a CFG element"""
    if isinstance(i, tuple):
        if i[0] == "dtor" and "dtor" in i[1]:
            g = guards(fn).get(i[1]["dtor"])
            if g:
                return [("unlock", m) for m in g[0]]
        return []
    n = fn.N[i]
    if n["c"] == "DeclStmt":
        return [("lock", m) for d in n.get("d", []) for m in (guards(fn).get(d["id"], ((), 0))[0] if guards(fn).get(d["id"], ((), False))[1] else ())]
    if n["c"] == "CXXMemberCallExpr" and short_callee(n) in ("lock", "unlock") and "o" in n:
        o = fn.N[fn.strip(n["o"])]
        if is_mutex(o.get("t")):
            m = mutex_name(fn, n["o"])
            return [(short_callee(n), m)] if m else []
        if o["c"] == "DeclRefExpr" and o["id"] in guards(fn):
            return [(short_callee(n), m) for m in guards(fn)[o["id"]][0]]
    return []


def spawns(fn, n):
    return n["c"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and n["f"]["fq"].startswith("std::thread::thread") and len(n.get("a", [])) >= 1 and not n["f"].get("ck") and "std::thread" not in bare(fn.N[n["a"][0]].get("t", ""))[:11]


def joins(n):
    return n["c"] == "CXXMemberCallExpr" and n["f"]["fq"] == "std::thread::join"


def joins_in(p, fn, i, depth=0):
    for x in fn.walk(i):
        if joins(fn.N[x]):
            return True
        if depth < 4 and "f" in fn.N[x] and "a" in fn.N[x]:
            for t in p.call_targets(fn, x):
                if joins_in(p, t, None, depth + 1):
                    return True
    return False


def loop_exit_join(p, fn, e):
    """leaving a loop whose body joins threads"""
    _, c, outcome = e
    if outcome:
        return False
    for a in fn.ancestors(c):
        if fn.N[a]["c"] in ir.LOOPS:
            return joins_in(p, fn, a)
    return False


def thread_roots(p, recs):
    out = {}
    for f in p.fns.values():
        for i in f.calls():
            n = f.N[i]
            if spawns(f, n):
                for x in f.walk(i):
                    m = f.N[x]
                    if m["c"] == "DeclRefExpr" and m.get("dk") == "fn" and m.get("fk") in p.fns:
                        out[m["fk"]] = p.fns[m["fk"]]
                    if m["c"] == "LambdaExpr":
                        for k in ([m["lk"]] if "lk" in m else m.get("specs", [])):
                            if k in p.fns:
                                out[k] = p.fns[k]
    return out


def classes(p):
    roots = thread_roots(p, None)
    owners = {f.rec for f in roots.values() if f.rec} | {f.rec for f in p.fns.values() if f.rec and any(spawns(f, f.N[i]) for i in f.calls())}
    for name, r in sorted(p.records.items()):
        if name in owners or any(is_mutex(f["t"]) for f in r["fields"]):
            yield name, r, roots


def check(p, rep):
    rep.rule("lockset", "a member the workers share with clients is atomic, or every access made while workers run holds one common lock")
    rep.rule("guarded-member", "a member that is accessed under a lock anywhere is accessed under that lock everywhere workers may run")
    rep.rule("atomic-update", "an atomic member is updated by single atomic operations, not by a read followed by a dependent write")
    rep.rule("task-capture", "a variable captured by reference and modified inside a task is atomic")
    rep.rule("callback-unlocked", "no user task runs while the queue lock is held")
    for rec, r, roots in classes(p):
        sync(p, rep, rec, r, roots)
    captures(p, rep)
    rep.floor("lockset", 3)
    rep.floor("task-capture", 1)


def sync(p, rep, rec, r, roots):
    fields = {f["n"]: f for f in r["fields"]}
    shared = {n for n, f in fields.items() if not is_atomic(f["t"]) and not is_mutex(f["t"]) and not f["const"]}
    wroots = [f for f in roots.values()]
    worker = p.reachable(wroots) if wroots else set()
    acc = []

    def mk(is_worker):
        def classify(fn, i):
            ev = lock_events(fn, i)
            out = [("%s:%s" % e) for e in ev]
            if isinstance(i, tuple):
                if i[0] == "edge" and loop_exit_join(p, fn, i):
                    out.append("quiet")
                return tuple(out) or None
            n = fn.N[i]
            if spawns(fn, n):
                out.append("live")
            if joins(n) and not any(fn.N[a]["c"] in ir.LOOPS for a in fn.ancestors(i)):
                out.append("quiet")
            if n["c"] == "MemberExpr" and n.get("dk") == "field" and n.get("rec") == rec and n["n"] in shared:
                out.append("acc")
            if n["c"] == "CXXOperatorCallExpr" and n.get("op") == "()" and n["f"]["fq"].startswith("std::function<"):
                out.append("task")
            return tuple(out) or None

        def step(s, ev, fn, i):
            held, phase = s
            if ev.startswith("lock:"):
                return (held | {ev[5:]}, phase)
            if ev.startswith("unlock:"):
                return (held - {ev[7:]}, phase)
            if ev in ("live", "quiet"):
                return (held, ev)
            if ev == "acc":
                n = fn.N[i]
                acc.append((n["n"], fn, i, written(fn, i), held, phase, is_worker))
            if ev == "task":
                tasks.setdefault((fn.key, i), []).append((fn, held))
            return s
        return flow.Flow(p, classify, step)
    tasks = {}
    fl = mk(False)
    for m in sorted(p.methods(rec), key=lambda f: f.key):
        if m.d.get("lambda") or m.d.get("implicit"):
            continue
        private = m.d.get("access", 0) == 2
        if private and p.callers.get(m.key):
            continue
        phase = "quiet" if m.d["kind"] == "ctor" else "live"
        fl.run(m, {(frozenset(), phase)})
    fw = mk(True)
    for m in wroots:
        if m.rec == rec or rec in {x.rec for x in p.fns.values() if x.key in worker}:
            fw.run(m, {(frozenset(), "live")})
    loc = lambda a: a[1].loc(a[2])
    for name in sorted(fields):
        f = fields[name]
        who = "%s::%s" % (rec.replace("mltk::", ""), name)
        if is_atomic(f["t"]):
            rep.ok("lockset", who, "atomic")
            continue
        if is_mutex(f["t"]):
            continue
        A = [a for a in acc if a[0] == name and a[5] == "live"]
        W = [a for a in A if a[6]]
        bad = None
        for a in W:
            for b in A:
                if (a[3] or b[3]) and not (a[4] & b[4]):
                    if not a[4]:
                        bad = (a, b)
                    else:
                        bad = (b, a)
                    break
            if bad:
                break
        if not bad and f.get("access") == 0 and not f["const"] and not any(a[3] for a in A):
            # clients can assign it directly
            if W:
                a = W[0]
                rep.bad("lockset", who, "read in %s (%s) by workers while any client may assign the public member without a lock" % (a[1].sq, loc(a)), loc(a))
                continue
        if bad:
            a, b = bad
            rep.bad("lockset", who, "%s in %s (%s) holds %s while %s in %s (%s) holds %s" % (
                "written" if a[3] else "read", a[1].sq, loc(a), sorted(a[4]) or "no lock", "written" if b[3] else "read", b[1].sq, loc(b), sorted(b[4]) or "no lock"), loc(a))
        else:
            rep.ok("lockset", who, "%d accesses (%d in workers)" % (len(A), len(W)))
        prot = [a for a in A if a[4]]
        if prot:
            common = frozenset.intersection(*[a[4] for a in prot])
            un = [a for a in A if not (a[4] & common)]
            if un:
                for a in un[:3]:
                    rep.bad("guarded-member", who, "%s in %s at %s without the lock %s that protects it elsewhere" % ("written" if a[3] else "read", a[1].sq, loc(a), sorted(common)), loc(a), "guarded-member|%s|%s" % (who, a[1].sq))
            else:
                rep.ok("guarded-member", who, "%d accesses under %s" % (len(A), sorted(common)))
    for (k, i), xs in sorted(tasks.items(), key=lambda z: str(z[0])):
        h = [x for x in xs if x[1]]
        rep.put(not h, "callback-unlocked", xs[0][0].sq, "a task runs while %s is held" % (sorted(h[0][1]) if h else ""), xs[0][0].loc(i))
    atomics(p, rep, rec, fields)


def atomics(p, rep, rec, fields):
    for m in p.methods(rec):
        for i in m.walk_all():
            n = m.N[i]
            tgt = val = None
            if n["c"] == "CXXOperatorCallExpr" and n.get("op") == "=" and len(n["a"]) == 2:
                tgt, val = n["a"]
            elif n["c"] == "CXXMemberCallExpr" and short_callee(n) == "store":
                tgt, val = n["o"], n["a"][0]
            if tgt is None:
                continue
            f = field_of(m, strip_base(m, tgt), rec)
            if not f or f not in fields or not is_atomic(fields[f]["t"]):
                continue
            # dependent read of the same atomic inside the stored value (directly or through a local)
            dep = reads(m, val, f, rec, set())
            rep.put(not dep, "atomic-update", "%s %s" % (m.sq, f), "%s is stored with a value computed from an earlier read of it" % f, m.loc(i), "atomic-update|%s|%s" % (m.sq, f))


def strip_base(m, i):
    i = m.strip(i)
    return i


def reads(m, val, f, rec, seen):
    for x in m.walk(val):
        n = m.N[x]
        if n["c"] == "MemberExpr" and n.get("n") == f and n.get("rec") == rec:
            # arithmetic on it: a store of a plain saved copy is a deliberate restore
            return m.strip(val) != x and any(m.N[a]["c"] in ("BinaryOperator",) for a in [y for y in m.walk(val)])
        if n["c"] == "DeclRefExpr" and n.get("dk") == "var" and n["id"] not in seen:
            seen.add(n["id"])
            v = m.vars.get(n["id"])
            if v and "init" in v and any(m.N[y]["c"] == "BinaryOperator" for y in list(m.walk(val)) + list(m.walk(v["init"]))):
                for y in m.walk(v["init"]):
                    k = m.N[y]
                    if k["c"] == "MemberExpr" and k.get("n") == f and k.get("rec") == rec:
                        return True
    return False


POOL = ("push_task", "submit", "parallelize_loop")


def task_lambdas(p):
    """(function, call, lambda node, lambda functions) handed to other threads"""
    for f in sorted(p.fns.values(), key=lambda f: f.key):
        for i in f.calls():
            n = f.N[i]
            fq = ir.short(n["f"]["fq"])
            pool = n["f"].get("rec") == "mltk::ThreadPool" and fq.split("::")[-1] in POOL
            if not (pool or spawns(f, n) or fq in ("std::async",)):
                continue
            for a in n["a"]:
                l = lambda_node(f, a)
                if l is not None:
                    ks = lambda_keys(f, a)
                    yield f, i, l, [p.fns[k] for k in ks if k in p.fns]


def captures(p, rep):
    for f, i, l, fs in task_lambdas(p):
        if f.file.startswith("..") or not fs:
            continue
        caps = {c["id"]: c for c in f.N[l].get("caps", []) if c.get("ref") and "id" in c}
        for cid, c in caps.items():
            t = f.vars.get(cid, {}).get("t") or next((q["t"] for q in f.params if q["id"] == cid), "")
            who = "%s captures %s" % (f.sq, c["n"])
            key = "task-capture|%s|%s" % (f.sq, c["n"])
            if is_atomic(t):
                rep.ok("task-capture", who, "atomic", f.loc(l))
                continue
            w = None
            for g in fs:
                for x in g.walk():
                    n = g.N[x]
                    if n["c"] == "DeclRefExpr" and n.get("id") == cid and written(g, x):
                        w = (g, x)
            rep.put(w is None, "task-capture", who, "%s (%s) is captured by reference and modified inside the task%s" % (c["n"], t, " at " + w[0].loc(w[1]) if w else ""), f.loc(l), key)
