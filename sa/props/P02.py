"""Typestate rules of the thread pool: task accounting, futures, waiting, life cycle."""
import ir, flow, sym
from formula import *
from props.common import *
from props.P01 import spawns, joins, loop_exit_join, lock_events, task_lambdas, mutex_name

REC = "mltk::ThreadPool"


def std_callee(n, name, pre="std::"):
    return "f" in n and n["f"]["fq"].startswith(pre) and short_callee(n) == name


def members(p, pred):
    return [f["n"] for f in p.records[REC]["fields"] if pred(f)]


class Names:
    """the pool's members by their role (type and use), not by their spelling"""
    def __init__(self, p):
        self.p = p
        self.queue = next(iter(members(p, lambda f: "std::queue<" in f["t"] or "std::deque<" in f["t"])), None)
        self.threads = next(iter(members(p, lambda f: "std::thread" in f["t"])), None)
        at = members(p, lambda f: is_atomic(f["t"]) and "bool" not in f["t"])
        fns = [m for m in p.fns.values() if m.rec == REC]
        at = [a for a in at if any(counter(m, i, a) is not None for m in fns if not m.d.get("lambda") for i in m.walk_all() if m.d["kind"] != "ctor" and counter(m, i, a) in (1, -1))]
        self.total = at[0] if len(at) == 1 else None
        self.flags = members(p, lambda f: is_atomic(f["t"]) and "bool" in f["t"])
        self.plain = members(p, lambda f: bare(f["t"]) in ("unsigned int", "unsigned long", "int", "long", "unsigned long long"))
        self.running = "running" if "running" in self.flags else None
        self.paused = "paused" if "paused" in self.flags else None
        self.count = "thread_count" if "thread_count" in self.plain else None


def counter(fn, i, name):
    """+1 / -1 when node i increments or decrements the atomic member or captured variable `name`"""
    n = fn.N[i]
    is_ = lambda x: (field_of(fn, x) == name or (fn.N[fn.strip(x)]["c"] == "DeclRefExpr" and fn.N[fn.strip(x)]["n"] == name))
    if n["c"] == "CXXOperatorCallExpr" and n.get("op") in ("++", "--") and is_(n["a"][0]):
        return 1 if n["op"] == "++" else -1
    if n["c"] == "UnaryOperator" and n.get("op") in ("++", "--") and is_(n["k"][0]):
        return 1 if n["op"] == "++" else -1
    if n["c"] == "CXXOperatorCallExpr" and n.get("op") in ("+=", "-=") and is_(n["a"][0]):
        v = fn.N[fn.strip(n["a"][1])]
        if v.get("v") == 1 or v.get("ice") == 1:
            return 1 if n["op"] == "+=" else -1
        return "?"
    if n["c"] == "CXXMemberCallExpr" and short_callee(n) in ("fetch_add", "fetch_sub") and is_(n["o"]):
        v = fn.N[fn.strip(n["a"][0])]
        if v.get("v") == 1 or v.get("ice") == 1:
            return 1 if short_callee(n) == "fetch_add" else -1
        return "?"
    if n["c"] == "CXXOperatorCallExpr" and n.get("op") == "=" and is_(n["a"][0]):
        return "?"
    if n["c"] == "CXXMemberCallExpr" and short_callee(n) in ("store", "exchange") and is_(n["o"]):
        return "?"
    return None


def on_queue(fn, n, N, names):
    if n["c"] == "CXXMemberCallExpr" and short_callee(n) in names and field_of(fn, n["o"]) == N.queue:
        return True
    return False


def atom(fn, c, outcome, N):
    """decided atom of a branch: ('paused',bool) ('total0',bool) ('running0',bool) ..."""
    c, o = condition(fn, c, outcome)
    n = fn.N[c]
    f = field_of(fn, c)
    if f:
        return (f, o)
    if n["c"] == "BinaryOperator" and n.get("op") in ("==", "!=", ">", "<=", "<", ">="):
        a, b = n["k"]
        op = n["op"]
        va, vb = fn.N[fn.strip(a, casts=True)], fn.N[fn.strip(b, casts=True)]
        if va.get("v") == 0 or va.get("ice") == 0:
            a, b, va, vb = b, a, vb, va
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if vb.get("v") == 0 or vb.get("ice") == 0:
            zero = {"==": o, "!=": not o, ">": not o, "<=": o}.get(op)
            if zero is None:
                return None
            f = field_of(fn, a)
            if f:
                return (f, not zero)
            x = fn.N[resolve(fn, a)]
            if "f" in x:
                return ("call:" + ir.short(x["f"]["fq"]).split("::")[-1], not zero)
            if x["c"] == "DeclRefExpr":
                return ("var:" + x["n"], not zero)
    if n["c"] in ("CXXMemberCallExpr", "CallExpr") and "f" in n:
        return ("call:" + ir.short(n["f"]["fq"]).split("::")[-1] + ":" + (field_of(fn, n["o"]) or "" if "o" in n else ""), o)
    if n["c"] == "DeclRefExpr":
        return ("var:" + n["n"], o)
    return None


def body_of(p, name):
    fs = [f for f in p.named(REC + "::" + name)]
    return fs


def check(p, rep):
    rep.rule("count-then-queue", "submitting raises the unfinished-task counter exactly once, before the task becomes visible in the queue exactly once")
    rep.rule("pop-nonempty", "a task is taken from the queue only when it was seen non-empty under the same lock, and front is followed by exactly one removal")
    rep.rule("run-once", "each task a worker takes is executed exactly once and counted as finished exactly once, after it ran")
    rep.rule("wait", "waiting returns only when no task is unfinished (no task is running, if paused)")
    rep.rule("life-cycle", "destruction and reset wait for the tasks, stop the workers, join them, and only then replace them; new workers start in running state")
    rep.rule("all-threads", "every thread of the pool is started and joined exactly once")
    rep.rule("future", "the promise behind the returned future always receives the task's value or its exception")
    rep.rule("loop-cover", "the blocks of a parallel loop cover each index of the range exactly once")
    rep.rule("loop-await", "a parallel loop returns only after all its blocks have finished; each block runs once and is counted once")
    rep.rule("paused-kept", "reset leaves the paused flag as it was")
    rep.rule("tasks-running", "the number of running tasks is the unfinished ones minus the queued ones")
    N = Names(p)
    if not (N.queue and N.threads and N.total and N.running and N.paused and N.count):
        rep.notes.append("pool members not identified: %s" % N.__dict__)
        rep.unk("life-cycle", "ThreadPool", "members not identified")
        return
    push(p, rep, N)
    pops(p, rep, N)
    worker(p, rep, N)
    waiting(p, rep, N)
    life(p, rep, N)
    loops(p, rep, N)
    futures(p, rep, N)
    parloop(p, rep, N)
    values(p, rep, N)
    rep.floor("count-then-queue", 1)
    rep.floor("run-once", 1)
    rep.floor("future", 2)


def methods(p):
    return sorted([m for m in p.methods(REC) if not m.d.get("implicit") and not m.d.get("lambda")], key=lambda f: f.key)


def contains(p, fn, pred, depth=0, seen=None):
    seen = seen if seen is not None else set()
    if fn.key in seen or depth > 6:
        return False
    seen.add(fn.key)
    for i in fn.walk_all():
        if pred(fn, fn.N[i], i):
            return True
    return any(contains(p, t, pred, depth + 1, seen) for t in p.succ_fns(fn) if not t.d.get("lambda"))


def push(p, rep, N):
    """public submission functions"""
    for m in methods(p):
        ispush = lambda fn, n, i: on_queue(fn, n, N, ("push", "emplace", "push_back", "emplace_back"))
        if not any(ispush(m, m.N[i], i) for i in m.walk_all()):
            continue
        # judged on entry points: callers that are not private helpers
        for r in entry_points(p, m):
            errs = {}

            def classify(fn, i):
                if isinstance(i, tuple):
                    return None
                c = counter(fn, i, N.total)
                if c == 1:
                    return "inc"
                if c is not None:
                    return "odd"
                if ispush(fn, fn.N[i], i):
                    return "push"
                return None

            def step(s, ev, fn, i):
                if s == "bad":
                    return s
                t = {("0", "inc"): "1", ("1", "push"): "2", ("2", "inc"): "1"}.get((s, ev))
                if t is None:
                    errs.setdefault((s, ev), (fn, i))
                    return "bad"
                return t
            fl = flow.Flow(p, classify, step)
            out = fl.run(r, {"0"})
            w = {("0", "push"): "the task is queued before it is counted", ("1", "inc"): "the counter is raised twice for one task", ("2", "push"): "the task is queued twice"}
            if errs:
                (s, ev), (fn, i) = sorted(errs.items(), key=lambda x: str(x[0]))[0]
                rep.bad("count-then-queue", r.sq, w.get((s, ev), "unexpected counter change (%s after %s)" % (ev, s)) + " in %s" % fn.sq, fn.loc(i), "count-then-queue|%s" % r.sq)
            elif "1" in out:
                rep.bad("count-then-queue", r.sq, "a path counts a task without queueing it", r.loc(), "count-then-queue|%s" % r.sq)
            elif "2" in out:
                loopy = "0" in out and r is m
                rep.put(not loopy, "count-then-queue", r.sq, "a path returns without queueing the task", r.loc(), "count-then-queue|%s" % r.sq)
            else:
                rep.unk("count-then-queue", r.sq, "no path submits")


def entry_points(p, m, seen=None):
    seen = seen if seen is not None else set()
    if m.key in seen:
        return []
    seen.add(m.key)
    if m.d.get("access", 0) != 2:
        return [m]
    out = []
    for c, _ in p.callers.get(m.key, []):
        if c.rec == REC:
            out += [x for x in entry_points(p, c, seen) if x not in out]
    return out or [m]


def pops(p, rep, N):
    errs = {}
    seen = set()
    for m in methods(p):
        pred = lambda fn, n, i: on_queue(fn, n, N, ("pop", "front", "pop_front"))
        if not any(pred(m, m.N[i], i) for i in m.walk_all()):
            continue
        entry = [m]
        if m.d.get("access") == 2 and any(c.rec == REC for c, _ in p.callers.get(m.key, [])) and not any(mutex_name(m, a) for i in m.walk_all() if m.N[i]["c"] == "CXXConstructExpr" for a in m.N[i].get("a", [])):
            entry = [c for c, _ in p.callers[m.key] if c.rec == REC]

        def classify(fn, i):
            if isinstance(i, tuple):
                if i[0] == "dtor":
                    return ("unlock",) if lock_events(fn, i) else None
                a = atom(fn, i[1], i[2], N)
                if a and a[0] == "call:empty:" + N.queue:
                    return ("isempty" if a[1] else "nonempty",)
                if a and a[0] == "call:size":
                    return ("nonempty" if a[1] else "isempty",)
                return None
            ev = lock_events(fn, i)
            if ev:
                return tuple(e[0] for e in ev)
            n = fn.N[i]
            if on_queue(fn, n, N, ("front",)):
                return "front"
            if on_queue(fn, n, N, ("pop", "pop_front")):
                return "pop"
            return None

        def step(s, ev, fn, i):
            if s == "bad":
                return s
            if ev == "lock":
                return "locked"
            if ev == "unlock":
                if s == "took":
                    errs.setdefault("the task at the front is copied but not removed in the same critical section", (fn, i))
                    return "bad"
                return "open"
            if ev == "nonempty":
                return "full" if s == "locked" else s
            if ev == "isempty":
                return "empty" if s in ("locked", "full") else s
            if ev == "front":
                if s == "full":
                    return "took"
                errs.setdefault("the queue's front is read %s" % ("without the lock" if s in ("open", "entry") else "without testing that it is not empty under the lock"), (fn, i))
                return "bad"
            if ev == "pop":
                if s == "took":
                    return "locked"
                errs.setdefault("a task is removed %s" % ("without having been taken" if s == "full" else "although it was not seen under the same lock"), (fn, i))
                return "bad"
            return s
        for e in entry:
            if e.key in seen:
                continue
            seen.add(e.key)
            errs.clear()
            fl = flow.Flow(p, classify, step)
            fl.run(e, {"entry"})
            if errs:
                msg, (fn, i) = sorted(errs.items(), key=lambda x: x[0])[0]
                rep.bad("pop-nonempty", e.sq, msg, fn.loc(i) if i is not None else fn.loc(), "pop-nonempty|%s" % e.sq)
            else:
                rep.ok("pop-nonempty", e.sq, "", e.loc())


def worker(p, rep, N):
    from props.P01 import thread_roots
    for k, w in sorted(thread_roots(p, None).items()):
        if w.rec != REC and not (w.d.get("lambda") and REC.split("::")[-1] in k):
            continue
        errs = {}

        def classify(fn, i):
            if isinstance(i, tuple):
                return None
            n = fn.N[i]
            if on_queue(fn, n, N, ("pop", "pop_front")):
                return "pop"
            if n["c"] == "CXXOperatorCallExpr" and n.get("op") == "()" and n["f"]["fq"].startswith("std::function<"):
                return "run"
            c = counter(fn, i, N.total)
            if c == -1:
                return "dec"
            if c is not None:
                return "odd"
            return None

        def step(s, ev, fn, i):
            st = s
            if st == "bad":
                return s
            t = {("idle", "pop"): "got", ("got", "run"): "ran", ("ran", "dec"): "idle"}.get((st, ev))
            if t is None:
                msg = {("idle", "run"): "a task runs that was not (or no longer) taken from the queue", ("idle", "dec"): "a task is counted as finished although none was taken", ("got", "pop"): "a task is taken before the previous one ran: it is lost",
                       ("got", "dec"): "a task is counted as finished before it ran", ("ran", "run"): "a task runs twice", ("ran", "pop"): "a task that ran is never counted as finished"}.get((st, ev), "unexpected change of the unfinished-task counter")
                errs.setdefault(msg, (fn, i))
                return "bad"
            return t
        fl = flow.Flow(p, classify, step)
        out = fl.run(w, {"idle"})
        for st, msg in (("got", "a worker ends with a task it took but did not run"), ("ran", "a worker ends without counting a task it ran as finished")):
            if st in out:
                errs.setdefault(msg, (w, None))
        if errs:
            msg, (fn, i) = sorted(errs.items(), key=lambda x: x[0])[0]
            rep.bad("run-once", w.sq, msg, fn.loc(i) if i is not None else fn.loc(), "run-once|%s" % w.sq)
        else:
            rep.put(True if out else None, "run-once", w.sq, "", w.loc())


def running_call(p, N):
    """const observers that compute unfinished - queued"""
    out = set()
    for m in methods(p):
        if not m.params and m.d["ret"] not in ("void", "bool") and contains(p, m, lambda fn, n, i: n["c"] == "MemberExpr" and n.get("n") == N.total) and contains(p, m, lambda fn, n, i: on_queue(fn, n, N, ("size",))):
            out.add(m.n)
    return out


def waits(p, N, m, rc, queued=()):
    """None: not a waiting function; else set of (state at exit)"""
    def classify(fn, i):
        if isinstance(i, tuple):
            if i[0] != "edge":
                return None
            a = atom(fn, i[1], i[2], N)
            if not a:
                return None
            nm, v = a
            if nm == N.paused:
                return "paused" if v else "unpaused"
            if nm == N.total and not v:
                return "total0"
            if nm.startswith("call:") and nm.split(":")[1] in rc and not v:
                return "running0"
            return None
        n = fn.N[i]
        if n["c"] == "CXXMemberCallExpr" and short_callee(n) == "sleep_or_yield" or std_callee(n, "yield") or std_callee(n, "sleep_for"):
            return "again"
        return None

    def step(s, ev, fn, i):
        pz, t, r = s
        if ev == "again":
            return ("?", 0, 0)
        if ev in ("paused", "unpaused"):
            return (ev, t, r)
        if ev == "total0":
            return (pz, 1, r)
        return (pz, t, 1)
    return flow.Flow(p, classify, step).run(m, {("?", 0, 0)})


def drained(s):
    return s[1] or (s[0] == "paused" and s[2])


def waiting(p, rep, N):
    rc = running_call(p, N)
    for m in methods(p):
        if m.n == "wait_for_tasks":
            out = waits(p, N, m, rc)
            bad = [s for s in out if not drained(s)]
            rep.put(None if not out else not bad, "wait", m.sq, "a path returns with %s" % (["%s, unfinished-task counter %s, running tasks %s" % (a, "zero" if b else "not tested", "zero" if c else "not tested") for a, b, c in bad][:1]), m.loc(), "wait|" + m.sq)


def life(p, rep, N):
    rc = running_call(p, N)
    full = {m.key for m in methods(p) if m.n != "reset" and m.d["kind"] == "method" and waits(p, N, m, rc) and all(drained(s) for s in waits(p, N, m, rc)) and contains(p, m, lambda fn, n, i: n["c"] == "MemberExpr" and n.get("n") == N.total)}

    def classify(fn, i):
        if isinstance(i, tuple):
            if i[0] == "edge" and loop_exit_join(p, fn, i):
                return "join"
            if i[0] == "edge" and i[2] is False:
                c = i[1]
                for a in fn.ancestors(c):
                    if fn.N[a]["c"] in ir.LOOPS:
                        if any(spawns(fn, fn.N[x]) for x in fn.walk(a)):
                            return "spawn"
                        break
            return None
        n = fn.N[i]
        if "f" in n and "a" in n and n["f"]["fk"] in full:
            return ("drain", "!skip")
        st = val = None
        if n["c"] == "CXXOperatorCallExpr" and n.get("op") == "=" and len(n["a"]) == 2:
            st, val = field_of(fn, n["a"][0]), n["a"][1]
        elif n["c"] == "CXXMemberCallExpr" and short_callee(n) == "store":
            st, val = field_of(fn, n["o"]), n["a"][0]
        elif n["c"] == "BinaryOperator" and n.get("op") == "=":
            st, val = field_of(fn, n["k"][0]), n["k"][1]
        if st == N.running:
            v = fn.N[fn.strip(val)]
            b = v.get("v", v.get("ice"))
            return "stop" if b in (False, 0) else "start" if b in (True, 1) else None
        if st == N.count or (n["c"] == "CXXMemberCallExpr" and short_callee(n) == "reset" and field_of(fn, n.get("o")) == N.threads) or st == N.threads:
            return "replace"
        return None
    for m in methods(p):
        kind = "dtor" if m.d["kind"] == "dtor" else m.n if m.n == "reset" else "ctor" if m.d["kind"] == "ctor" else None
        if kind is None or m.d.get("ck"):
            continue
        errs = {}

        def step(s, ev, fn, i):
            if s == "bad":
                return s
            T = {("up", "drain"): "drained", ("drained", "drain"): "drained", ("drained", "stop"): "stopped", ("stopped", "stop"): "stopped", ("stopped", "join"): "joined", ("joined", "join"): "joined",
                 ("joined", "replace"): "joined", ("joined", "start"): "ready", ("ready", "replace"): "ready", ("ready", "spawn"): "up", ("new", "replace"): "new", ("new", "spawn"): "up", ("new", "start"): "new",
                 ("up", "start"): "up"}.get((s, ev))
            if T is None:
                M = {("up", "stop"): "the workers are stopped before the tasks are done", ("up", "join"): "threads are joined while the workers still run", ("drained", "join"): "threads are joined before the workers are told to stop",
                     ("joined", "spawn"): "workers are started while the running flag is still cleared, so they exit at once", ("up", "replace"): "threads are replaced while they run", ("drained", "replace"): "threads are replaced while they run",
                     ("stopped", "replace"): "threads are replaced before they are joined", ("up", "spawn"): "threads are started twice", ("stopped", "start"): "the workers are restarted before they were joined"}
                errs.setdefault(M.get((s, ev), "%s after %s" % (ev, s)), (fn, i))
                return "bad"
            return T
        fl = flow.Flow(p, classify, step)
        out = fl.run(m, {"new" if kind == "ctor" else "up"})
        want = {"dtor": "joined", "reset": "up", "ctor": "up"}[kind]
        for s in out:
            if s not in (want, "bad"):
                errs.setdefault({"dtor": "the pool is destroyed on a path that does not wait, stop and join (%s)" % s, "reset": "reset returns without restarting the workers (%s)" % s, "ctor": "no worker is started"}[kind], (m, None))
        if kind == "reset" and out == {"up"} and not any(e[1] == "join" for e in fl.errors):
            errs.setdefault("reset does not join the old threads", (m, None))
        if errs:
            msg, (fn, i) = sorted(errs.items(), key=lambda x: x[0])[0]
            rep.bad("life-cycle", m.sq, msg, fn.loc(i) if i is not None else m.loc(), "life-cycle|%s" % m.sq)
        else:
            rep.put(True if out else None, "life-cycle", m.sq, "", m.loc())
        # number of threads and array length agree
    for m in methods(p):
        for i in m.walk_all():
            n = m.N[i]
            if n["c"] == "CXXNewExpr" and n.get("at", "").startswith("std::thread") and "asz" in n:
                t, ev = sym.value_of(m)


def loops(p, rep, N):
    for m in methods(p):
        for i in m.walk_all():
            n = m.N[i]
            if n["c"] not in ir.LOOPS:
                continue
            kinds = []
            for x in m.walk(i):
                k = m.N[x]
                if joins(k):
                    kinds.append(("joined", k["o"], x))
                if spawns(m, k):
                    # the thread is stored in an element: find the enclosing assignment
                    for a in m.ancestors(x):
                        q = m.N[a]
                        if q["c"] == "CXXOperatorCallExpr" and q.get("op") == "=":
                            kinds.append(("started", q["a"][0], x))
                            break
            for what, tgt, x in kinds:
                who = "%s %s" % (m.sq, what)
                if n["c"] == "CXXForRangeStmt":
                    continue
                t = m.N[m.strip(tgt)]
                idx = None
                if t["c"] == "CXXOperatorCallExpr" and t.get("op") == "[]":
                    idx = t["a"][1]
                elif t["c"] == "ArraySubscriptExpr":
                    idx = t["k"][1]
                cond = []
                for a in m.ancestors(x):
                    if a == i:
                        break
                    if m.N[a]["c"] in ("IfStmt", "ConditionalOperator"):
                        cond.append(a)
                cond = [a for a in cond if "joinable" not in m.text(m.N[a]["k"][0])]
                try:
                    wrong = None
                    for cnt in (1, 2, 3, 5):
                        got = visited(m, i, idx, cond, x, N, cnt)
                        if got != list(range(cnt)) and sorted(got) != list(range(cnt)):
                            wrong = (cnt, got)
                            break
                except (KeyError, TypeError, ValueError) as e:
                    rep.unk("all-threads", who, "loop form not recognised", m.loc(i))
                    continue
                rep.put(wrong is None, "all-threads", who, "of %s threads the positions %s are %s" % (wrong + (what,) if wrong else ("", "", "")), m.loc(i), "all-threads|%s" % who)


def visited(fn, loop, idx, conds, x, N, cnt):
    """the values the index takes over the rounds of a for or while loop when the pool has cnt threads"""
    n = fn.N[loop]
    env = {}

    def ev(i):
        i = fn.strip(i, casts=True)
        m = fn.N[i]
        c = m["c"]
        if c in ("IntegerLiteral", "CXXBoolLiteralExpr"):
            return int(m["v"])
        if c == "DeclRefExpr":
            if m.get("id") in env:
                return env[m["id"]]
            r = resolve(fn, i)
            if r != i:
                return ev(r)
            raise KeyError(i)
        if field_of(fn, i) == N.count:
            return cnt
        if c == "MemberExpr" and m.get("n") == N.count:
            return cnt
        if c in ("CXXFunctionalCastExpr", "CXXStaticCastExpr", "CStyleCastExpr", "ImplicitCastExpr", "ParenExpr") and m["k"]:
            return ev(m["k"][0])
        if c == "BinaryOperator":
            op = m["op"]
            if op == "&&":
                return int(bool(ev(m["k"][0])) and bool(ev(m["k"][1])))
            if op == "||":
                return int(bool(ev(m["k"][0])) or bool(ev(m["k"][1])))
            if op == "=":
                env[fn.N[fn.strip(m["k"][0])]["id"]] = r = ev(m["k"][1])
                return r
            if op == ",":
                ev(m["k"][0])
                return ev(m["k"][1])
            a, b = ev(m["k"][0]), ev(m["k"][1])
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: int(a / b), "%": lambda: a % b, "<": lambda: int(a < b), "<=": lambda: int(a <= b),
                    ">": lambda: int(a > b), ">=": lambda: int(a >= b), "==": lambda: int(a == b), "!=": lambda: int(a != b)}[op]()
        if c == "UnaryOperator":
            op = m["op"]
            if op in ("++", "--"):
                v = fn.N[fn.strip(m["k"][0])]["id"]
                old = env[v]
                env[v] = old + (1 if op == "++" else -1)
                return old if m.get("post") else env[v]
            if op == "!":
                return int(not ev(m["k"][0]))
            if op == "-":
                return -ev(m["k"][0])
        if c == "CompoundAssignOperator":
            v = fn.N[fn.strip(m["k"][0])]["id"]
            r = ev(m["k"][1])
            env[v] = {"+=": env[v] + r, "-=": env[v] - r}[m["op"]]
            return env[v]
        if c == "ConditionalOperator":
            return ev(m["k"][1]) if ev(m["k"][0]) else ev(m["k"][2])
        raise KeyError(c)

    def declare(i):
        for d in fn.N[i].get("d", []):
            if "init" in d:
                env[d["id"]] = ev(d["init"])
    if idx is None:
        raise KeyError("index")
    out = []
    body = None
    if n["c"] == "ForStmt":
        init, cnd, inc, body = (n["k"] + [-1] * 4)[:4]
        if init >= 0:
            if fn.N[init]["c"] == "DeclStmt":
                declare(init)
            else:
                ev(init)
        post = False
    elif n["c"] in ("WhileStmt", "DoStmt"):
        cnd, inc = n["k"][0], -1
        body = n["k"][1]
        post = n["c"] == "DoStmt"
    else:
        raise KeyError(n["c"])
    # counters declared before the loop
    for v, d in fn.vars.items():
        if v not in env and "init" in d and any(fn.N[y]["c"] == "DeclRefExpr" and fn.N[y].get("id") == v for y in fn.walk(loop)):
            try:
                env[v] = ev(d["init"])
            except (KeyError, TypeError):
                pass
    for _ in range(60):
        if not post and cnd >= 0 and not ev(cnd):
            break
        # statements of the body that move the counter, and the element touched
        for st in (fn.kids(body) if fn.N[body]["c"] == "CompoundStmt" else [body]):
            if any(y == x for y in fn.walk(st)):
                if all(inside(fn, a, x, ev) for a in conds):
                    out.append(ev(idx))
            elif fn.N[fn.strip(st)]["c"] in ("UnaryOperator", "CompoundAssignOperator", "BinaryOperator") and fn.N[fn.strip(st)].get("op") in ("++", "--", "+=", "-=", "="):
                ev(st)
            elif fn.N[st]["c"] == "DeclStmt":
                try:
                    declare(st)
                except (KeyError, TypeError):
                    pass
            elif fn.N[st]["c"] == "IfStmt" and any(fn.N[y]["c"] in ("BreakStmt", "ContinueStmt", "ReturnStmt") for y in fn.walk(st)):
                raise KeyError("jump")
        if inc >= 0:
            ev(inc)
        if post and not ev(cnd):
            break
    else:
        raise KeyError("endless")
    return out


def inside(fn, a, x, ev):
    """is the branch of condition a that contains x taken?"""
    k = fn.N[a]["k"]
    v = bool(ev(k[0]))
    return v == any(y == x for y in fn.walk(k[1]))


def user_call(fn, i):
    """a call of the submitted callable: a captured parameter that is invoked"""
    n = fn.N[i]
    if n["c"] == "CXXOperatorCallExpr" and n.get("op") == "()":
        t = fn.N[fn.strip(n["a"][0])]
        return t["c"] == "DeclRefExpr" and t.get("n") == "task"
    if n["c"] == "CallExpr":
        t = fn.N[fn.strip(n["k"][0])]
        return t["c"] == "DeclRefExpr" and t.get("dk") in ("parm", "var") and "(" in t.get("t", "") or (t["c"] == "DeclRefExpr" and t.get("dk") in ("parm", "var"))
    return False


def futures(p, rep, N):
    for m in methods(p):
        if not m.d["ret"].startswith("std::future<"):
            continue
        who = "%s -> %s" % (m.sq, m.d["ret"])
        rets = [i for i in m.walk() if m.N[i]["c"] == "ReturnStmt" and m.N[i]["k"]]
        src = set()
        for r in rets:
            x = m.N[r]["k"][0]
            for _ in range(6):
                x = resolve(m, x)
                n = m.N[x]
                if n["c"] == "CXXConstructExpr" and len(n["a"]) == 1:
                    x = n["a"][0]
                elif n["c"] == "CallExpr" and short_callee(n) == "move":
                    x = n["a"][0]
                else:
                    break
            if n["c"] == "CXXMemberCallExpr" and short_callee(n) == "get_future":
                src |= {m.N[y]["id"] for y in m.walk(n["o"]) if m.N[y]["c"] == "DeclRefExpr" and m.N[y].get("dk") in ("var", "parm")}
            else:
                src.add(None)
        lam = [m.N[x] for x in m.walk() if m.N[x]["c"] == "LambdaExpr"]
        if None in src or len(src) != 1 or len(lam) != 1:
            rep.unk("future", who, "promise not identified", m.loc())
            continue
        prom = src.pop()
        cap = [c for c in lam[0].get("caps", []) if c.get("id") == prom]
        f = p.fns.get(lam[0].get("lk"))
        if f is None:
            rep.unk("future", who, "task body not available", m.loc())
            continue
        key = "future|%s" % ("value" if "bool" not in m.d["ret"] else "void")
        if not cap:
            rep.bad("future", who, "the task does not hold the promise behind the returned future", m.loc(), key)
            continue
        if cap[0].get("ref"):
            rep.bad("future", who, "the task refers to the promise of a function that has returned", m.loc(), key)
            continue
        probs = []
        # refers only by value to the callable and its arguments
        for c in lam[0].get("caps", []):
            if c.get("ref") and not c.get("this"):
                probs.append("%s is captured by reference and may be gone when the task runs" % c["n"])

        def is_prom(x):
            return any(f.N[y]["c"] == "DeclRefExpr" and f.N[y].get("id") == prom for y in f.walk(x))

        def classify(fn, i):
            if isinstance(i, tuple):
                return None
            n = fn.N[i]
            if n["c"] == "CXXMemberCallExpr" and short_callee(n) in ("set_value", "set_exception") and is_prom(n["o"]):
                return short_callee(n)
            if user_call(fn, i):
                return "call"
            return None
        errs = {}

        def step(s, ev, fn, i):
            T = {("0", "call"): "1", ("1", "set_value"): "2"}.get((s, ev))
            if T is None:
                errs.setdefault((s, ev), i)
                return "bad"
            return T
        fl = flow.Flow(p, classify, step)
        out = fl.run(f, {"0"})
        for (s, ev), i in errs.items():
            probs.append({("0", "set_value"): "the promise is fulfilled before the task ran", ("1", "call"): "the task is called twice", ("2", "set_value"): "the promise is fulfilled twice (throws)", ("2", "call"): "the task is called again after its result was delivered", ("1", "set_exception"): "an exception is delivered for a task that did not throw"}.get((s, ev), "%s in state %s" % (ev, s)))
        if "1" in out:
            probs.append("a path ends without fulfilling the promise")
        if "0" in out:
            probs.append("a path never calls the task")
        # exceptions
        for i in f.walk():
            if not user_call(f, i):
                continue
            tr = [a for a in f.ancestors(i) if f.N[a]["c"] == "CXXTryStmt"]
            inner = [a for a in tr if i in set(f.walk(f.N[a]["k"][0]))]
            if not inner:
                probs.append("an exception of the task is not caught")
                continue
            hs = [f.N[h] for h in f.N[inner[0]]["k"][1:] if h >= 0 and f.N[h]["c"] == "CXXCatchStmt"]
            if not any(not h.get("ct") for h in hs):
                probs.append("exceptions of some types are not caught")
            for h, hn in [(x, f.N[x]) for x in f.N[inner[0]]["k"][1:] if x >= 0]:
                se = [x for x in f.walk(h) if f.N[x]["c"] == "CXXMemberCallExpr" and short_callee(f.N[x]) == "set_exception" and is_prom(f.N[x]["o"])]
                if not se:
                    probs.append("a handler swallows the task's exception")
                for x in se:
                    a = f.N[x]["a"][0]
                    tx = [short_callee(f.N[y]) for y in f.walk(a) if "f" in f.N[y]]
                    if "current_exception" not in tx:
                        probs.append("the exception delivered is not the task's")
                    if any(f.N[y]["c"] in ("IfStmt", "WhileStmt", "ForStmt") and h in set(f.ancestors(y)) for y in f.ancestors(x)):
                        probs.append("the exception is delivered only on some paths")
        # the value delivered is the task's result
        for i in f.walk():
            n = f.N[i]
            if n["c"] == "CXXMemberCallExpr" and short_callee(n) == "set_value" and is_prom(n["o"]) and n["a"]:
                v = resolve(f, n["a"][0])
                while f.N[v]["c"] in ("CXXConstructExpr",) and len(f.N[v]["a"]) == 1:
                    v = resolve(f, f.N[v]["a"][0])
                if "bool" in m.d["ret"] and f.N[v].get("c") == "CXXBoolLiteralExpr":
                    if f.N[v]["v"] is not True:
                        probs.append("a finished task without result is reported as false")
                elif not any(user_call(f, y) for y in f.walk(v)):
                    probs.append("the value delivered is not the task's result")
        rep.put(not probs, "future", who, "; ".join(probs), f.loc(), key)


def parloop(p, rep, N):
    for m in methods(p):
        if m.n != "parallelize_loop":
            continue
        who = m.sq
        # (a) coverage: evaluate the block bounds over small ranges, block counts and thread counts
        cover(p, rep, N, m, who)
        # (b) await
        lam = [m.N[x] for x in m.walk() if m.N[x]["c"] == "LambdaExpr"]
        if len(lam) != 1 or lam[0].get("lk") not in p.fns:
            rep.unk("loop-await", who, "block task not identified", m.loc())
            continue
        f = p.fns[lam[0]["lk"]]
        probs = []
        cnt = None
        for i in f.walk():
            n = f.N[i]
            if n["c"] in ("CXXOperatorCallExpr", "CXXMemberCallExpr") and (n.get("op") == "--" or short_callee(n) == "fetch_sub" or n.get("op") == "-="):
                t = f.N[f.strip(n["a"][0] if n["c"] == "CXXOperatorCallExpr" else n["o"])]
                if t["c"] == "DeclRefExpr":
                    cnt = t
        uf = [c for c in lam[0].get("caps", [])]
        if cnt is None:
            # no counter: some other means of waiting
            rep.unk("loop-await", who, "no block counter recognised", m.loc())
            continue
        loopv = [q["id"] for q in m.params if q["n"] == "loop" or "lambda" in q["t"] or "(" in q["t"]]

        def cb(fn, i):
            if isinstance(i, tuple):
                return None
            n = fn.N[i]
            c = counter(fn, i, cnt["n"])
            if c is not None:
                return "dec" if c == -1 else "odd"
            if n["c"] == "CXXOperatorCallExpr" and n.get("op") == "()" and fn.N[fn.strip(n["a"][0])].get("id") in loopv:
                return ("call", "!skip")
            if n["c"] == "CallExpr" and fn.N[fn.strip(n["k"][0])].get("id") in loopv:
                return ("call", "!skip")
            return None
        errs = {}

        def sb(s, ev, fn, i):
            T = {("0", "call"): "1", ("1", "dec"): "2"}.get((s, ev))
            if T is None:
                errs.setdefault({("0", "dec"): "a block is counted as finished before it ran", ("1", "call"): "a block runs twice", ("2", "dec"): "a block is counted as finished twice", ("2", "call"): "the loop function runs after the block was counted as finished"}.get((s, ev), "the block counter is overwritten"), (fn, i))
                return "bad"
            return T
        out = flow.Flow(p, cb, sb).run(f, {"0"})
        if "0" in out:
            probs.append("a path of the block task does not call the loop function")
        if "1" in out:
            probs.append("a path of the block task is never counted as finished")
        probs += list(errs)
        # caller: counter raised before the push, zero before returning

        def cc(fn, i):
            if isinstance(i, tuple):
                if i[0] == "edge":
                    a = atom(fn, i[1], i[2], N)
                    if a and a[0] in ("var:" + cnt["n"],):
                        return None if a[1] else "zero"
                    c, o = condition(fn, i[1], i[2])
                    # atomic local compared with zero
                    n = fn.N[c]
                    for x in fn.walk(c):
                        if fn.N[x].get("id") == cnt["id"]:
                            k = const_cmp(fn, c, cnt["id"])
                            if k is not None and k(o):
                                return "zero"
                return None
            n = fn.N[i]
            c = counter(fn, i, cnt["n"])
            if c == 1:
                return "inc"
            if "f" in n and "a" in n and n["f"].get("rec") == REC and short_callee(n) in ("push_task", "submit"):
                return ("push", "!skip")
            if c is not None:
                return "odd"
            return None
        errs2 = {}

        def sc(s, ev, fn, i):
            T = {("0", "inc"): "1", ("1", "push"): "2", ("2", "inc"): "1", ("0", "zero"): "0", ("2", "zero"): "0"}.get((s, ev))
            if s == "preset":
                T = {"push": "2"}.get(ev)
            if T is None:
                if ev == "odd":
                    return "?"
                if s == "?":
                    return "2" if ev == "push" else s if ev != "zero" else "0"
                errs2.setdefault({("0", "push"): "a block is submitted before it is counted", ("2", "push"): "a block is submitted before it is counted", ("1", "inc"): "a block is counted twice"}.get((s, ev), "%s in state %s" % (ev, s)), (fn, i))
                return "bad"
            return T
        out = flow.Flow(p, cc, sc, descend=lambda fn, i, t: t.rec == REC).run(m, {"0"})
        if "2" in out or "1" in out:
            probs.append("the function can return while blocks are still running")
        init = [v for v in m.vars.values() if v["id"] == cnt["id"]]
        probs += list(errs2)
        rep.put(not probs, "loop-await", who, "; ".join(probs), m.loc(), "loop-await|" + who)


def const_cmp(fn, c, vid):
    n = fn.N[fn.strip(c)]
    if n["c"] in ("BinaryOperator",) and n.get("op") in ("==", "!=", ">", "<="):
        a, b = n["k"]
        z = fn.N[fn.strip(b, casts=True)]
        if z.get("v", z.get("ice")) == 0:
            return {"==": lambda o: o, "!=": lambda o: not o, ">": lambda o: not o, "<=": lambda o: o}[n["op"]]
    if n["c"] in ("ImplicitCastExpr", "CXXMemberCallExpr", "DeclRefExpr"):
        return lambda o: not o
    return None


def cover(p, rep, N, m, who):
    t, ev = sym.value_of(m, stop=("push_task", "submit", "sleep_or_yield"))
    import props.loopcover as lc
    r, msg = lc.cover(p, m, N)
    rep.put(r, "loop-cover", who, msg, m.loc(), "loop-cover|" + who)


def values(p, rep, N):
    from golden import Golden, this as _t
    g = Golden(p, rep)
    for m in methods(p):
        g.ev[m.key] = sym.value_of(m, stop=tuple(REC + "::" + x.n for x in methods(p) if x.d["ret"] == "void"))
        if m.n == "reset":
            t, ev = g.ev[m.key]
            addr = ("fld", ("this",), N.paused)
            st = [x for x in ev.stores if x[1] == addr]
            if not st:
                rep.ok("paused-kept", m.sq, "never written", m.loc())
            else:
                v = st[-1][2]
                rep.put(None if st[-1][3] or opaque(v) else v == addr, "paused-kept", m.sq, "the flag is left as %s, not as it was" % sym.show(v)[:100], m.loc(), "paused-kept|" + m.sq)
        if m.n == "get_tasks_running":
            g.ret("tasks-running", m, T(("fld", ("this",), N.total)) - T(("size", ("fld", ("this",), N.queue))), m.sq)
