"""Typestate engine: a finite automaton is run over every path of a function's CFG, with
repository callees inlined by state-transition summaries.  Boolean locals, short-circuit
operators and boolean results of callees are tracked along each path, so that a decision
stored in a variable or computed in a helper counts like the decision itself.

classify(fn, item) -> event name, tuple of events, or None, where item is a node id,
("edge", condition node, outcome) or ("dtor", element).
The event "!skip" stops descending into the callee at that node; a step result "!dead"
drops the path."""


class Flow:
    def __init__(self, prog, classify, step, descend=lambda fn, i, t: True, lambdas_at_call=True, maxdepth=40):
        self.p, self.classify, self.step_, self.descend = prog, classify, step, descend
        self.lam = lambdas_at_call
        self.sum = {}
        self.busy = set()
        self.maxdepth = maxdepth
        self.errors = {}         # (state, event, new state) -> first (fn, node)

    def step(self, s, ev, fn, i):
        r = self.step_(s, ev, fn, i)
        if r is None:
            r = s
        if r != s:
            self.errors.setdefault((s, ev, r), (fn, i))
        return r

    def fire(self, fn, item, q, node):
        """run the events of an item on one user state; None when the path dies"""
        ev = self.classify(fn, item)
        for e in (() if ev is None else (ev,) if isinstance(ev, str) else ev):
            if e == "!skip":
                continue
            q = self.step(q, e, fn, node)
            if q == "!dead":
                return None
        return q

    def run(self, fn, states, depth=0):
        """set of user states at fn's exit when entered in one of states"""
        return {s for s, r in self.call(fn, states, depth)}

    def call(self, fn, states, depth=0):
        """set of (user state, boolean result or None)"""
        out = set()
        for s in states:
            k = (fn.key, s)
            if k in self.sum:
                out |= self.sum[k]
                continue
            if k in self.busy or depth > self.maxdepth:
                continue
            self.busy.add(k)
            cur = frozenset()
            for _ in range(6):
                self.sum[k] = cur
                ex = frozenset(self.flow(fn, s, depth))
                if ex == cur:
                    break
                cur = ex
                if not self.recursive(fn):
                    break
            self.sum[k] = cur
            self.busy.discard(k)
            out |= cur
        return out

    def recursive(self, fn):
        r = getattr(fn, "_recursive", None)
        if r is None:
            r = fn._recursive = any(fn.key in self.p.reachable([t]) for t in self.p.succ_fns(fn))
        return r

    # ---- boolean facts: env is a frozenset of (key, value); key = variable id or ("n", node);
    # value = True/False or ("res", fn key, node, polarity)
    @staticmethod
    def put(env, k, v):
        env = frozenset(x for x in env if x[0] != k)
        return env if v is None else env | {(k, v)}

    @staticmethod
    def get(env, k):
        for a, v in env:
            if a == k:
                return v
        return None

    def value(self, fn, i, env, pol=True, depth=0):
        """what is known of the boolean expression i on this path"""
        i = fn.strip(i)
        n = fn.N[i]
        v = self.get(env, ("n", i))
        if isinstance(v, bool):
            return v == pol
        if isinstance(v, tuple):
            return ("res", v[1], v[2], v[3] == pol)
        c = n["c"]
        if c == "CXXBoolLiteralExpr":
            return bool(n["v"]) == pol
        if c == "DeclRefExpr":
            v = self.get(env, n.get("id"))
            if isinstance(v, bool):
                return v == pol
            if isinstance(v, tuple):
                return ("res", v[1], v[2], v[3] == pol)
        if c == "UnaryOperator" and n.get("op") == "!":
            return self.value(fn, n["k"][0], env, not pol, depth + 1)
        if c == "BinaryOperator" and n.get("op") in ("&&", "||"):
            # reached without a short cut: the right operand decides
            return self.value(fn, n["k"][1], env, pol, depth + 1)
        if c == "ConditionalOperator":
            cv = self.value(fn, n["k"][0], env)
            if isinstance(cv, bool):
                return self.value(fn, n["k"][1] if cv else n["k"][2], env, pol, depth + 1)
            return None
        return ("res", fn.key, i, pol)

    def assume(self, fn, c, o, q, env):
        """take a branch on c with outcome o: (user state, env) or None"""
        i = fn.strip(c)
        n = fn.N[i]
        pol = o
        while True:
            if n["c"] == "BinaryOperator" and n.get("op") in ("&&", "||"):
                i = fn.strip(n["k"][1])
            elif n["c"] == "UnaryOperator" and n.get("op") == "!":
                i, pol = fn.strip(n["k"][0]), not pol
            else:
                break
            n = fn.N[i]
        v = self.value(fn, i, env)
        if isinstance(v, bool):
            if v != pol:
                return None
        elif isinstance(v, tuple) and (v[1] != fn.key or v[2] != i):
            g = self.p.fns[v[1]]
            q = self.fire(g, ("edge", v[2], pol == v[3]), q, v[2])
            if q is None:
                return None
        else:
            q = self.fire(fn, ("edge", c, o), q, c)
            if q is None:
                return None
        if n["c"] == "DeclRefExpr" and isinstance(v, tuple):
            env = self.put(env, n["id"], pol)
        # the decision settles enclosing operators
        logical = False
        x, ov = c, o
        while x in fn.parent:
            p = fn.parent[x]
            m = fn.N[p]
            if m["c"] in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups"):
                x = p
                continue
            if m["c"] == "UnaryOperator" and m.get("op") == "!":
                x, ov = p, not ov
                continue
            if m["c"] == "BinaryOperator" and m.get("op") in ("&&", "||"):
                if m["k"][0] == x:
                    if ov == (m["op"] == "||"):
                        env = self.put(env, ("n", p), ov)
                        logical = True
                        x = p
                        continue
                    env = self.put(env, ("n", p), None)
                    logical = True
                    break
                if ov == (m["op"] == "||") or True:
                    env = self.put(env, ("n", p), ov)
                    logical = True
                    x = p
                    continue
            if m["c"] == "ConditionalOperator" and m["k"][0] == x:
                env = self.put(env, ("n", fn.strip(x)), ov)
                logical = True
            break
        if not logical:
            env = frozenset(z for z in env if not isinstance(z[0], tuple))
        return q, env

    def flow(self, fn, s, depth=0):
        g = fn.cfg
        ins = {b: set() for b in g.blocks}
        ins[g.entry] = {(s, frozenset())}
        work = [g.entry]
        done = {b: set() for b in g.blocks}
        exits = set()
        steps = 0
        while work:
            b = work.pop()
            todo = ins[b] - done[b]
            done[b] |= todo
            blk = g.blocks[b]
            for q, env in todo:
                steps += 1
                st = {(q, env)}
                for e in blk["e"]:
                    nx = set()
                    for q1, e1 in st:
                        nx |= self.elem(fn, e, q1, e1, depth)
                    st = nx
                    if not st:
                        break
                if b == g.exit:
                    for q1, e1 in st:
                        v = self.get(e1, "ret")
                        exits.add((q1, v))
                    continue
                for q1, e1 in st:
                    for k, x in enumerate(blk["s"]):
                        if x < 0:
                            continue
                        q2, e2 = q1, e1
                        if "cond" in blk and len(blk["s"]) == 2:
                            r = self.assume(fn, blk["cond"], k == 0, q1, e1)
                            if r is None:
                                continue
                            q2, e2 = r
                        if (q2, e2) not in ins[x]:
                            if steps > 4000:
                                e2 = frozenset()
                            ins[x].add((q2, e2))
                            if x not in work:
                                work.append(x)
        return exits

    def elem(self, fn, e, q, env, depth):
        """set of (user state, env) after one CFG element"""
        if isinstance(e, dict):
            if "dtor" in e or "deldtor" in e:
                q = self.fire(fn, ("dtor", e), q, None)
                return set() if q is None else {(q, env)}
            return {(q, env)}
        n = fn.N[e]
        ev = self.classify(fn, e)
        evs = () if ev is None else (ev,) if isinstance(ev, str) else ev
        for x in evs:
            if x != "!skip":
                q = self.step(q, x, fn, e)
                if q == "!dead":
                    return set()
        c = n["c"]
        # boolean locals
        if c == "DeclStmt":
            ch = False
            for d in n.get("d", []):
                if d["t"].replace("const ", "") == "bool" and "init" in d:
                    env = self.put(env, d["id"], self.value(fn, d["init"], env))
                    ch = True
            env = frozenset(z for z in env if not isinstance(z[0], tuple))
        elif c == "BinaryOperator" and n.get("op") == "=":
            t = fn.N[fn.strip(n["k"][0])]
            if t["c"] == "DeclRefExpr" and t.get("t", "").replace("const ", "") == "bool" and t.get("id") in fn.vars:
                env = self.put(env, t["id"], self.value(fn, n["k"][1], env))
            env = frozenset(z for z in env if not isinstance(z[0], tuple))
        elif c == "CompoundAssignOperator":
            t = fn.N[fn.strip(n["k"][0])]
            if t["c"] == "DeclRefExpr":
                env = self.put(env, t.get("id"), None)
        elif c == "ReturnStmt":
            v = self.value(fn, n["k"][0], env) if n["k"] and fn.d.get("ret") == "bool" else None
            env = self.put(env, "ret", v)
        if "!skip" in evs:
            return {(q, env)}
        if "f" in n and "a" in n:
            ts = [t for t in self.p.call_targets(fn, e) if self.descend(fn, e, t)]
            if ts:
                out = set()
                for t in ts:
                    for s1, r in self.call(t, {q}, depth + 1):
                        out.add((s1, self.put(env, ("n", e), r) if r is not None else env))
                if out or not any((t.key, q) in self.busy for t in ts):
                    return out
                return {(q, env)}
            if self.lam(fn, e) if callable(self.lam) else self.lam:
                # a lambda handed to code outside the repository runs any number of times
                st = {q}
                for a in n["a"]:
                    for k in self.lambdas(fn, a):
                        if k in self.p.fns:
                            cur = set(st)
                            for _ in range(4):
                                nx = cur | self.run(self.p.fns[k], cur, depth + 1)
                                if nx == cur:
                                    break
                                cur = nx
                            st = cur
                return {(x, env) for x in st}
        return {(q, env)}

    def lambdas(self, fn, a):
        a = fn.strip(a, casts=True)
        m = fn.N[a]
        if m["c"] == "LambdaExpr":
            return [m["lk"]] if "lk" in m else m.get("specs", [])
        if m["c"] == "DeclRefExpr" and m.get("id") in fn.vars and "init" in fn.vars[m["id"]]:
            x = fn.N[fn.strip(fn.vars[m["id"]]["init"], casts=True)]
            if x["c"] == "LambdaExpr":
                return [x["lk"]] if "lk" in x else x.get("specs", [])
        return ()
