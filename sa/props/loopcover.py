"""Block bounds of a parallel loop: with S(t), E(t) the terms of the bounds of block t, the
intervals [S(t), E(t)) for t in the block range partition [first, last)."""
import itertools
import sym, numeval
from formula import opaque
from props.common import *


def cover(p, m, N):
    t, ev = sym.value_of(m, stop=tuple("mltk::ThreadPool::" + n for n in ("push_task", "submit", "sleep_or_yield", "wait_for_tasks")))
    lam = [(i, s) for i, s in ev.snap.items() if m.N[i]["c"] == "LambdaExpr" and s[1]]
    if len(lam) != 1:
        return None, "block task not identified"
    i, (env, loops, conds) = lam[0]
    f = p.fns.get(m.N[i].get("lk"))
    if f is None or len(loops) != 1 or "lo" not in loops[0]:
        return None, "block loop not recognised"
    bounds = []
    for x in f.walk():
        n = f.N[x]
        if n["c"] == "CXXOperatorCallExpr" and n.get("op") == "()" and len(n["a"]) == 3 and f.N[f.strip(n["a"][0])].get("id") in m.pid:
            bounds.append([f.N[f.strip(a, casts=True)] for a in n["a"][1:]])
        elif n["c"] == "CallExpr" and len(n["a"]) == 2 and f.N[f.strip(n["k"][0])].get("id") in m.pid:
            bounds.append([f.N[f.strip(a, casts=True)] for a in n["a"]])
    if len(bounds) != 1 or any(b["c"] != "DeclRefExpr" or b["id"] not in env for b in bounds[0]):
        return None, "block bounds not identified"
    caps = {c.get("id"): c for c in m.N[i].get("caps", [])}
    for b in bounds[0]:
        c = caps.get(b["id"])
        if c and c.get("ref") and b["id"] not in m.pid:
            return False, "the bound %s of a block is captured by reference and changes before the block runs" % b["n"]
    S, E = (env[b["id"]] for b in bounds[0])
    lo, hi, bv = loops[0]["lo"], loops[0]["hi"], loops[0]["bv"]
    for x in (S, E, lo, hi):
        o = opaque(x)
        if o:
            return None, "bounds not resolved (%s)" % o
    atoms = {s for x in (S, E, lo, hi) for s in sym.subterms(x) if s[0] in numeval.ADDRS}
    other = {a for a in atoms if a[0] == "fld"}
    if any(a[0] not in ("par", "fld", "this") for a in atoms) or len(other) > 1:
        return None, "unexpected operands"
    n = 0
    for a, b, nb, tc in itertools.product((-3, 0, 2), range(-3, 14), (0, 1, 2, 3, 5, 7), (1, 2, 4)):
        vals = {0: a, 1: b, 3: nb}
        bind = lambda ne, t: float(vals[t[1]]) if t[0] == "par" and t[1] in vals else float(tc) if t in other else None
        ne = numeval.NumEval(0, bind=bind)
        if any(same_cond(ne, c) is False for c in conds):
            continue
        try:
            seen = []
            for k in range(int(ne.ev(lo)), int(ne.ev(hi))):
                ne.bv[bv] = k
                seen += list(range(int(ne.ev(S)), int(ne.ev(E))))
            ne.bv.pop(bv, None)
        except (numeval.Undecided, numeval.Undefined) as e:
            return None, "bounds not evaluable (%s)" % e
        want = list(range(min(a, b), max(a, b)))
        n += 1
        if sorted(seen) != want:
            miss = sorted(set(want) - set(seen))
            dup = sorted({x for x in seen if seen.count(x) > 1})
            extra = sorted(set(seen) - set(want))
            return False, "for the range %d..%d with %d blocks and %d threads the blocks %s" % (a, b, nb, tc, "; ".join(x for x in ("miss %s" % miss if miss else "", "repeat %s" % dup if dup else "", "include %s" % extra if extra else "") if x))
    return (True, "%d ranges" % n) if n else (None, "no range")


def same_cond(ne, c):
    try:
        return ne.ev(c) != 0
    except (numeval.Undecided, numeval.Undefined):
        return None
