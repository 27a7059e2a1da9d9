"""Training of member learners, read off the trace of a training function: the events on each member."""
import sym
from golden import norm
from sym import ZERO


def bare(t):
    """the object an address names, whatever was done to it before"""
    return sym.rewrite(t, lambda s: s[2] if s[0] == "phi" and isinstance(s[2], tuple) else s)


def members(p, rep, f, rule, sampled=False):
    who = f.sq.replace("mltk::", "")
    ev = sym.Ev(f, this=("this",), stop=("mltk::Data::sampling", "mltk::Learner::setSeed"))
    ev.trace = []
    ev.run()
    ML = ("fld", ("this",), "m_learners")
    alias = {}
    data, train = {}, []
    order = []
    for n, (k, t, v, conds, loops, fn, node) in enumerate(ev.trace):
        if k == "W" and t[0] == "idx" and bare(t[1]) == ML and v and v[0] == "call":
            alias[v] = bare(t)
        if k == "C" and t[1].rsplit("::", 1)[-1] in ("train", "setSamples") and len(t) > 2:
            o = bare(alias.get(t[2], t[2]))
            if o[0] == "idx" and o[1] == ML:
                order.append((n, t[1].rsplit("::", 1)[-1], o[2], t[3] if len(t) > 3 else None, conds, loops, fn, node))
        elif k == "W" and t[0] == "fld" and t[2] == "samples" and t[1] != ("this",):
            o = bare(alias.get(t[1], t[1]))
            if o[0] == "idx" and o[1] == ML:
                order.append((n, "setSamples", o[2], v, conds, loops, fn, node))
    tr = [x for x in order if x[1] == "train"]
    if not tr:
        if any(e[0] == "C" and e[1][1].endswith("::train") for e in ev.trace):
            rep.unk(rule, who, "training calls on objects that are not recognised as members", f.loc())
        else:
            rep.bad(rule, who, "no member is trained", f.loc())
        return
    sizes = [("size", ML), ("fld", ("this",), "n_estimators"), ("fld", ("this",), "n")]
    for x in tr:
        loc = x[6].loc(x[7])
        lp = x[5]
        bad = None
        if len(lp) != 1 or lp[0][0] is None or x[2] != lp[0][0]:
            rep.unk(rule, who, "the loop over the members is not understood", loc)
            continue
        bv, lo, hi = lp[0]
        hi = norm(bare(hi))
        if x[4]:
            bad = "a member is only trained when %s" % sym.show(x[4][0])[:120]
        elif lo != ZERO or (hi not in sizes and any(sym.sub(hi, s)[0] == "num" and sym.sub(hi, s) != ZERO for s in sizes)):
            bad = "members %s..%s are trained, not all of them" % (sym.show(lo), sym.show(hi))
        elif len(tr) > 1:
            bad = "a member is trained more than once"
        else:
            ds = [d for d in order if d[1] == "setSamples" and d[2] == x[2] and d[5] == lp and d[0] < x[0] and not d[4]]
            if not ds:
                late = [d for d in order if d[1] == "setSamples"]
                earlier = [d for d in late if d[0] < x[0] and len(d[5]) == 1 and d[5][0][1] == ZERO and not d[4]]
                if not earlier:
                    bad = "a member is trained before it is given the training set" if late else "a member is trained without being given a training set"
                else:
                    ds = earlier
            if ds:
                v = ds[-1][3]
                b = bare(v) if v else None
                own = ("fld", ("this",), "samples")
                if sampled:
                    if b == own:
                        bad = "every member is trained on the whole training set instead of a sample"
                    elif not (b and any(s == own for s in sym.subterms(b))):
                        rep.unk(rule, who, "training data %s" % (sym.show(v)[:120] if v else v), loc)
                        continue
                elif b != own:
                    if b is None or sym.root(b)[0] not in ("this", "par"):
                        rep.unk(rule, who, "training data %s" % (sym.show(v)[:120] if v else v), loc)
                        continue
                    bad = "a member is trained on %s" % sym.show(v)[:120]
        if bad is None and hi not in sizes:
            rep.unk(rule, who, "loop bound %s" % sym.show(hi)[:100], loc)
            continue
        rep.put(bad is None, rule, who, bad or "", loc)
