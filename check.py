#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]  -- decide one property on /repo's current source."""
import importlib, os, sys
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sa"))
sys.dont_write_bytecode = True


def main():
    import threading
    threading.stack_size(512 * 1024 * 1024)
    out = []
    t = threading.Thread(target=lambda: out.append(run()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out[0] if out else 4)


def run():
    import report, facts
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    verbose = "-v" in sys.argv
    mod = importlib.import_module("props." + pid)
    rep = report.Report(pid, tier)
    try:
        info = {"functions": 0, "records": 0, "tus": []}
        if getattr(mod, "NEEDS_PROG", True):
            import ir
            scalars = ["double"] + (["float"] if tier == "thorough" and getattr(mod, "SCALARS", True) else [])
            for sc in scalars:
                p = ir.program(sc)
                info["functions"] += len(p.fns)
                info["records"] += len(p.records)
                info["tus"] += [os.path.basename(t) + ("" if sc == "double" else "<%s>" % sc) for t in p.facts["tus"]]
                if p.facts["errors"]:
                    rep.notes.append("front-end errors (%s): %s" % (sc, p.facts["errors"][:5]))
                mod.check(p, rep)
        else:
            info = mod.check(rep) or info
    except report.AnchorError as e:
        print("ANCHOR: %s" % e)
        return 3
    except facts.FactError as e:
        print("FACTS: %s" % e)
        return 3
    if verbose:
        for o in rep.obs:
            print(o[2], o[0], o[1], o[5], o[3])
    return rep.finish(info)


main()
