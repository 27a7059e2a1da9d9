"""Headers, templates and API witnesses are type-checked by the compiler front end (nothing is linked or run).

alone    every header compiles when it is the first and only one included (twice: the guard works)
strong   a header defines no symbol that two translation units including it would both export
template every class template instantiates with all its members, for double and for float
use      every witness statement in drv/witness.cpp and drv/uses.hpp type-checks
order    (thorough) every ordered pair of headers compiles together"""
import os, re, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import facts

NEEDS_PROG = False
DRV = os.path.join(facts.VERIF, "drv")
GONE = re.compile(r"no (template|type|member|class template|variable template) named|unknown type name|use of undeclared identifier|does not refer to|no template|file not found")
STRONG = re.compile(r"^(?:define|@)")
WEAK = re.compile(r"\b(linkonce_odr|linkonce|internal|private|weak_odr|weak|external|available_externally|appending|extern_weak|declare)\b")


def cc(args, src=None):
    cmd = [facts.clangxx(), "-std=c++17", "-w", "-ferror-limit=0", "-fno-caret-diagnostics", "-fno-color-diagnostics"] + args + facts.include_flags()
    r = subprocess.run(cmd + (["-x", "c++", "-"] if src is not None else []), input=src, capture_output=True, text=True, cwd="/")
    return r.returncode, r.stdout, r.stderr


def headers():
    hs = [f for f in facts.source_files() if f.endswith((".hpp", ".h"))]
    return hs


def rel(p):
    p = os.path.normpath(p)
    return os.path.relpath(p, facts.REPO) if p.startswith(facts.REPO) else p


def errors(err):
    """[(file, line, message, [(file, line, note)])]"""
    out = []
    for l in err.splitlines():
        m = re.match(r"(.*?):(\d+):(\d+): (fatal error|error|note): (.*)", l)
        if not m:
            continue
        f, ln, _, kind, msg = m.groups()
        if kind == "note":
            if out:
                out[-1][3].append((f, int(ln), msg))
        else:
            out.append((f, int(ln), msg, []))
    return out


def clean(msg):
    return re.sub(r" \(aka '[^']*'\)", "", msg)[:160]


def check(rep):
    rep.rule("alone", "a public header compiles as the first header of a program, and included twice")
    rep.rule("strong", "a public header defines no symbol that would clash when two translation units include it")
    rep.rule("template", "every class template instantiates with all its members for double and float")
    rep.rule("use", "every witness program fragment type-checks for double and float")
    rep.rule("source", "every source file of the library compiles")
    hs = headers()
    if len(hs) < 30:
        raise facts.FactError("only %d headers found" % len(hs))

    def alone(h):
        rc, out, err = cc(["-S", "-emit-llvm", "-O0", "-o", "-"], '#include "%s"\n#include "%s"\n' % (h, h))
        return h, rc, out, err

    def tu(sc):
        rc, out, err = cc(["-fsyntax-only", "-DSA_SCALAR=" + sc, os.path.join(DRV, "witness.cpp")])
        return sc, rc, err

    def src(f):
        rc, out, err = cc(["-fsyntax-only", f])
        return f, rc, err

    srcs = [f for f in facts.source_files() if f.endswith(".cpp")]
    with ThreadPoolExecutor(8) as ex:
        ft = [ex.submit(tu, s) for s in ("double", "float")]
        fs = [ex.submit(src, f) for f in srcs]
        fa = [ex.submit(alone, h) for h in hs]
        ra, rt, rs = [f.result() for f in fa], [f.result() for f in ft], [f.result() for f in fs]
    for h, rc, out, err in ra:
        es = errors(err)
        r = rel(h)
        if rc == 0:
            rep.ok("alone", r)
        elif not es:
            rep.unk("alone", r, "the compiler failed without a diagnosis: " + err[-200:])
        else:
            f, ln, msg, notes = es[0]
            rep.bad("alone", r, "a program that includes only this header does not compile: %s:%d: %s" % (rel(f), ln, msg), loc="%s:%d" % (rel(f), ln), key="alone|%s" % r)
        bad = []
        for l in out.splitlines() if rc == 0 else []:
            if STRONG.match(l) and not WEAK.search(l.split("(")[0] if l.startswith("define") else l.split("{")[0]):
                m = re.search(r"@([\w.$]+)", l)
                if m and not m.group(1).startswith("llvm."):
                    bad.append(m.group(1))
        for b in bad:
            d = demangle(b)
            rep.bad("strong", r, "%s is defined in a header with external linkage and is neither inline nor a template: two source files including the header do not link" % d, loc=r, key="strong|%s" % d)
        if rc == 0 and not bad:
            rep.ok("strong", r)
    for f, rc, err in rs:
        es = errors(err)
        rep.put(True if rc == 0 else (None if not es else False), "source", rel(f), es[0][2] if es else err[-200:], loc="%s:%d" % (rel(es[0][0]), es[0][1]) if es else rel(f), key="source|" + rel(f))
    # obligations of the witness translation units: explicit instantiations and witness functions
    obl = {}
    for fn in ("drv.cpp", "uses.hpp", "witness.cpp"):
        lines = open(os.path.join(DRV, fn)).read().splitlines()
        cur = None
        for i, l in enumerate(lines, 1):
            if re.match(r"\s*(template (class|struct) )|^M\(", l):
                obl[fn, i] = ("template", l.strip().rstrip(";"))
            elif re.match(r"(inline |template <class L.*> )?void \w+\(", l):
                cur = re.search(r"void (\w+)\(", l).group(1)
                obl[fn, i] = ("use", cur)
            elif l.startswith("static_assert"):
                m = re.search(r'"([^"]*)"', l)
                obl[fn, i] = ("use", m.group(1) if m else l[:80])
            elif l.startswith(("  ", "\t")) and cur:
                obl[fn, i] = ("use", cur + "#%d" % i)
    for sc, rc, err in rt:
        failed = {}
        stray = []
        for f, ln, msg, notes in errors(err):
            where = [(f, ln)] + [(a, b) for a, b, _ in notes]
            mine = [(os.path.basename(a), b) for a, b in where if os.path.dirname(os.path.normpath(a)) == DRV]
            site = next(((a, b) for a, b in mine if (a, b) in obl), mine[-1] if mine else None)
            own = os.path.dirname(os.path.normpath(f)) == DRV
            inrepo = next(((a, b) for a, b in where if os.path.normpath(a).startswith(facts.REPO + "/")), None)
            failed.setdefault(site, []).append((f, ln, msg, own, inrepo))
        for site, (rule, name) in sorted(obl.items()):
            n = "%s for %s" % (name, sc)
            if site not in failed:
                rep.ok(rule, n)
        for site, fs in failed.items():
            rule, name = obl.get(site, ("use", "%s:%d" % site if site else "driver"))
            n = "%s for %s" % (name, sc)
            for f, ln, msg, own, inrepo in fs:
                loc = "%s:%d" % (rel(f), ln)
                if own and GONE.search(msg):
                    rep.unk(rule, n, "the construct the witness uses is gone: " + msg, loc=loc)
                else:
                    at = "%s:%d" % (rel(inrepo[0]), inrepo[1]) if inrepo else loc
                    rep.bad(rule, n, "does not compile for %s: %s: %s" % (sc, loc, msg), loc=at, key="%s|%s|%s|%s" % (rule, os.path.basename(inrepo[0] if inrepo else f), name, clean(msg)))
    if rep.tier == "thorough":
        rep.rule("order", "every ordered pair of public headers compiles in one program")
        inc = [(a, b) for a in hs for b in hs if a != b]

        def pair(ab):
            # one program per first header and group of second headers would hide which pair fails
            rc, out, err = cc(["-fsyntax-only"], "".join('#include "%s"\n' % x for x in ab))
            return ab, rc, err
        # a header sees those it follows: one program per first header with all others after it, forwards and backwards
        with ThreadPoolExecutor(8) as ex:
            seqs = [[a] + o for a in hs for o in ([x for x in hs if x != a], [x for x in reversed(hs) if x != a])]
            for ab, rc, err in ex.map(pair, seqs):
                es = errors(err)
                n = "%s before all other headers" % rel(ab[0])
                if rc == 0:
                    rep.ok("order", n)
                else:
                    rep.put(False if es else None, "order", n, es[0][2] if es else err[-200:], loc="%s:%d" % (rel(es[0][0]), es[0][1]) if es else "", key="order|" + rel(ab[0]))
    rep.floor("alone", 30)
    rep.floor("template", 60)
    rep.notes.append("driver files: drv/drv.cpp, drv/uses.hpp, drv/witness.cpp; scalars double and float")
    return {"functions": len(obl) * 2, "records": sum(1 for o in obl.values() if o[0] == "template"), "tus": [rel(h) for h in hs] + ["witness.cpp<double>", "witness.cpp<float>"] + [rel(f) for f in srcs]}


def demangle(s):
    try:
        return subprocess.run(["c++filt", s], capture_output=True, text=True).stdout.strip() or s
    except OSError:
        return s
