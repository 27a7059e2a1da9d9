"""Builds the fact extractor when needed, runs it on /repo's current sources and
merges the per-translation-unit facts.  Nothing of /repo is executed."""
import glob, hashlib, json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SA_REPO", "/repo")
LLVM = "/usr/lib/llvm-18"


class FactError(Exception):
    pass


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()


_cache = None
_tool = None


def cache_dir():
    global _cache
    if _cache is None:
        d = os.path.join(VERIF, ".cache")
        try:
            os.makedirs(d, exist_ok=True)
            fd, t = tempfile.mkstemp(dir=d, prefix=".w")
            os.close(fd)
            os.remove(t)
        except OSError:
            d = os.path.join(tempfile.gettempdir(), "mltk-sa-cache-%d" % os.getuid())
            os.makedirs(d, exist_ok=True)
        _cache = d
    return _cache


def clangxx():
    p = os.path.join(LLVM, "bin", "clang++")
    return p if os.path.exists(p) else (shutil.which("clang++-18") or shutil.which("clang++"))


def extractor():
    global _tool
    if _tool is None:
        _tool = _build_extractor()
    return _tool


def _build_extractor():
    src = os.path.join(VERIF, "tool", "extract.cpp")
    data = open(src, "rb").read()
    out = os.path.join(cache_dir(), "extract-" + _sha(data)[:16])
    if os.path.exists(out):
        return out
    lc = os.path.join(LLVM, "bin", "llvm-config")
    if not os.path.exists(lc):
        lc = shutil.which("llvm-config-18") or shutil.which("llvm-config")
    cx = [f for f in subprocess.check_output([lc, "--cxxflags"], text=True).split() if not f.startswith("-std=")]
    ld = subprocess.check_output([lc, "--ldflags"], text=True).split()
    tmp = out + ".%d" % os.getpid()
    cmd = [clangxx(), "-O0", "-std=c++17", "-fno-rtti", "-w"] + cx + [src, "-o", tmp, LLVM + "/lib/libclang-cpp.so.18.1"] + ld + ["-lLLVM-18"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise FactError("cannot build the extractor:\n" + r.stderr[-2000:])
    os.replace(tmp, out)
    return out


def include_flags(repo=None):
    repo = repo or REPO
    inc = ["-I" + os.path.join(VERIF, "drv")]
    for d in sorted(glob.glob(repo + "/subprojects/*/include")) + [repo + "/include"]:
        inc.append("-I" + d)
    return inc


def source_files(repo=None):
    repo = repo or REPO
    fs = []
    for pat in ("/subprojects/*/include/**/*.hpp", "/subprojects/*/src/**/*.cpp", "/include/**/*.hpp", "/subprojects/*/include/**/*.h"):
        fs += glob.glob(repo + pat, recursive=True)
    return sorted(set(fs))


def tus(scalar="double"):
    t = [(os.path.join(VERIF, "drv", "drv.cpp"), ["-DSA_SCALAR=" + scalar])]
    for f in sorted(glob.glob(REPO + "/subprojects/*/src/**/*.cpp", recursive=True)):
        t.append((f, []))
    return t


def _run(tu):
    f, extra = tu
    out = tempfile.NamedTemporaryFile(suffix=".json", delete=False).name
    # -UNDEBUG is not given: analyse the Release configuration (asserts compiled out)
    cmd = [extractor(), REPO, out, f, "--", "-std=c++17", "-DNDEBUG"] + extra + include_flags() + ["-w", "-ferror-limit=0"]
    r = subprocess.run(cmd, capture_output=True, text=True, cwd="/")
    try:
        d = json.load(open(out))
    except Exception as e:
        raise FactError("extractor failed on %s: %s\n%s" % (f, e, r.stderr[-1500:]))
    finally:
        os.unlink(out)
    d["tu"] = f
    d["diag"] = [l for l in r.stderr.splitlines() if " error: " in l]
    return d


def load(scalar="double"):
    extractor()
    srcs = source_files()
    if not srcs:
        raise FactError("no sources found under " + REPO)
    h = _sha(REPO, scalar, *[f + "\0" + hashlib.sha256(open(f, "rb").read()).hexdigest() for f in srcs + sorted(glob.glob(VERIF + "/drv/*")) + [VERIF + "/tool/extract.cpp"]])
    cpath = os.path.join(cache_dir(), "facts-%s.json" % h[:20])
    if os.path.exists(cpath):
        try:
            return json.load(open(cpath))
        except Exception:
            pass
    with ThreadPoolExecutor(8) as ex:
        parts = list(ex.map(_run, tus(scalar)))
    m = {"functions": {}, "records": {}, "enums": {}, "globals": [], "errors": [], "tus": [], "uninstantiated": []}
    for p in parts:
        m["tus"].append(p["tu"])
        m["errors"] += p["diag"]
        ids = {}
        pre = os.path.basename(p["tu"]) + ":"
        for f in p["functions"]:
            if f["key"] not in m["functions"]:
                f["tu"] = pre
                m["functions"][f["key"]] = f
        for r in p["records"]:
            m["records"].setdefault(r["name"], r)
        for e in p["enums"]:
            m["enums"].setdefault(e["name"], e)
        for g in p["globals"]:
            g["tu"] = pre
            m["globals"].append(g)
        if p["tu"].endswith("drv.cpp"):
            m["uninstantiated"] = p["uninstantiated"]
    tmp = cpath + ".%d" % os.getpid()
    old = sorted(glob.glob(os.path.join(cache_dir(), "facts-*.json")), key=os.path.getmtime)
    for o in old[:-6]:
        try:
            os.unlink(o)
        except OSError:
            pass
    json.dump(m, open(tmp, "w"))
    os.replace(tmp, cpath)
    return m


if __name__ == "__main__":
    d = load()
    print(len(d["functions"]), len(d["records"]), d["errors"][:10], d["uninstantiated"])
