#!/usr/bin/env python3
"""Plants a bug in a scratch copy of /repo, confirms it (builds, stable tests pass, demo passes
before and fails after) and stores it as /verif/seeded/<id>/; then reports which checks see it.
usage: bug.py FILE.py [ID..]  -- FILE defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=cpp)]
       bug.py --recheck [ID..] -- only re-runs the checks of stored bugs"""
import json, os, shutil, subprocess, sys, tempfile, importlib.util
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# exit 0 when the property holds in this demonstration, nonzero when it is broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
inc=()
for i in "$PWD"/subprojects/*/include; do inc+=("-I$i"); done
g++ -std=c++17 -O1 -w FLAGS "${inc[@]}" "$d/demo.cpp" "$PWD"/subprojects/ufjfmltk-core/src/*.cpp EXTRA -o "$t/demo" -pthread || exit 2
export REPO="$PWD"
cd "$t" && timeout 250 "$t/demo"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def props():
    return [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]


def recheck(ids, only=None):
    def one(b):
        meta = json.load(open("%s/seeded/%s/meta.json" % (V, b)))
        wt = tempfile.mkdtemp(prefix="bugrc-")
        shutil.rmtree(wt)
        subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", wt, "HEAD"])
        try:
            r = sh("git apply %s/seeded/%s/patch.diff" % (V, b), cwd=wt)
            if r.returncode:
                return b, "PATCH DOES NOT APPLY " + r.stderr[:200]
            hit, odd = [], []
            for p in (only or [meta["property"]]):
                if p not in props():
                    continue
                ev = tempfile.mkdtemp()
                r = sh("SA_REPO=%s SA_EVID=%s python3 %s/check.py %s" % (wt, ev, V, p))
                shutil.rmtree(ev)
                if r.returncode == 1 and "VIOLATION property=" + p in r.stdout:
                    hit.append(p)
                elif r.returncode:
                    odd.append((p, r.returncode, r.stdout[-300:] + r.stderr[-300:]))
            return b, ("caught by %s" % hit if hit else "MISSED (%s)" % meta["property"]) + (" ODD %s" % odd if odd else "")
        finally:
            sh("git -C /repo worktree remove --force " + wt)
    with ThreadPoolExecutor(6) as ex:
        for b, m in ex.map(one, ids):
            print("%-28s %s" % (b, m), flush=True)


def make(b):
    wt = tempfile.mkdtemp(prefix="bugwt-")
    d = tempfile.mkdtemp(prefix="bugd-")
    try:
        subprocess.check_call("cp -a /repo/. %s/ && git -C %s checkout -q -- ." % (wt, wt), shell=True)
        open(d + "/demo.cpp", "w").write(b["demo"])
        open(d + "/demo.sh", "w").write(DEMO.replace("FLAGS", b.get("flags", "")).replace("EXTRA", b.get("extra", "")))
        os.chmod(d + "/demo.sh", 0o755)
        run = lambda c: sh("unshare -Urm bash -c 'mount --bind %s /repo && cd /repo && %s'" % (wt, c))
        r = run("bash %s/demo.sh" % d)
        if r.returncode:
            return b["id"], "demo fails on the unchanged tree: rc=%d %s" % (r.returncode, (r.stdout + r.stderr)[-1500:])
        for f, old, new in b["edits"]:
            s = open(wt + "/" + f, newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if s.count(old) != 1:
                return b["id"], "edit matches %d times: %r" % (s.count(old), old)
            open(wt + "/" + f, "w", newline="").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", wt, "diff"], capture_output=True).stdout  # bytes: line ends are kept
        r = run("bash %s/demo.sh" % d)
        if r.returncode == 0:
            return b["id"], "demo passes with the patch: " + (r.stdout + r.stderr)[-300:]
        if r.returncode == 2:
            return b["id"], "demo does not build with the patch: " + (r.stdout + r.stderr)[-800:]
        drc = r.returncode
        run("bash /opt/vp/test.sh /repo/_build/o.json >/repo/_build/o.log 2>&1")
        try:
            res = json.load(open(wt + "/_build/o.json"))
        except Exception:
            return b["id"], "tests did not run"
        base = json.load(open("/opt/vp/BASELINE.json"))
        stable = base.get("stable") or base.get("passed") or base.get("tests")
        miss = [t for t in stable if t not in res["passed"]]
        if miss:
            return b["id"], "stable tests fail with the patch: %s" % miss[:5]
        out = V + "/seeded/" + b["id"]
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "wb").write(diff)
        shutil.copy(d + "/demo.cpp", out)
        shutil.copy(d + "/demo.sh", out)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        return b["id"], "confirmed (demo rc=%d)" % drc
    finally:
        shutil.rmtree(wt, ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "--recheck":
        a = sys.argv[2:]
        only = None
        if "--all" in a:
            a.remove("--all")
            only = props()
        recheck(a or sorted(os.listdir(V + "/seeded")), only)
    else:
        sp = importlib.util.spec_from_file_location("b", sys.argv[1])
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        bs = [b for b in m.BUGS if len(sys.argv) < 3 or b["id"] in sys.argv[2:]]
        with ThreadPoolExecutor(2) as ex:
            good = []
            for i, msg in ex.map(make, bs):
                print("%-28s %s" % (i, msg), flush=True)
                if msg.startswith("confirmed"):
                    good.append(i)
        recheck(good)
