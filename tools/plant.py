#!/usr/bin/env python3
"""Confirms planted bugs in scratch copies of /repo and measures which the checks catch.

  plant.py SPEC.py...   each spec file calls bug(id, prop, [(file, old, new)...], needs, breaks, demo[, cflags])
  plant.py --again [ID...]   runs the property's check again against the kept /verif/seeded/<id>

A bug is kept in /verif/seeded/<id> only if: it changes lines of the original repository, builds, the stable tests pass,
and the demo passes without and fails with it. Every worker mounts its scratch copy over /repo in a mount namespace of its own."""
import sys, os, subprocess, json, shutil, tempfile, concurrent.futures, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).split()[0]
BUGS = []
PRELUDE = '#include "core/Core.h"\n#include <cstdio>\n#include <cstdlib>\n#include <cstring>\n#include <cmath>\n#include <string>\n#include <vector>\n#include <iostream>\n#include <functional>\nusing namespace jm;\n#define CHECK(x) do { if(!(x)) { fprintf(stderr, "failed: %s (line %d)\\n", #x, __LINE__); _exit(1); } } while(0)\n#include <unistd.h>\n'
DEMO = '''#!/bin/bash
# exit 0: the property holds in this demonstration; run in /repo after the build
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -r -f "$tmp"' EXIT
clang++-18 -std=c++20 -g -O1 -w @FLAGS@ -Iinclude "$here/demo.cpp" @LIB@ -lz -pthread -ldl -o "$tmp/demo" || exit 3
cd "$tmp" || exit 3
@RUN@
'''
def bug(id, prop, edits, needs, breaks, demo, cflags="", lib="bin/libcore.a", run='timeout -k 5 120 ./demo'):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, cflags=cflags, lib=lib, run=run))
def sh(cmd, cwd=None, timeout=900):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"
def inrepo(scratch, script, timeout=900):
    return sh("exec unshare -m bash -c 'mount --bind %s /repo && cd /repo && %s'" % (scratch, script), timeout=timeout)
def scratch_copy():
    d = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    sh("cp -a /repo %s/repo" % d)
    sh("git checkout -q -- .", cwd=d + "/repo")
    return d
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def origlines(repo, edits_files):
    """every removed or changed line must stem from the base commit"""
    rc, out = sh("git diff -U0", cwd=repo)
    f = None; bad = []
    import re
    for l in out.splitlines():
        if l.startswith("--- "): f = l[6:]
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
        if m:
            a = int(m[1]); n = int(m[2]) if m[2] is not None else 1
            if n == 0: continue
            rc, b = sh("git blame -s -L %d,+%d HEAD -- %s" % (a, n, f), cwd=repo)
            for x in b.splitlines():
                if not x.lstrip("^").startswith(BASE[:7]): bad.append(x)
    return bad
def confirm(b):
    t0 = time.time(); d = scratch_copy(); repo = d + "/repo"; R = dict(id=b["id"], prop=b["prop"])
    try:
        demo = d + "/demo"; os.makedirs(demo)
        open(demo + "/demo.cpp", "w").write(PRELUDE + b["demo"])
        open(demo + "/demo.sh", "w").write(DEMO.replace("@FLAGS@", b["cflags"]).replace("@LIB@", b["lib"]).replace("@RUN@", b["run"]))
        rc, o = inrepo(repo, "bash /opt/vp/build.sh")
        if rc: return dict(R, bad="clean build: " + o[-500:])
        rc, o = inrepo(repo, "bash %s/demo.sh" % demo)
        if rc: return dict(R, bad="demo fails on clean tree (%d): %s" % (rc, o[-600:]))
        for f, old, new in b["edits"]:
            p = repo + "/" + f; s = open(p, encoding="utf-8").read()
            if s.count(old) != 1: return dict(R, bad="edit matches %d times in %s: %s" % (s.count(old), f, old[:60]))
            open(p, "w", encoding="utf-8").write(s.replace(old, new))
        bad = origlines(repo, None)
        if bad: return dict(R, bad="not original lines: " + "; ".join(bad[:3]))
        rc, o = inrepo(repo, "bash /opt/vp/build.sh")
        if rc: return dict(R, bad="patched build: " + "\n".join(x for x in o.splitlines() if "error" in x)[:500])
        rc, o = inrepo(repo, "bash %s/demo.sh" % demo)
        if rc in (0, 3): return dict(R, bad="demo does not fail with the patch (%d)" % rc, out=o[-300:])
        demo_says = o.strip()[-200:]
        inrepo(repo, "bash /opt/vp/test.sh %s/out.json" % d)
        try: passed = set(json.load(open(d + "/out.json"))["passed"])
        except Exception as e: return dict(R, bad="tests: %s" % e)
        miss = STABLE - passed
        if miss: return dict(R, bad="breaks %d tests: %s" % (len(miss), sorted(miss)[:3]))
        k = VERIF + "/seeded/" + b["id"]
        if os.path.isdir(k): shutil.rmtree(k)
        os.makedirs(k)
        rc, diff = sh("git diff -- src include", cwd=repo)
        open(k + "/patch.diff", "w").write(diff)
        for f in ("demo.sh", "demo.cpp"): shutil.copy(demo + "/" + f, k)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(k + "/meta.json", "w"), indent=1)
        return check(R, repo, d, demo_says)
    finally:
        sh("rm -r -f " + d)
def check(R, repo, d, demo_says=""):
    t1 = time.time()
    v = d + "/verif"
    os.makedirs(v)
    sh("cp -a check.py harness tools known_findings.txt properties.jsonl MANIFEST.json %s/" % v, cwd=VERIF)
    rc, o = sh("env VERIF_REPO=%s VERIF_SEED=1 python3 check.py %s --tier quick" % (repo, R["prop"]), cwd=v)
    return dict(R, caught=rc == 1 and ("VIOLATION property=%s " % R["prop"]) in o, rc=rc, says=o.strip()[-400:], wall=round(time.time() - t1, 1), demo=demo_says)
def again(id):
    m = json.load(open(VERIF + "/seeded/%s/meta.json" % id)); d = scratch_copy(); repo = d + "/repo"
    try:
        rc, o = sh("git apply %s/seeded/%s/patch.diff" % (VERIF, id), cwd=repo)
        R = dict(id=id, prop=m["property"])
        if rc: return dict(R, bad="patch does not apply: " + o[:200])
        return check(R, repo, d)
    finally:
        sh("rm -r -f " + d)
def note(r):
    """results for DESIGN.md; a change missed at first is remembered as such"""
    if "bad" in r: return
    p = VERIF + "/tools/planted_results.json"
    x = json.load(open(p)) if os.path.exists(p) else {}
    old = x.get(r["id"], "")
    x[r["id"]] = ("caught" + (", after strengthening the driver" if "missed" in old or "after" in old else "")) if r["caught"] else "missed"
    json.dump(dict(sorted(x.items())), open(p, "w"), indent=0)
def show(r):
    if "bad" in r: print("BAD    %-28s %s: %s %s" % (r["id"], r["prop"], r["bad"], r.get("out", "")))
    else: print("%s %-28s %s rc=%d %ss  demo: %s  check: %s" % ("CAUGHT" if r["caught"] else "MISSED", r["id"], r["prop"], r["rc"], r["wall"], r["demo"].replace("\n", " | ")[:100], r["says"].replace("\n", " | ")[-200:]))
    sys.stdout.flush()
if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "--again":
        ids = a[1:] or sorted(os.listdir(VERIF + "/seeded"))
        jobs = [(again, i) for i in ids]
    else:
        for s in a: exec(compile(open(s).read(), s, "exec"))
        jobs = [(confirm, b) for b in BUGS]
    res = []
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as ex:
        for f in concurrent.futures.as_completed([ex.submit(fn, x) for fn, x in jobs]):
            r = f.result(); res.append(r); show(r); note(r)
    print("%d kept, %d caught, %d bad" % (sum("bad" not in r for r in res), sum(bool(r.get("caught")) for r in res), sum("bad" in r for r in res)))
