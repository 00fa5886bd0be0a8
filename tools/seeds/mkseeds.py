#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the definitions in seeds_*.py next to it and
confirms each planted bug in a scratch copy of /repo: it applies, builds, passes
the repository's tests, and its demonstration passes without and fails with it.
usage: mkseeds.py [--check] [ID...]   (--check also runs the property's check on it)
"""
import glob, json, os, runpy, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = "/verif/seeded"
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod",
           PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"])

DEMO = '''#!/bin/bash
# Runs demo_test.go as an extra test of the package in %(pkg)s (cwd: the repository).
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
r=$(pwd)
printf '{"Replace":{"%%s/zz_demo_test.go":"%%s/demo_test.go"}}' "$r%(sub)s" "$d" > "$t/o.json"
go test -vet=off%(race)s -count=1 -overlay "$t/o.json" -run '^TestDemo$' -timeout 200s %(pkg)s > "$t/log" 2>&1
rc=$?
grep -v '^time=' "$t/log" | tail -n 40
exit $rc
'''

def load():
    seeds = {}
    for f in sorted(glob.glob(HERE + "/seeds_*.py")):
        for s in runpy.run_path(f)["SEEDS"]:
            assert s["id"] not in seeds, s["id"]
            seeds[s["id"]] = s
    return seeds

def run(cmd, cwd=None, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **kw)

def make(s):
    tmp = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        repo = tmp + "/repo"
        shutil.copytree("/repo", repo, symlinks=True)
        for f, old, new in s["edits"]:
            p = repo + "/" + f
            t = open(p).read()
            n = t.count(old)
            if n != 1:
                return "edit of %s: %d occurrences of %r" % (f, n, old)
            open(p, "w").write(t.replace(old, new))
        for f in {e[0] for e in s["edits"]}:
            r = run(["gofmt", "-l", f], repo)
            if f != "options.go" and r.stdout.strip() and not run(["gofmt", "-l", f], "/repo").stdout.strip():
                print("  note: not gofmt'd:", f)
        diff = run(["git", "diff"], repo).stdout
        # removed lines must be the original repository's
        d = OUT + "/" + s["id"]
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        pkg = s.get("pkg", ".")
        open(d + "/demo.sh", "w").write(DEMO % {"pkg": pkg, "sub": pkg[1:], "race": " -race" if s.get("race") else ""})
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo_test.go", "w").write(s["demo"])
        r = run(["gofmt", "-l", d + "/demo_test.go"])
        if r.returncode: return "demo: " + r.stderr
        r = run(["go", "build", "./..."], repo)
        if r.returncode: return "build: " + r.stderr
        r = run(["go", "test", "-vet=off", "-count=1", "./..."], repo)
        if r.returncode: return "tests: " + r.stdout[-1500:]
        r = run(["bash", d + "/demo.sh"], repo)
        if r.returncode == 0: return "demo passes with the change"
        tail = "\n".join([l for l in r.stdout.splitlines() if "demo_test" in l or "panic" in l or "RACE" in l][:3])
        if "build failed" in r.stdout or "setup failed" in r.stdout: return "demo does not build: " + r.stdout[-1500:]
        for _ in range(s.get("repeat", 2)):
            r = run(["bash", d + "/demo.sh"], "/repo")
            if r.returncode: return "demo fails on the unchanged tree: " + r.stdout[-2500:]
            r = run(["bash", d + "/demo.sh"], repo)
            if r.returncode == 0: return "demo is flaky: passes with the change"
        print("  demo:", tail)
        # lines removed must blame to the base commit
        base = "f742bc5"
        for f in {e[0] for e in s["edits"]}:
            bl = run(["git", "blame", "-s", f], "/repo").stdout.splitlines()
            cur = 0
            for l in run(["git", "diff", "-U0", "--", f], repo).stdout.splitlines():
                if l.startswith("@@"):
                    h = l.split()[1][1:].split(",")
                    a, n = int(h[0]), int(h[1]) if len(h) > 1 else 1
                    for i in range(a, a + n):
                        if base not in bl[i - 1].split()[0]:
                            print("  WARNING: touches own line", f, bl[i - 1])
        return None
    finally:
        shutil.rmtree(tmp)

def check(s):
    d = OUT + "/" + s["id"]
    subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
    try:
        r = run(["bash", "/verif/check.sh", s["property"], "quick"], "/verif")
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        return r.returncode, (v[:1] or [r.stdout[-300:] + r.stderr[-300:]])[0]
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)

def main():
    args = sys.argv[1:]
    chk = "--check" in args; nomake = "--nomake" in args
    ids = [a for a in args if not a.startswith("--")]
    bad = 0
    for i, s in load().items():
        if ids and i not in ids: continue
        print(i, s["property"], flush=True)
        if not nomake:
            e = make(s)
            if e:
                bad += 1
                print("  FAILED:", e, flush=True); continue
        if chk:
            rc, v = check(s)
            print("  check rc=%d %s" % (rc, v), flush=True)
            bad += rc != 1
    sys.exit(bad != 0)

main()
