#!/usr/bin/env python3
"""Make one planted bug: mkbug.py SPEC.py
SPEC.py defines: id, prop, edits=[(file, old, new)], needs, breaks, demo (Go test body in package processors).
The change is made and confirmed in a scratch copy of /repo; kept in /verif/seeded/<id>."""
import sys, os, subprocess, shutil, json, tempfile, runpy
env = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=mod")
DEMO = '''#!/bin/bash
# Run with the repository as working directory: exit 0 when the behaviour is right.
D="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
T="$(mktemp -d)" || exit 3
trap 'rm -rf "$T"' EXIT
printf '{"Replace": {"%s/processors/zz_demo_test.go": "%s/demo_test.go"}}' "$PWD" "$D" > "$T/overlay.json"
go test -vet=off -count=1 -timeout 120s -overlay "$T/overlay.json" -run '^TestDemo$' ./processors
'''
def sh(cmd, cwd):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True)
def main(spec):
    s = runpy.run_path(spec)
    d = "/verif/seeded/" + s["id"]
    w = tempfile.mkdtemp(prefix="bug")
    r = w + "/repo"
    shutil.copytree("/repo", r, symlinks=True)
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo_test.go", "w").write(s["demo"])
    ok = True
    def fail(m):
        nonlocal ok
        ok = False
        print(s["id"], "REJECTED:", m)
    p = sh(d + "/demo.sh", r)
    if p.returncode: fail("demo fails on the unchanged tree\n" + p.stdout[-1500:] + p.stderr[-1500:])
    for f, old, new in s["edits"]:
        t = open(r + "/" + f).read()
        if t.count(old) != 1: fail("%s: %d occurrences of %r" % (f, t.count(old), old)); break
        open(r + "/" + f, "w").write(t.replace(old, new))
    if ok:
        p = sh("go build -buildvcs=false ./...", r)
        if p.returncode: fail("build: " + p.stderr)
    if ok:
        p = sh("go test -vet=off -count=1 ./...", r)
        if p.returncode: fail("tests fail: " + p.stdout[-1500:])
    if ok:
        p = sh(d + "/demo.sh", r)
        if p.returncode == 0: fail("demo passes with the change")
        elif "[build failed]" in p.stdout: fail("demo does not build: " + p.stdout + p.stderr)
    if ok:
        open(d + "/patch.diff", "w").write(sh("git diff", r).stdout)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print(s["id"], "ok:", [l for l in p.stdout.splitlines() if "demo_test" in l or "panic" in l][:2])
    else:
        shutil.rmtree(d)
    shutil.rmtree(w)
for a in sys.argv[1:]:
    main(a)
