#!/usr/bin/env python3
"""mk(id, prop, needs, breaks, edits=[(file, old, new)], demo=go source): plants a bug after checking everything about it."""
import json, os, shutil, subprocess, sys
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")
DEMO_SH = '''#!/bin/bash
# Runs demo.go as a program of the repository in the current directory.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
echo '{"Replace":{"'$PWD'/verifdemo/main.go":"'$D'/demo.go"}}' > "$T/o.json"
GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go run %s-overlay "$T/o.json" ./verifdemo
'''
def sh(c, cwd, **k):
    return subprocess.run(c, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, **k)
def mk(id, prop, needs, breaks, edits, demo, race=False):
    if len(sys.argv) > 1 and id not in sys.argv[1:]: return
    w = "/tmp/seedwork"
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/repo", w, symlinks=True)
    d = "/verif/seeded/" + id
    orig = set()
    for f, old, new in edits:
        p = w + "/" + f
        s = open(p).read()
        assert s.count(old) == 1, (id, f, old, s.count(old))
        open(p, "w").write(s.replace(old, new))
    r = sh("gofmt -l . ; go build ./... && go vet ./...", w)
    if r.stdout.strip() or r.returncode: print(id, "BUILD", r.stdout, r.stderr); return
    r = sh("go test ./... 2>&1 | grep -vE '^ok|no test files'", w)
    if r.stdout.strip(): print(id, "TESTS FAIL", r.stdout[-600:]); return
    diff = sh("git diff", w).stdout
    # removed lines must be original ones
    root = sh("git rev-list --max-parents=0 HEAD", "/repo").stdout.split()[0]
    for f in set(e[0] for e in edits):
        o = sh("git show %s:%s" % (root, f), "/repo").stdout.split("\n")
        for l in sh("git diff -U0 -- " + f, w).stdout.split("\n"):
            if l.startswith("-") and not l.startswith("---") and l[1:] not in o: print(id, "NOT ORIGINAL:", l)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.go", "w").write(demo.lstrip())
    open(d + "/demo.sh", "w").write(DEMO_SH % ("-race " if race else ""))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    a = sh("timeout 250 bash %s/demo.sh" % d, "/repo")
    b = sh("timeout 250 bash %s/demo.sh" % d, w)
    ok = a.returncode == 0 and b.returncode != 0
    print(id, prop, "ok" if ok else "DEMO WRONG", a.returncode, b.returncode, (a.stderr + a.stdout)[-300:] if a.returncode else "", (b.stdout + b.stderr).strip()[-160:])
    if not ok: shutil.rmtree(d)
    shutil.rmtree(w, ignore_errors=True)
