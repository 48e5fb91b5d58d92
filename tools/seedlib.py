"""Builds and confirms seeded bugs. Usage, from a scratch script:

  from seedlib import seed
  seed(id, property, needs, breaks, [(file, old, new), ...], demo_go, race=False, env="")

The change is made in scratch copies of /repo; the result is kept only when it
compiles, passes the existing tests, and the demonstration distinguishes it.
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the property held in this demonstration; non-zero: it did not
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off GOPROXY=off GOTOOLCHAIN=local
d=$(mktemp -d "${TMPDIR:-/tmp}/spagodemo-XXXXXX") || exit 3
trap 'rm -rf "$d"' EXIT
cp "$here/demo.go.txt" "$d/main.go"
cp "$repo/go.sum" "$d/go.sum"
sed -e "s#^module .*#module demo#" "$repo/go.mod" > "$d/go.mod"
printf 'require github.com/nlpodyssey/spago v0.0.0\\nreplace github.com/nlpodyssey/spago => %s\\n' "$repo" >> "$d/go.mod"
cd "$d" || exit 3
go build @RACE@ -o "$d/demo" . || exit 4
@ENV@ timeout 120 "$d/demo"
'''
def sh(cmd, cwd, timeout=900):
    r = subprocess.run(["bash", "-c", cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode(errors="replace")
def seed(id, prop, needs, breaks, edits, demo, race=False, env=""):
    w = "/tmp/seedwork"
    if os.path.isdir(w): shutil.rmtree(w)
    shutil.copytree("/repo", w, symlinks=True)
    d = f"/tmp/seedout/{id}"
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs(d)
    open(d+"/demo.go.txt", "w").write(demo)
    open(d+"/demo.sh", "w").write(DEMO.replace("@RACE@", "-race" if race else "").replace("@ENV@", env))
    os.chmod(d+"/demo.sh", 0o755)
    rc, out = sh(f"bash {d}/demo.sh", w)
    if rc != 0:
        print(id, "REJECTED: demo fails on the unchanged tree:", out[-2000:]); return False
    for f, a, b in edits:
        p = w+"/"+f; s = open(p).read()
        if s.count(a) != 1:
            print(id, "REJECTED: edit matches", s.count(a), "times in", f, repr(a)); return False
        open(p, "w").write(s.replace(a, b))
    rc, out = sh("git diff", w); open(d+"/patch.diff", "w").write(out)
    rc, out = sh(". /opt/vp/env.sh; gofmt -l $(git diff --name-only); go build ./... && go vet ./... 2>&1 | grep -v '^#' | grep -n 'xx'; go test -vet=off -count=1 ./... 2>&1 | grep -v '^ok\\|no test files'", w)
    if out.strip():
        rc, out = sh(". /opt/vp/env.sh; go build ./... && go test -vet=off -count=1 ./... 2>&1 | grep -v '^ok\\|no test files'", w)
    if out.strip():
        print(id, "REJECTED: build or tests:", out[-1500:]); return False
    rc, out = sh(f"bash {d}/demo.sh", w)
    if rc == 0 or rc in (3, 4):
        print(id, "REJECTED: demo rc", rc, "with the change:", out[-1500:]); return False
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d+"/meta.json", "w"), indent=1)
    t = f"{V}/seeded/{id}"
    if os.path.isdir(t): shutil.rmtree(t)
    shutil.copytree(d, t)
    shutil.rmtree(w)
    print(id, "kept; demo says:", out.strip().splitlines()[-1:] )
    return True
