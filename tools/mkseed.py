#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from tools/seeds/<id>.py and confirms each in a scratch copy of /repo.

A seed file defines: prop, pkg (directory of the demo test), edits [(file, old, new), ...], demo (Go test
source with func TestDemo), needs, breaks.
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, "..", "seeded")
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", LANG="C.UTF-8")
DEMO = '''#!/bin/bash
# exit 0 when the property holds on the demonstrated input, nonzero when it is broken
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod LANG=C.UTF-8
w="$(mktemp -d)"
trap 'rm -rf "$w"' EXIT
root="$(pwd)"
printf '{"Replace": {"%%s/%s/zz_demo_test.go": "%%s/demo_test.go.txt"}}' "$root" "$here" > "$w/overlay.json"
timeout 200 go test -vet=off -count=1 -overlay "$w/overlay.json" -run '^TestDemo$' ./%s
'''

def sh(cmd, cwd, t=300):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, timeout=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode, p.stdout

def make(i):
    ns = {}
    exec(open(os.path.join(HERE, "seeds", i + ".py")).read(), ns)
    w = tempfile.mkdtemp(prefix="seed-")
    try:
        wt = os.path.join(w, "repo")
        subprocess.check_call(["cp", "-a", "/repo", wt])
        for f, old, new in ns["edits"]:
            p = os.path.join(wt, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(i, "BAD: the text occurs", s.count(old), "times in", f)
                return False
            open(p, "w").write(s.replace(old, new))
        rc, diff = sh(["git", "diff"], wt)
        d = os.path.join(OUT, i)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo_test.go.txt"), "w").write(ns["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % (ns["pkg"], ns["pkg"]))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        rc, o = sh(["go", "build", "./..."], wt)
        if rc: print(i, "BAD: build", o[-800:]); return False
        rc, o = sh(["go", "test", "./..."], wt)
        if rc: print(i, "BAD: tests fail", o[-1500:]); return False
        rc, o = sh(["bash", os.path.join(d, "demo.sh")], wt)
        if rc == 0: print(i, "BAD: the demo passes with the change"); return False
        if "build failed" in o or "setup failed" in o: print(i, "BAD: demo does not build", o[-1500:]); return False
        msg = [l for l in o.splitlines() if "zz_demo" in l or "panic" in l][:2]
        rc, o = sh(["git", "checkout", "--", "."], wt)
        rc, o = sh(["bash", os.path.join(d, "demo.sh")], wt)
        if rc: print(i, "BAD: the demo fails on the unchanged tree", o[-1500:]); return False
        print(i, "ok", msg)
        return True
    finally:
        shutil.rmtree(w, ignore_errors=True)

ids = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(os.path.join(HERE, "seeds")) if f.endswith(".py"))
bad = [i for i in ids if not make(i)]
print("bad:", bad)
