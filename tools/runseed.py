#!/usr/bin/env python3
"""Applies each planted bug to a scratch copy and runs its property's check against the copy."""
import json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.join(HERE, "..")
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
for i in ids:
    d = os.path.join(V, "seeded", i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    w = tempfile.mkdtemp(prefix="rs-")
    wt = os.path.join(w, "repo")
    subprocess.check_call(["cp", "-a", "/repo", wt])
    subprocess.check_call(["git", "apply", os.path.join(d, "patch.diff")], cwd=wt)
    t = time.time()
    p = subprocess.run([os.path.join(V, "check.py"), prop], env=dict(os.environ, VERIF_REPO_DIR=wt), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    lines = p.stdout.splitlines()
    v = [l for l in lines if l.startswith("VIOLATION")]
    why = [l[:230] for l in lines if l.startswith("obligation not") or l.startswith("failing input")][:3]
    print(i, prop, "exit", p.returncode, "%.0fs" % (time.time() - t), v, flush=True)
    for l in why: print("     ", l)
    shutil.rmtree(w, ignore_errors=True)
