#!/usr/bin/env python3
"""Decides one property: verifies the contracts it needs on /repo's current source, then replays.

usage: check.py PROPERTY [quick|thorough]
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO_DIR", "/repo")
os.environ.setdefault("HOME", "/root")
os.environ.update(LANG="C.UTF-8", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="", GONOSUMDB="*",
                  GOFLAGS_SAVE="")
os.environ.setdefault("GOCACHE", os.path.join(os.environ["HOME"], ".cache/go-build"))
os.environ.setdefault("GOMODCACHE", os.path.join(os.environ["HOME"], "go/pkg/mod"))


def run(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace", **kw)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")


def build_gov(out):
    """Builds the verifier when its sources are newer than the binary."""
    src = os.path.join(HERE, "gov")
    newest = max(os.path.getmtime(os.path.join(src, f)) for f in os.listdir(src))
    if os.path.exists(out) and os.path.getmtime(out) >= newest:
        return
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".%d" % os.getpid()
    rc, o = run(["go", "build", "-mod=vendor", "-o", tmp, "."], 600, cwd=src)
    if rc != 0:
        print("cannot build the verifier:\n" + o)
        sys.exit(2)
    os.replace(tmp, out)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    conf = json.load(open(os.path.join(HERE, "checks.json")))
    c = dict(conf["default"])
    c.update(conf["checks"].get(prop, {}))
    gov = os.path.join(HERE, "bin", "gov")
    build_gov(gov)
    if prop == "setup":
        w = tempfile.mkdtemp(prefix="verif-setup-")
        rc, o = run([os.path.join(HERE, "replay", "build.sh"), REPO, os.path.join(w, "replay")], 600)
        print(o, "setup done, replay build", rc)
        shutil.rmtree(w, ignore_errors=True)
        return 0
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return decide(prop, tier, seed, t0, c, gov, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(prop, tier, seed, t0, c, gov, work):
    quick = tier == "quick"
    # --- the proof
    res = {"functions": [], "failed": [], "total": 0, "proved": 0, "lemmas": []}
    out = os.path.join(work, "gov.json")
    budget = c["budget"] if quick else c["budget_thorough"]
    cmd = [gov, "-repo", REPO, "-contracts", os.path.join(HERE, "contracts"), "-prop", prop, "-json", out,
           "-quick", "3s", "-full", "8s" if quick else "30s", "-total", "%ds" % budget]
    if not quick:
        cmd += ["-lemmas"]
    if quick and c.get("shallow"):
        cmd += ["-shallow"]
    rc, o = run(cmd, budget + 60)
    print(o[-6000:])
    if os.path.exists(out):
        res = json.load(open(out))
    broken = []      # failed obligations that concern this property
    others = []
    for f in res.get("failed") or []:
        ps = f.get("props") or []
        (others if ps and prop not in ps else broken).append(f)
    error = res.get("error") or ("" if rc in (0, 1) else "the verifier ended with code %d" % rc)
    if error:
        broken.append({"function": "(whole module)", "kind": "verification", "label": error, "status": "failed", "output": o[-3000:]})
    # --- the replay on the real code
    rep = replay(prop, seed, c, quick, bool(broken), work)
    # --- verdict
    violations = 0
    line = None
    rdir = os.path.join(HERE, "evidence", "replay")
    rpath = os.path.join(rdir, "%s.json" % prop)
    if broken or rep.get("failed"):
        os.makedirs(rdir, exist_ok=True)
        violations = 1
        doc = {"property": prop, "failed_obligations": broken[:20]}
        if rep.get("failed"):
            doc["failing_case"] = {k: rep.get(k) for k in ("seed", "case", "message", "input")}
            doc["reproduce"] = ("%s/replay/build.sh %s /tmp/replay %s && VERIF_REPO=%s VERIF_PROP=%s VERIF_SEED=%d VERIF_CASE=%d /tmp/replay"
                                % (HERE, REPO, prop, REPO, prop, rep["seed"], rep["case"]))
        else:
            doc["no_failing_input"] = "the obligation fails; %d generated cases did not show a failing input" % rep.get("cases", 0)
        json.dump(doc, open(rpath, "w"), indent=1)
        for f in broken[:10]:
            print("obligation not discharged: %s: %s: %s [%s] %s" % (f["function"], f["kind"], f["label"], f["status"], f.get("pos", "")))
        if rep.get("failed"):
            print("failing input: case %s of seed %s: %s" % (rep["case"], rep["seed"], (rep.get("message") or "")[:1500]))
        line = "VIOLATION property=%s replay=%s" % (prop, rpath)
        if not rep.get("failed"):
            line += " no-failing-input-found"
    fns = res.get("functions") or []
    cov = {
        "obligations": res.get("total", 0),
        "discharged": res.get("proved", 0),
        "checker_cmd": " ".join(cmd),
        "trusted_base": [
            "gov (/verif/gov): VC generation from go/ssa of the current source",
            "z3 5.x, z3 4.8.12, cvc5 1.1.2: an obligation counts as discharged when one of them answers unsat",
            "the Go compiler and golang.org/x/tools/go/ssa agree on the meaning of the source",
        ] + ["library contract assumed: " + l for l in (res.get("library_models") or [])]
          + ["contract assumed without proof: " + l for l in (res.get("trusted") or [])],
        "functions_under_contract": {f["function"]: {"obligations": f["obligations"], "discharged": f["proved"], "paths": f["paths"],
                                     "inlined": f.get("inlined") or [], "contracts_used": f.get("contracts_used") or []} for f in fns},
        "contracts_assumed_here_proved_by_their_own_checks": sorted(
            {k for f in fns for k in (f.get("contracts_used") or [])} - {f["function"] for f in fns} - set(res.get("trusted") or [])),
        "lemmas": res.get("lemmas") or [],
        "obligations_by_kind": res.get("by_kind") or {},
        "discharged_by_back_end": res.get("by_backend") or {},
        "solver_queries": res.get("queries", 0),
        "solver_s": round(res.get("solver_ms", 0) / 1000, 1),
        "samples": (res.get("samples") or [])[:6],
        "failed_obligations": [{k: f.get(k) for k in ("function", "kind", "label", "status")} for f in broken[:10]],
        "failed_obligations_of_other_properties": [{k: f.get(k) for k in ("function", "kind", "label", "props")} for f in others[:10]],
    }
    if res.get("axioms"):
        cov["axioms"] = res["axioms"]
    cov["replay_bounded"] = {"note": "generated inputs run through the real code and compared with an independent oracle; supplements the proof, is never counted as proof",
                             "evaluations": rep.get("cases", 0), "distinct": rep.get("distinct", 0), "samples": rep.get("samples") or [],
                             "status": rep.get("status", "")}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": c["level"], "coverage": cov,
          "assumptions": c["assumptions_common"] + c.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": violations}
    if c["level"] != "proof":
        cov["explanation"] = c.get("explanation", "")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for k in open(os.path.join(HERE, "known", "findings.txt")).read().splitlines():
        if k.startswith("finding: property=%s " % prop):
            print("KNOWN-FINDING: " + k[len("finding: "):])
    print("%s: %d of %d obligations discharged over %d functions, replay %d cases, %.1f s" %
          (prop, res.get("proved", 0), res.get("total", 0), len(fns), rep.get("cases", 0), time.time() - t0))
    if line:
        print(line)
        return 1
    if res.get("total", 0) == 0:
        print("nothing was verified")
        return 2
    return 0


def replay(prop, seed, c, quick, failing, work):
    binary = os.path.join(work, "replay")
    rc, o = run([os.path.join(HERE, "replay", "build.sh"), REPO, binary, prop], 400)
    if rc != 0:
        print("the replay harness does not build:\n" + o[-2000:])
        return {"status": "the harness does not build against this tree"}
    ms = (c["replay_failing_ms"] if failing else c["replay_ms"]) * (1 if quick else 5)
    n = 6
    procs = []
    for i in range(n):
        env = dict(os.environ, VERIF_REPO=REPO, VERIF_PROP=prop, VERIF_SEED=str(seed * 100 + i), VERIF_MS=str(ms),
                   VERIF_OUT=os.path.join(work, "r%d.json" % i), GOMEMLIMIT="2GiB", GOMAXPROCS="2")
        d = os.path.join(work, "cwd%d" % i)
        os.makedirs(d)
        procs.append(subprocess.Popen([binary], env=env, cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE))
    total = {"cases": 0, "distinct": 0, "samples": [], "status": "ran"}
    for i, p in enumerate(procs):
        try:
            _, err = p.communicate(timeout=ms / 1000 + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            _, err = p.communicate()
        f = os.path.join(work, "r%d.json" % i)
        if os.path.exists(f):
            r = json.load(open(f))
            total["cases"] += r["cases"]
            total["distinct"] += r["distinct"]
            total["samples"] += (r.get("samples") or [])[:1]
            if r["failed"] and not total.get("failed"):
                total.update(failed=True, seed=r["seed"], case=r["case"], message=r.get("message"), input=r.get("input"))
        else:
            e = err.decode(errors="replace")
            total["status"] = "a replay process ended with code %s: %s" % (p.returncode, e[-800:])
            m = re.search(r"^(fatal error|panic): .*", e, re.M)
            if m and not total.get("failed"):
                total.update(failed=True, seed=seed * 100 + i, case=-1, message="the process died: " + e[:3000], input=[])
    return total


if __name__ == "__main__":
    sys.exit(main())
