#!/usr/bin/env python3
"""usage: check.py --prop C04     (VERIF_SEED, VERIF_TIER from the environment)

1. the verifier (pcv/): every contract of the property is proved against the current source of /repo;
2. the run-time form of the same contracts (rt/) looks for a concrete failing input: it is the witness search for a
   refuted obligation and the bounded stand-in for functions the verifier cannot reach.
exit 0: held; exit 1 with a VIOLATION line otherwise; any other exit: the check itself failed."""
import argparse
import glob
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
PY = "/opt/venv/bin/python"
VT = "python3-vt"
NCPU = min(8, os.cpu_count() or 1)
CFG = json.load(open(os.path.join(HERE, "checks.json")))
ENV = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=REPO)


def search(prop, budget, iters, contract=None, seed=None, workers=NCPU):
    """run the search workers; returns (failures, stats)"""
    procs = []
    for w in range(workers):
        cmd = [PY, os.path.join(HERE, "rt/search.py"), "--prop", prop, "--seed", str(SEED if seed is None else seed),
               "--budget", str(budget), "--worker", str(w)]
        if iters:
            cmd += ["--iters", str(iters)]
        if contract:
            cmd += ["--contract", contract]
        procs.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, text=True))
    fails, stats, errors = [], [], []
    end = time.time() + budget + 60
    for p in procs:
        try:
            out, err = p.communicate(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
        ok = False
        for line in out.splitlines():
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get("kind") == "fail":
                fails.append(d)
            elif d.get("kind") == "stats":
                stats.append(d)
                ok = True
        if not ok:
            errors.append((p.returncode, err[-600:]))
    return fails, stats, errors


def replay(d, path):
    """write the replay file; True if the recorded input fails again in a fresh process"""
    with open(path, "w") as f:
        json.dump(d, f, indent=1)
    try:
        r = subprocess.run([PY, os.path.join(HERE, "rt/replay.py"), path], capture_output=True, text=True, env=ENV, timeout=200)
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 1 and r.stdout.startswith("FAIL")


def confirm(prop, fails, outdir):
    fails = sorted(fails, key=lambda d: len(d["args"]))
    for k, d in enumerate(fails[:6]):
        path = os.path.join(outdir, "%s-%d.json" % (prop, k))
        if replay(d, path):
            return d, path
    return None


def known_findings(prop):
    """re-check every listed finding on the real code; the listed ones are reported, never suppressed silently"""
    out = []
    path = os.path.join(HERE, "known_findings.jsonl")
    for line in open(path):
        k = json.loads(line)
        if k["property"] == prop and k["status"] == "known":
            r = subprocess.run([PY, "-c", k["check"]], capture_output=True, text=True,
                               env=dict(ENV, PYTHONPATH=os.path.join(REPO, "src")), timeout=120)
            if r.stdout.strip() == "FAILS":
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
                out.append(k["id"] + ": " + k["what"])
    return out


def verify(prop, limit=None):
    """run the deductive verifier; returns its report"""
    cfg = CFG[prop].get("verify")
    if not cfg:
        return None
    limit = limit or (cfg.get(TIER, cfg["quick"]) if isinstance(cfg, dict) else 300)
    r = subprocess.run([VT, os.path.join(HERE, "pcv/run.py"), "--prop", prop, "--limit", str(limit)],
                       capture_output=True, text=True, env=dict(ENV, PYTHONHASHSEED="0"))
    try:
        return json.loads(r.stdout[r.stdout.index("{"):])
    except ValueError:
        return dict(error=(r.stdout[-500:] + r.stderr[-3000:]))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    prop = ap.parse_args().prop
    t0 = time.time()
    cfg = CFG[prop]
    outdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(outdir, exist_ok=True)
    for f in glob.glob(os.path.join(outdir, prop + "-*.json")):
        os.unlink(f)
    known = known_findings(prop)
    b = cfg["search"]
    budget, iters = b[TIER if TIER in b else "quick"]
    fails, stats, errors = search(prop, budget, iters)
    violation, code = None, 0
    c = confirm(prop, fails, outdir)
    # the verifier decides; with a concrete failing input in hand it only names the obligation that fails
    rep = verify(prop, 60 if c else None)
    broken = []         # obligations that are discharged on the reference tree and are definitely refuted now
    if rep and "error" not in rep:
        ref = json.load(open(os.path.join(HERE, "pcv", "baseline.json"))).get(prop, {})
        for f in rep["functions"]:
            if f["status"] == "refuted" and ref.get(f["function"]) == "proved":
                broken.append(f)
    if broken and not c:
        # look longer for an input that shows it
        f2, s2, e2 = search(prop, budget * 3, iters * 3, seed=SEED + 1000)
        stats += s2
        errors += e2
        c = confirm(prop, f2, outdir)
    if c:
        d, path = c
        names = sorted(f["function"] for f in broken)
        print("%s/%s fails on a concrete input: %s" % (prop, d["contract"], d["msg"][:1500]))
        d["failed_obligations"] = [dict(function=f["function"], obligations=f["refuted"]) for f in broken]
        with open(path, "w") as f:
            json.dump(d, f, indent=1)
        violation = "VIOLATION property=%s replay=%s" % (prop, path)
    elif broken:
        path = os.path.join(outdir, prop + "-obligation.json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, obligations=broken), f, indent=1)
        for f in broken:
            print("obligation refuted: %s: %s" % (f["function"], json.dumps(f["refuted"])[:1500]))
        violation = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path)
    evals = sum(v["ok"] + v["fail"] for s in stats for v in s["stats"].values())
    if not violation and (not stats or evals == 0):
        print("no contract was evaluated: %s" % (errors[:2],))
        code = 3
    cov = dict(evaluations=evals, distinct_nontrivial=sum(s["distinct"] for s in stats),
               rule="arguments drawn by the contract's generator (expressions of random shape; numbers, sample points); counted when the run-time contract "
                    "was decided on the real code (undefined points and skipped preconditions are not counted), distinct by the arguments' structure",
               samples=[x for s in stats for x in s["samples"]][:6],
               bounded_runtime_contracts={k: sum(s["stats"].get(k, {}).get("ok", 0) for s in stats) for s0 in stats for k in s0["stats"]})
    assumptions = ["IEEE rounding: values are compared numerically to 1e-7 and confirmed with 60 digits"] if True else []
    level = cfg["level"]
    if rep:
        if "error" in rep:
            cov.update(verifier_error=rep["error"][-800:], obligations=0, discharged=0)
        else:
            cov.update(obligations=rep["obligations"], discharged=rep["discharged"],
                       checker_cmd="python3-vt pcv/run.py --prop %s" % prop,
                       trusted_base=rep["trusted"],
                       functions_proved=[f["function"] for f in rep["functions"] if f["status"] == "proved"],
                       functions_bounded_only=[dict(function=f["function"], reason=f["reason"]) for f in rep["functions"] if f["status"] != "proved"],
                       paths=rep["paths"], solver=rep["solver"], solver_s=rep["solver_s"], replayed_models=rep.get("replayed", 0))
            assumptions += rep["assumptions"]
    ev = dict(property=prop, tier=TIER, seed=SEED, level=level, coverage=cov, assumptions=assumptions,
              wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    if known:
        ev["coverage"]["known_findings"] = known
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if violation:
        print(violation)
        sys.exit(1)
    print("%s: held; %d run-time evaluations%s" % (prop, evals, (", %d/%d obligations discharged" % (rep["discharged"], rep["obligations"])) if rep and "error" not in rep else ""))
    if rep and "error" in rep:
        print("verifier error: " + rep["error"][-500:])
    sys.exit(code)


if __name__ == "__main__":
    main()
