"""usage: run.py --prop C04 [--limit seconds]: discharges the obligations of every contract of the property; prints JSON"""
import argparse
import json
import multiprocessing
import os
import sys
import time

sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def work(args):
    prop, name = args
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    import tasks
    for t in tasks.TASKS[prop]:
        if t.name == name:
            return tasks.run_task(t)


AXIOMS = ["laws of the real functions pow, ln, sin, cos, asin, acos, atan, abs and their derivatives, instantiated by pcv/prove.py (checked numerically by pcv/selftest.py)",
          "well-formedness of expression trees: no sum directly inside a sum, no product directly inside a product, at least two terms (established by the constructors)",
          "partial correctness: termination is not proved",
          "machine floats treated as real numbers",
          "Python builtins and the standard library (list, dict, fractions, math, itertools, functools) as modelled in pcv/lib.py",
          "z3 and the interpreter pcv/interp.py (cross-checked against native execution by pcv/selftest.py)"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--limit", type=float, default=300)
    ap.add_argument("--only")
    a = ap.parse_args()
    t0 = time.time()
    import tasks
    ts = [t for t in tasks.TASKS.get(a.prop, []) if not a.only or a.only in t.name]
    pool = multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1, max(1, len(ts))), maxtasksperchild=1)
    pend = [(t, pool.apply_async(work, ((a.prop, t.name),))) for t in sorted(ts, key=lambda t: -t.weight)]
    reps = []
    for t, r in pend:
        try:
            reps.append(r.get(timeout=max(0.1, a.limit - (time.time() - t0))))
        except multiprocessing.TimeoutError:
            reps.append(dict(function=t.name, prop=a.prop, status="undecided", reason="time limit", obligations=0, discharged=0, refuted=[], paths=0,
                             queries=0, solver_s=0, time=0, used=[], assumed=[], inlined=[], bounded=t.bounded))
        except Exception as ex:
            reps.append(dict(function=t.name, prop=a.prop, status="undecided", reason="engine: %s %s" % (type(ex).__name__, ex), obligations=0, discharged=0,
                             refuted=[], paths=0, queries=0, solver_s=0, time=0, used=[], assumed=[], inlined=[], bounded=t.bounded))
    pool.terminate()
    order = {t.name: i for i, t in enumerate(ts)}
    reps.sort(key=lambda r: order[r["function"]])
    try:
        base = json.load(open(os.path.join(HERE, "baseline.json")))
    except OSError:
        base = {}
    proved = {f for p in base.values() for f, s in p.items() if s == "proved"} | {r["function"] for r in reps if r["status"] == "proved"}
    used = sorted({u for r in reps for u in r["used"]})
    trusted = [u for u in used if u not in tasks.HAVOC and not (set(tasks.DISCHARGES.get(u, [u])) <= proved and tasks.DISCHARGES.get(u, [u]))]
    inlined = sorted({u for r in reps for u in r["inlined"]})
    print(json.dumps(dict(
        functions=[dict(function=r["function"], status=r["status"], reason=r["reason"], refuted=r["refuted"], obligations=r["obligations"],
                        discharged=r["discharged"], paths=r["paths"], time=r["time"]) for r in reps],
        obligations=sum(r["obligations"] for r in reps), discharged=sum(r["discharged"] for r in reps),
        trusted=["contract assumed, not discharged here: " + u for u in trusted], contracts_used=used, executed=inlined,
        assumptions=sorted({u for r in reps for u in r["assumed"]}) + AXIOMS,
        paths=sum(r["paths"] for r in reps), solver="z3 " + __import__("z3").get_version_string(),
        solver_s=round(sum(r["solver_s"] for r in reps), 2), queries=sum(r["queries"] for r in reps), wall=round(time.time() - t0, 1))))


if __name__ == "__main__":
    main()
