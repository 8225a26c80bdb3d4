"""usage: search.py --prop C01[,C02] --seed N --budget SECONDS [--iters N] [--contract NAME] [--max-fail N]
Runs the run-time form of the contracts on the real code and prints one JSON object per failure."""
import argparse
import importlib
import json
import os
import random
import resource
import sys
import time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
sys.setrecursionlimit(3000)
import core as C
import gen as G
MODULES = ["c_basic", "c_calc", "c_simplify", "c_struct", "c_integ", "c_print", "c_twins"]
for m in MODULES:
    if os.path.exists(os.path.join(HERE, m + ".py")):
        importlib.import_module(m)


def sequence(props, seed0, worker, only, n):
    """iterations 1..n of a worker: (contract, arguments or None, seed); iteration `only` of n when given"""
    cs = [c for c in C.CONTRACTS if c["prop"] in props and (not only or c["name"] == only)]
    tot = sum(c["weight"] for c in cs)
    i = 0
    while cs and (n is None or i < n):
        i += 1
        rng = random.Random("%d/%d/%d" % (seed0, worker, i))
        k = rng.random() * tot
        for c in cs:
            k -= c["weight"]
            if k <= 0:
                break
        seed = rng.randrange(1 << 30)
        random.seed(seed)
        try:
            args = C.with_timeout(10, c["gen"], rng)
        except (C.Timeout, Exception):
            args = None
        yield c, args, seed


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=20)
    ap.add_argument("--iters", type=int)
    ap.add_argument("--contract")
    ap.add_argument("--max-fail", type=int, default=1)
    ap.add_argument("--worker", type=int, default=0)
    a = ap.parse_args()
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    props = a.prop.split(",")
    t0 = time.time()
    stats = {}
    distinct = set()
    samples = []
    fails = 0
    i = 0
    for c, args, seed in sequence(props, a.seed, a.worker, a.contract, a.iters):
        i += 1
        if time.time() - t0 >= a.budget:
            break
        if args is None:
            continue
        key = c["prop"] + "/" + c["name"]
        text = G.srepr(args)
        r = C.run_one(c, args, seed)
        st = r.split()[0].lower()
        d = stats.setdefault(key, dict(ok=0, skip=0, timeout=0, fail=0))
        d[st if st in d else "fail"] += 1
        if st == "ok":
            h = hash((key, text))
            if h not in distinct:
                distinct.add(h)
                if len(samples) < 3:
                    samples.append(key + " " + text[:300])
        if st == "fail":
            fails += 1
            print(json.dumps(dict(kind="fail", prop=c["prop"], contract=c["name"], functions=c["functions"], args=text, seed=seed, msg=r[5:],
                                  history=dict(props=props, seed=a.seed, worker=a.worker, contract=a.contract, iteration=i))), flush=True)
            if fails >= a.max_fail:
                break
    print(json.dumps(dict(kind="stats", stats=stats, iterations=i, distinct=len(distinct), samples=samples, wall=time.time() - t0)), flush=True)


if __name__ == "__main__":
    main()
