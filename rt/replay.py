"""usage: replay.py FILE   re-runs a recorded failing input on the real code of VERIF_REPO (default /repo).
exit 1: it still fails (message on stdout); exit 0: it passes."""
import json
import os
import random
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import search as S
import core as C
import gen as G
import simpy.expr as E


def fresh(d):
    c = [c for c in C.CONTRACTS if c["prop"] == d["prop"] and c["name"] == d["contract"]][0]
    ns = dict(vars(E))
    ns["raw"] = G.raw
    from fractions import Fraction
    ns["Fraction"] = Fraction
    random.seed(d["seed"])
    args = eval(d["args"], ns)
    return C.run_one(c, args, d["seed"])


def history(d):
    """the failure may need what happened before it in the same process: rerun the worker's sequence"""
    h = d["history"]
    last = "ok"
    for c, args, seed in S.sequence(h["props"], h["seed"], h["worker"], h["contract"], h["iteration"]):
        if args is None:
            continue
        last = C.run_one(c, args, seed)
    return last


if __name__ == "__main__":
    d = json.load(open(sys.argv[1]))
    if "input" in d:
        d = d["input"]
    if not isinstance(d, dict) or "args" not in d:
        print("no input to replay: the file names the failed obligation")
        sys.exit(1)
    r = "ok"
    try:
        r = fresh(d)
    except Exception as ex:
        r = "ok (arguments could not be rebuilt: %r)" % (ex,)
    if not r.startswith("FAIL") and "history" in d and "--no-history" not in sys.argv:
        r = history(d)
    print(r)
    sys.exit(1 if r.startswith("FAIL") else 0)
