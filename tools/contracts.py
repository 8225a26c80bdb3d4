"""usage: python3 tools/contracts.py > CONTRACTS.md: the functions under contract, per property, from pcv/baseline.json"""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = json.load(open(os.path.join(HERE, "pcv/baseline.json")))
print("# Functions under contract\n\nGenerated by `tools/contracts.py` from `pcv/baseline.json`: the functions of /repo/src/simpy whose contract the verifier")
print("discharges on the unchanged tree. In brackets: the cases (classes of the operand, shapes of the arguments) that are separate")
print("tasks; together they cover every case the contract quantifies over.\n")
for p in sorted(base):
    fs = {}
    for n, s in sorted(base[p].items()):
        if s != "proved":
            continue
        a, _, b = n.partition(" (")
        fs.setdefault(a, []).append(b[:-1] if b else "")
    frame = p == "C15"
    print("## %s: %d tasks, %d functions\n" % (p, sum(len(v) for v in fs.values()), len(fs)))
    if frame:
        print("Every task of the other properties is executed a second time for its frame condition (no write to anything that existed\nbefore the call); listed without their cases.\n")
    for a in sorted(fs):
        cs = sorted(c for c in fs[a] if c)
        print("* `%s`%s" % (a, " (%s)" % "; ".join(cs) if cs and not frame else ""))
    left = [n for n, s in sorted(base[p].items()) if s != "proved"]
    print("\nUndecided: %s\n" % (", ".join(left) or "none"))
