"""usage: baseline.py [C02 ...]: records which functions are proved on the unchanged tree (pcv/baseline.json)"""
import json
import subprocess
import sys
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "pcv"))
p = os.path.join(HERE, "pcv", "baseline.json")
base = json.load(open(p)) if os.path.exists(p) else {}
import tasks
for prop in sys.argv[1:] or sorted(tasks.TASKS):
    r = subprocess.run(["python3-vt", os.path.join(HERE, "pcv/run.py"), "--prop", prop, "--limit", "600"], capture_output=True, text=True, env=dict(os.environ, PYTHONHASHSEED="0"))
    d = json.loads(r.stdout[r.stdout.index("{"):])
    base[prop] = {f["function"]: f["status"] for f in d["functions"]}
    print(prop, d["discharged"], "/", d["obligations"], "wall", d["wall"], [(f["function"], f["status"], f["reason"][:150]) for f in d["functions"] if f["status"] != "proved"])
json.dump(base, open(p, "w"), indent=1, sort_keys=True)
