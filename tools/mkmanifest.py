import json, os, jsonschema
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys; sys.path.insert(0,V)
import run
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
NOTE=json.load(open(V+"/tools/notes.json"))
checks=[]; na=[]
for p in props:
    i=p["id"]
    if i in run.CHECKS and os.path.exists(V+"/checks/%s.cpp"%run.CHECKS[i].get("main",[i])[0]):
        checks.append(dict(property=i,quick_cmd="python3 run.py "+i,thorough_cmd="VERIF_TIER=thorough python3 run.py "+i,evidence_file="evidence/%s.json"%i,
          technique="deterministic simulation with fault injection: "+NOTE.get(i,{}).get("technique","seeded search over histories and fault sequences"),level="exploration",level_note=NOTE.get(i,{}).get("note","Seeded search against an independent reference model; no exhaustiveness claimed.")))
    else: na.append(dict(property=i,reason="check not built yet"))
m=dict(version=1,setup_cmd="python3 -c 'import sys; print(sys.version)' && g++ --version",
  hooks=dict(guard="none",enable="no hooks were needed in /repo: every seam is an existing template parameter, stream buffer, replaced operator new, linker-wrapped system call, compiler instrumentation flag or the existing macro BOOST_RANDOM_MERSENNE_TWISTER_DISCARD_THRESHOLD",source_commits=[]),
  checks=checks,not_applicable=na,notes="Every check rebuilds its simulation from /repo's working tree into /verif/build (ignored by git); see DESIGN.md.")
jsonschema.validate(m,json.load(open("/root/.vp/MANIFEST.schema.json")))
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1); print(len(checks),"checks",len(na),"na")
