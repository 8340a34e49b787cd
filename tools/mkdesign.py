# Writes DESIGN.md: fixed prose + tables generated from known_findings.jsonl, seeded/*/meta.json and tools/caught.json.
import json,glob,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
body=open(V+"/tools/design_body.md").read()
fixes="\n".join("- "+json.loads(l)["line"][len("fixed: "):] for l in open(V+"/known_findings.jsonl") if json.loads(l)["status"]=="fixed")
kn="\n".join("- "+json.loads(l)["line"] for l in open(V+"/known_findings.jsonl") if json.loads(l)["status"]!="fixed") or "None: every genuine defect found was repaired."
caught=json.load(open(V+"/tools/caught.json"))
rows=[]
for m in sorted(glob.glob(V+"/seeded/*/meta.json")):
    i=os.path.basename(os.path.dirname(m)); d=json.load(open(m)); rows.append("| %s | %s | %s | %s |"%(i,d["what_it_breaks"],d["needs"],caught.get(i,"not run yet")))
open(V+"/DESIGN.md","w").write(body.replace("@FIXES@",fixes).replace("@KNOWN@",kn).replace("@SEEDED@","| id | what it breaks | needs | caught by (quick tier, seed 1) |\n|---|---|---|---|\n"+"\n".join(rows)))
