import json, os
V="/verif"
D={}
find=json.load(open(V+"/known_findings.json"))["findings"]
fixed=[e for e in find if e["status"]=="fixed"]
openf=[e for e in find if e["status"]=="open"]
seeds=[]
for n in sorted(os.listdir(V+"/seeded")):
    m=json.load(open(f"{V}/seeded/{n}/meta.json")); seeds.append((n,m["property"],m["what_it_breaks"]))

txt=open(V+"/tools/design.md.in").read()
rows="\n".join(f"| `{e['commit']}` | {e['property']} | {e['what']} |" for e in fixed)
sr="\n".join(f"| {n} | {p} | {w} |" for n,p,w in seeds)
txt=txt.replace("@@FIXES@@",rows).replace("@@SEEDS@@",sr).replace("@@NFIX@@",str(len(fixed))).replace("@@NSEED@@",str(len(seeds)))
open(V+"/DESIGN.md","w").write(txt)
