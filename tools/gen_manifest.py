#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks present under harness/cmd."""
import json, os
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(root+"/properties.jsonl")]
notes=json.load(open(root+"/tools/level_notes.json"))
checks=[];na=[]
for p in props:
    i=p["id"]
    if os.path.exists(f"{root}/harness/cmd/{i.lower()}/main.go"):
        n=notes.get(i,{})
        checks.append(dict(property=i,quick_cmd=f"./check {i} quick",thorough_cmd=f"./check {i} thorough",
          evidence_file=f"evidence/{i}.json",
          technique=n.get("technique","bounded exhaustive state-space exploration of the real code (stateless model checking)"),
          level=n.get("level","model_checking"),
          level_note=n.get("note","Exhaustive within the stated bounds; see DESIGN.md.")))
    else:
        na.append(dict(property=i,reason=notes.get(i,{}).get("na","No check built for it yet.")))
m=dict(version=1,setup_cmd="./setup.sh",hooks=dict(guard="verif",enable="no hooks are needed: every check drives exported APIs (build tag verif is reserved)",source_commits=[]),
  checks=checks,not_applicable=na,notes="Every check is built from /repo's working tree by ./check; ./check <ID> [quick|thorough] [--replay FILE].")
json.dump(m,open(root+"/MANIFEST.json","w"),indent=1); open(root+"/MANIFEST.json","a").write("\n")
print(len(checks),"checks",len(na),"n/a")
