#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py (single source)."""
import json,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,os.path.join(V,"tools"))
from props import P,NOT_APPLICABLE
with open(os.path.join(V,"properties.jsonl"),"w") as f:
    for p in P:
        o=dict(id=p["id"],title=p["title"],statement=p["statement"],
               quantifier=dict(over=p["over"],text=p["quant"]),why_tests_cant=p["why"],
               anchors=dict(files=p["files"],mechanism=[dict(name=a,where=b) for a,b in p["mech"]],observe_at=p["observe"],hook_needed=None))
        assert len(o["title"])<=80,(o["id"],len(o["title"]))
        f.write(json.dumps(o)+"\n")
    for n in NOT_APPLICABLE: f.write(json.dumps(n["prop"])+"\n")
checks=[]
for p in P:
    checks.append(dict(property=p["id"],quick_cmd="python3 tools/check.py %s quick"%p["id"],thorough_cmd="python3 tools/check.py %s thorough"%p["id"],
        evidence_file="evidence/%s.json"%p["id"],technique=p["technique"],level="model_checking",level_note=p["note"]))
m=dict(version=1,setup_cmd="python3 tools/setup.py",checks=checks,not_applicable=[dict(property=n["prop"]["id"],reason=n["reason"]) for n in NOT_APPLICABLE],
  notes="No hooks are needed in /repo: every explorer links the sources of /repo's working tree, with the shims of /verif/shims standing in for dependencies that are not installed.")
json.dump(m,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1); open(os.path.join(V,"MANIFEST.json"),"a").write("\n")
