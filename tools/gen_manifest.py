"""Writes /verif/MANIFEST.json from the registry and properties.jsonl."""
import json, os, sys
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,HERE)
from dst.registry import PROPS
props=[json.loads(l) for l in open(os.path.join(HERE,"properties.jsonl"))]
PURE="pure function of its input: no schedule, clock, I/O, fault, crash or multi-party behaviour for a simulator to decide; input generation alone would not be this technique"
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in PROPS:
        s=PROPS[i]
        checks.append(dict(property=i,quick_cmd=f"./check.py {i}",thorough_cmd=f"VERIF_TIER=thorough ./check.py {i}",
          technique=s.get("technique","deterministic simulation with fault injection: seeded search over operation, schedule and fault sequences"),
          level=s.get("level","exploration"),
          level_note=s.get("note","Sampled, not exhaustive: evidence for the explored seeds. "+" ".join(s.get("assumptions",[])))))
    else:
        na.append(dict(property=i,reason=PURE if i.startswith("N") else "check not built yet"))
doc=dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=na,
  notes="No hooks in /repo: every seam used (module globals, the tracer callback, injected streams, the standard library's thread, time, socket and URL primitives) already exists. fix: commits are listed in known_findings.jsonl.")
json.dump(doc,open(os.path.join(HERE,"MANIFEST.json"),"w"),indent=1)
print(len(checks),"checks",len(na),"n/a")
