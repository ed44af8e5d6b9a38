#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the harnesses that exist."""
import json, os, re, glob
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(root+"/properties.jsonl")]
have={}
for f in sorted(glob.glob(root+"/harness/*.go")):
    for m in re.finditer(r"^func (C\d\d)_(\w+)\(\)",open(f).read(),re.M):
        have.setdefault(m.group(1),[]).append(m.group(2))
TECH="symbolic execution of the Go SSA of the current source, branch conditions and assertions decided by z3, counterexamples replayed natively"
NOTE=("All inputs within the bounds of the cases {cases} (see the evidence file for the sizes and whether each case was exhausted). "
      "Trusts the SSA builder, the executor's model of Go (spot-checked by replaying sampled paths natively) and z3; "
      "a violation is reported only after it was reproduced against the real code.")
SCHED=" Interleavings are explored at lock, unlock and goroutine boundaries with a happens-before race check on every access."
NA={}
checks=[]; na=[]
for p in props:
    i=p["id"]
    if i in have and i not in NA:
        checks.append({"property":i,"quick_cmd":"./check.sh "+i,"thorough_cmd":"VERIF_TIER=thorough ./check.sh "+i,
          "evidence_file":"evidence/%s.json"%i,"technique":TECH,"level":"model_checking",
          "level_note":NOTE.format(cases=", ".join(have[i]))+(SCHED if i=="C24" else "")})
    else:
        na.append({"property":i,"reason":NA.get(i,"The check for this property is not built yet.")})
json.dump({"version":1,"setup_cmd":"./check.sh setup","checks":checks,"not_applicable":na},open(root+"/MANIFEST.json","w"),indent=1)
print(len(checks),"claimed",len(na),"not")
