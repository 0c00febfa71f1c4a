#!/bin/bash
# Development helper: runs the checks against planted bugs (all, or the ids given).
cd "$(dirname "$0")"
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: patch does not apply"; continue; }
  s=$(date +%s)
  python3 check.py $p > build/bug.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(( $(date +%s) - s ))s $(grep VIOLATION build/bug.out)"
  grep -E "search: |unit .*(failed|undecided)" build/bug.out | cut -c1-260 | sed 's/^/    /'
  python3 - $d $rc <<'P'
import json,re,sys,os
o=open('build/bug.out').read()
f=[m.group(1) for m in re.finditer(r"unit (\S+): failed",o)]
u=[m.group(1) for m in re.finditer(r"unit (\S+): undecided",o)]
w="search: " in o and "VIOLATION" in o and "no-failing" not in o
t=[]
if f: t.append("obligation in "+", ".join(f))
if u: t.append("undecided: "+", ".join(u))
if w: t.append("failing input found")
if sys.argv[2]!="1": t=["MISSED"]+t
b=json.load(open('bugs.json')) if os.path.exists('bugs.json') else {}
b[sys.argv[1]]="; ".join(t)
json.dump(b,open('bugs.json','w'),indent=1,sort_keys=True)
P
done
git -C /repo status --short
