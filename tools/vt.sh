#!/bin/bash
# vt.sh MODULE...: verify extracted modules, print time per function
cd /verif/build/gen
a=(); for m in "$@"; do a+=(--verify-only-module "$m"); done
verus gen.rs --output-json --time-expanded "${a[@]}" 2>/dev/null > /tmp/vt.json
python3 - <<'P'
import json
d=json.load(open('/tmp/vt.json'))
r=[]
for m in d['times-ms']['smt']['smt-run-module-times']:
    for f in m['function-breakdown']:
        r.append((f['time-micros']/1000,f['rlimit'],f['success'],f['function']))
r.sort()
for x in r[-25:]: print('%8.0f ms %10d %s %s'%x)
print(d['verification-results'])
P
