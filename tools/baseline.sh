#!/bin/bash
# regenerates contracts/names.json, loops.json and literals.json from the tree the contracts were written for
set -e
cd /verif
rm -f /verif/contracts/names.json
bash tools/b.sh
build/vx/release/vx /repo contracts build/gen
python3 - <<'PY'
import json, sys
sys.dont_write_bytecode = True
rep = json.load(open('/verif/build/gen/report.json'))
json.dump({f['key']: f['names'] for f in rep['fns'] if f['names']}, open('/verif/contracts/names.json', 'w'), indent=0, sort_keys=True)
json.dump({f['key']: f['kinds'] for f in rep['fns'] if f['kinds']}, open('/verif/contracts/loops.json', 'w'), indent=0, sort_keys=True)
import importlib.util
src = open('/verif/check.py').read().replace('\nmain()\n', '\n')
ns = {'__file__': '/verif/check.py', '__name__': 'x'}
exec(compile(src, 'check.py', 'exec'), ns)
json.dump({str(k): v for k, v in sorted(ns['literals']().items())}, open('/verif/contracts/literals.json', 'w'), indent=0)
PY
