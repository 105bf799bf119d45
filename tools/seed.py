#!/usr/bin/env python3
"""seed.py ID PROPERTY FILE < spec: makes seeded/ID. spec: JSON {old,new,needs,what,demo} or several edits."""
import json, os, subprocess, sys, shutil, tempfile
DEMO = '''#!/bin/bash
# exit 0: the property holds on the demonstrated input; not 0: it is broken
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
mkdir "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
mpegts = { path = "$PWD" }
[workspace]
TOML
timeout 200 cargo run --offline --quiet --manifest-path "$tmp/Cargo.toml" --target-dir "$tmp/target" 2> "$tmp/log"
rc=$?
[ $rc -eq 0 ] || tail -n 5 "$tmp/log"
rm -rf -- "${tmp:?}"
exit $rc
'''
sid, prop, spec = sys.argv[1], sys.argv[2], json.load(sys.stdin) if len(sys.argv) < 4 else json.load(open(sys.argv[3]))
d = '/verif/seeded/' + sid
scratch = tempfile.mkdtemp(prefix='seed-')
subprocess.check_call(['cp', '-r', '/repo/.', scratch])
subprocess.check_call(['git', '-C', scratch, 'checkout', '-q', '--', '.'])
for e in spec['edits']:
    p = os.path.join(scratch, e['file'])
    s = open(p).read()
    assert s.count(e['old']) == 1, (sid, 'old text occurs %d times' % s.count(e['old']))
    open(p, 'w').write(s.replace(e['old'], e['new']))
diff = subprocess.check_output(['git', '-C', scratch, 'diff']).decode()
os.makedirs(d, exist_ok=True)
open(d + '/patch.diff', 'w').write(diff)
open(d + '/demo.rs', 'w').write(spec['demo'])
open(d + '/demo.sh', 'w').write(DEMO)
json.dump({'property': prop, 'needs': spec['needs'], 'what_it_breaks': spec['what']}, open(d + '/meta.json', 'w'), indent=1)
env = dict(os.environ, CARGO_TARGET_DIR=scratch + '/target')
t = subprocess.run(['cargo', 'test', '--offline', '--workspace', '-q'], cwd=scratch, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
demo_bad = subprocess.run(['bash', d + '/demo.sh'], cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
demo_ok = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
# which original lines change
base = '4f0805a'
warn = ''
for e in spec['edits']:
    old = subprocess.run(['git', '-C', '/repo', 'show', base + ':' + e['file']], stdout=subprocess.PIPE).stdout.decode()
    for l in diff.splitlines():
        if l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:] not in old.splitlines():
            warn += ' line-not-original:' + l[1:].strip()
print(sid, 'tests', 'pass' if t.returncode == 0 else 'FAIL', '| demo patched', demo_bad.returncode, '| demo clean', demo_ok.returncode, warn)
if t.returncode: print(t.stdout.decode()[-800:])
if demo_ok.returncode or not demo_bad.returncode: print(demo_ok.stdout.decode()[-800:], demo_bad.stdout.decode()[-800:])
shutil.rmtree(scratch)
