#!/usr/bin/env python3
"""Decides one property: check.py ID. See DESIGN.md, "How a check works"."""
import hashlib
import json
import os
import re
import resource
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
BUILD = os.path.join(ROOT, 'build')
CONTRACTS = os.path.join(ROOT, 'contracts')
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from props import PROPS  # noqa: E402

T0 = time.time()
LIMIT = 840
RLIMIT = 40


def left():
    return LIMIT - (time.time() - T0)


def die(msg):
    print('CHECK-ERROR: ' + msg)
    sys.exit(2)


def memory_limit():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))


def sh(cmd, timeout, cwd=None):
    env = dict(os.environ)
    env['CARGO_NET_OFFLINE'] = 'true'
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, preexec_fn=memory_limit, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=max(5, timeout))
        return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        return 124, '', 'timeout'


def cargo(crate):
    rc, out, err = sh(['cargo', 'build', '--offline', '--release', '--quiet', '--target-dir', os.path.join(BUILD, crate)], 600, os.path.join(ROOT, crate))
    if rc != 0:
        die('cannot build %s\n%s' % (crate, err[-3000:]))
    return os.path.join(BUILD, crate, 'release', crate)


# ---------------------------------------------------------------- extraction

def extract(vx, out, opts):
    os.makedirs(out, exist_ok=True)
    of = os.path.join(out, 'opts.json')
    with open(of, 'w') as f:
        json.dump(opts, f)
    rc, o, e = sh([vx, REPO, CONTRACTS, out, of], 60)
    if rc != 0:
        return None, e
    with open(os.path.join(out, 'report.json')) as f:
        return json.load(f), ''


class Verdict:
    """what the verifier said about one extraction"""

    def __init__(self):
        self.rejected = []      # (key or None, message): text the verifier could not read
        self.failed = []        # (key, message, rendered): obligations not discharged
        self.limits = []        # keys that ran out of resources
        self.functions = []     # (name, success, micros)
        self.modules = {}
        self.bad_modules = set()
        self.retries = 0
        self.canary = False
        self.verified = 0
        self.errors = 0
        self.raw = ''


def fn_at(rep, line):
    for f in rep['fns']:
        if f['line'] <= line <= f['end']:
            return f['key']
    return None


def run_verus(out, rep, modules, rlimit, timeout, smt_seed=None):
    cmd = ['verus', 'gen.rs', '--output-json', '--time-expanded', '--multiple-errors', '2', '--rlimit', str(rlimit), '--num-threads', '7']
    for m in modules + ['vx_canary']:
        cmd += ['--verify-only-module', m]
    if smt_seed is not None:
        cmd += ['--smt-option', 'smt.random_seed=%d' % smt_seed]
    cmd += ['--', '--error-format=json']
    rc, o, e = sh(cmd, timeout, out)
    v = Verdict()
    if rc == 124:
        v.rejected.append((None, 'verifier timed out'))
        return v
    res = {}
    k = o.find('{')
    if k >= 0:
        try:
            res = json.loads(o[k:])
        except ValueError:
            res = {}
    vr = res.get('verification-results', {})
    v.verified = vr.get('verified', 0)
    v.errors = vr.get('errors', 0)
    for m in res.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
        for f in m.get('function-breakdown', []):
            v.modules[m['module']] = v.modules.get(m['module'], 0) + 1
            v.functions.append((f['function'].replace('gen::', '', 1), f['success'], f.get('time-micros', 0)))
            if not f['success']:
                v.bad_modules.add(m['module'])
    ran = bool(v.functions)
    bad = {n for n, ok, _ in v.functions if not ok}
    rendered = []
    for line in e.splitlines():
        if not line.startswith('{'):
            if 'panicked' in line:
                v.rejected.append((None, line))
            continue
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if d.get('level') != 'error':
            continue
        msg = d.get('message', '')
        if msg.startswith('aborting due to'):
            continue
        spans = d.get('spans', [])
        keys = []
        for s in sorted(spans, key=lambda s: not s.get('is_primary')):
            key = fn_at(rep, s['line_start'])
            if key and key not in keys:
                keys.append(key)
        text = d.get('rendered') or msg
        if any('canary' in t['text'] for s in spans for t in s.get('text', [])):
            v.canary = True
            continue
        rendered.append(text)
        limit = 'rlimit' in msg or 'Resource limit' in msg
        if not ran or vr.get('encountered-vir-error'):
            code = (d.get('code') or {}).get('code') if d.get('code') else None
            v.rejected.append((keys[0] if keys else None, '%s %s' % (code or '', msg)))
            continue
        # the function whose query failed: prefer one whose name is in the failed list
        short = {b.split('::')[-1] for b in bad}
        good = [k2 for k2 in keys if k2.split('::')[-1] in short]
        # for a failed postcondition of a trait the body is named by the secondary span
        good.sort(key=lambda k2: '::trait ' in k2)
        key = (good or keys or [None])[0]
        if limit:
            v.limits.append(key)
        else:
            v.failed.append((key, msg, text))
    v.raw = '\n'.join(rendered)
    if not ran and not v.rejected:
        v.rejected.append((None, 'verifier gave no result: ' + e[-400:]))
    return v


def prove(vx, pid, prop):
    """extract, verify; functions the verifier cannot read are made opaque one after another"""
    out = os.path.join(BUILD, 'gen-' + pid)
    opts = {'roles': {}, 'opaque': []}
    tried = {}
    unread = {}
    v = rep = None
    for _ in range(24):
        if left() < 200:
            break
        rep, err = extract(vx, out, opts)
        if rep is None:
            return None, None, {}, opts, 'extraction failed: ' + err
        v = run_verus(out, rep, prop['modules'], prop.get('rlimit', RLIMIT), min(400, left() - 120))
        if not v.rejected:
            break
        keys = {k for k, _ in v.rejected if k}
        if not keys:
            break
        progress = False
        for k in sorted(keys):
            msgs = [m for kk, m in v.rejected if kk == k]
            unknown = [m for m in msgs if 'E0425' in m]
            f = next(x for x in rep['fns'] if x['key'] == k)
            done = False
            if unknown and len(unknown) == len(msgs):
                # a local named by an invariant is gone: try the locals of the function in turn
                name = re.search(r'`([^`]+)`', unknown[0])
                if name:
                    name = name.group(1)
                    cand = [n for n in f['names'] + ['vx_i0', 'vx_i1', 'vx_acc0', 'vx_acc1'] if n != name]
                    t = tried.setdefault((k, name), [])
                    nxt = [c for c in cand if c not in t]
                    if nxt and len(t) < 6:
                        t.append(nxt[0])
                        opts['roles'].setdefault(k, {})[name] = nxt[0]
                        done = True
            if not done and k not in opts['opaque']:
                opts['opaque'].append(k)
                opts['roles'].pop(k, None)
                unread[k] = msgs[0]
                done = True
            progress = progress or done
        if not progress:
            break
    # an obligation the solver missed may only need another search order or more resources
    for smt_seed in (11, 42):
        if v is None or v.rejected or not (v.failed or v.limits) or left() < 260:
            break
        mods = sorted(m for m in v.bad_modules if m in prop['modules'])
        if not mods:
            break
        w = run_verus(out, rep, mods, 3 * prop.get('rlimit', RLIMIT), min(240, left() - 140), smt_seed)
        if w.rejected or not w.canary:
            break
        v.verified += max(0, v.errors - w.errors)
        v.errors = w.errors
        v.failed, v.limits, v.raw, v.bad_modules = w.failed, w.limits, w.raw, w.bad_modules
        v.functions += [f for f in w.functions if 'canary' not in f[0]]
        v.retries += 1
    return rep, v, unread, opts, ''


# ---------------------------------------------------------------- falsifier

LIT = re.compile(r'\b(0x[0-9a-fA-F_]+|0b[01_]+|[0-9][0-9_]*)(?:u8|u16|u32|u64|usize|i64)?\b')


def literals():
    vals = {}
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in fs:
            if not f.endswith('.rs'):
                continue
            with open(os.path.join(d, f), errors='replace') as fh:
                text = re.sub(r'//[^\n]*', '', fh.read())
            for m in LIT.finditer(text):
                try:
                    n = int(m.group(1).replace('_', ''), 0) if not re.match(r'0[0-9]', m.group(1)) else int(m.group(1).replace('_', ''))
                except ValueError:
                    continue
                if n < 1 << 64:
                    vals[n] = vals.get(n, 0) + 1
    return vals


def dictionary():
    now = literals()
    try:
        with open(os.path.join(CONTRACTS, 'literals.json')) as f:
            base = {int(k): n for k, n in json.load(f).items()}
    except OSError:
        base = {}
    new = sorted(n for n in now if now[n] > base.get(n, 0))
    if new and len(new) < 200:
        return new, True
    return sorted(now)[:400], False


def falsify(exe, pid, seed, budget_ms, timeout):
    """-> (found, message, stats)"""
    words, fresh = dictionary()
    rdir = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    out = os.path.join(rdir, '%s.case' % pid)
    if os.path.exists(out):
        os.remove(out)
    rc, o, e = sh([exe, 'run', pid, str(seed), str(budget_ms), out, ','.join(map(str, words))], timeout)
    nows = ['%s.now.%d' % (out, w) for w in range(8)]
    if rc in (0, 1):
        for f in nows:
            if os.path.exists(f):
                os.remove(f)
    stats = {'new_constants': words if fresh else []}
    known = [l[6:] for l in o.splitlines() if l.startswith('KNOWN ')]
    stats['known'] = known
    stats['samples'] = [l[7:] for l in o.splitlines() if l.startswith('SAMPLE ')]
    m = re.search(r'^NONE evaluations=(\d+) distinct=(\d+) cases=(\[.*?\]) sweeps=(\[.*\])$', o, re.M)
    if rc == 0 and m:
        stats.update(evaluations=int(m.group(1)), distinct=int(m.group(2)), cases=m.group(3), sweeps=m.group(4))
        return False, '', stats
    m = re.search(r'^FOUND (.*)$', o, re.M)
    if rc == 1 and m:
        c = re.search(r'^COUNT evaluations=(\d+) distinct=(\d+)$', o, re.M)
        if c:
            stats.update(evaluations=int(c.group(1)), distinct=int(c.group(2)))
        return True, m.group(1), stats
    if rc == 124 or rc < 0:
        # the code under test did not come back, or took the process down: find the case
        for w in range(8):
            try:
                with open('%s.now.%d' % (out, w)) as f:
                    case, case_seed = f.read().split()
            except (OSError, ValueError):
                continue
            with open(out, 'w') as f:
                f.write('property: %s\ncase: %s\nfails: ends or blocks the process\nseed: %s\ndict: %s\n' % (pid, case, case_seed, ','.join(map(str, words))))
            r2, o2, _ = sh([exe, 'replay', out], 30)
            if r2 != 0:
                return True, 'the code under test %s on the recorded input' % ('did not return' if r2 == 124 else 'failed: %s' % (o2.strip() or 'signal %d' % -r2)), stats
        os.remove(out)
    die('falsifier failed (%d): %s %s' % (rc, o[-500:], e[-2000:]))


# ---------------------------------------------------------------- main

def inherited(key):
    """the trait function whose contract a method of a trait implementation carries"""
    m = re.search(r'(\w+) for \w+::(\w+)$', key)
    return '%s::%s' % m.groups() if m else ''


def assumed_text():
    """(module, text) of everything written by hand"""
    for base, _, files in os.walk(CONTRACTS):
        for n in sorted(files):
            with open(os.path.join(base, n)) as f:
                text = f.read()
            if n.endswith('.rs'):
                yield (n[:-3] if base == CONTRACTS else 'spec::' + n[:-3]), text
            elif n.endswith('.vc'):
                parts = re.split(r'^//@ module (\S+)$', text, flags=re.M)
                yield from zip(parts[1::2], parts[2::2])


def trusted_base(rep, prop):
    tb = ['Verus 0.2026.09.13 and Z3', "vstd's contracts for the standard library", 'rustc 1.98 front end',
          'vx extraction: lowerings listed in DESIGN.md, "What the extraction changes"']
    for module, text in assumed_text():
        if module != 'vx' and module not in prop['modules']:
            continue
        for m in re.finditer(r'assume_specification(?:<[^\[]*>)?\s*\[\s*(.+?)\s*\]\s*\(', text):
            tb.append('assumed contract: ' + m.group(1))
        for m in re.finditer(r'#\[verifier::external_body\]\s*(?:pub\s+)?(?:broadcast\s+)?(proof fn|fn|struct)\s+(\w+)', text):
            tb.append('%s: %s' % ({'proof fn': 'axiom', 'fn': 'assumed contract', 'struct': 'opaque type'}[m.group(1)], m.group(2)))
        for m in re.finditer(r'type ExternalTraitSpecificationFor: ([\w:]+)', text):
            tb.append('assumed contract: trait ' + m.group(1))
        for m in re.finditer(r'uninterp spec fn (\w+)', text):
            tb.append('uninterpreted: ' + m.group(1))
    if rep:
        for f in rep['fns']:
            if f['trusted'] and any(f['key'].rsplit('::', 1)[0].startswith(m) for m in prop['modules']):
                tb.append('assumed contract: %s (%s)' % (f['key'], f['trusted']))
    return tb


def main():
    pid = sys.argv[1]
    prop = PROPS[pid]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    os.makedirs(os.path.join(ROOT, 'evidence', 'replay'), exist_ok=True)
    vx = cargo('vx')
    fexe = cargo('falsify')

    rep, v, unread, opts, err = prove(vx, pid, prop)
    direct = [re.compile(x) for x in prop['direct']]

    def is_direct(k):
        return any(r.search(k) for r in direct)

    notes = []
    alarms = []     # failed obligations that stand as violations
    proved = True
    direct_fns = []
    if rep is None or v is None:
        proved = False
        notes.append(err or 'no time for the proof')
    elif v.rejected:
        proved = False
        notes.append('not read by the verifier: ' + '; '.join('%s: %s' % (k, m) for k, m in v.rejected)[:600])
    else:
        if not v.canary:
            die('the canary obligation was accepted: the proof base is contradictory')
        for k, m in unread.items():
            proved = False
            notes.append('body of %s is outside the verifier\'s reach after this change (%s)' % (k, m))
        info = {f['key']: f for f in rep['fns']}
        with open(os.path.join(CONTRACTS, 'loops.json')) as lf:
            kinds = json.load(lf)
        for k in v.limits:
            proved = False
            notes.append('resource limit reached in %s' % k)
        for k, msg, text in v.failed:
            proved = False
            f = info.get(k)
            shaped = f is not None and not f['lost'] and not f['inlined'] and not opts['roles'].get(k) \
                and f['kinds'] == kinds.get(k, [])
            if k and is_direct(k) and shaped:
                alarms.append((k, msg, text))
            else:
                notes.append('obligation not discharged: %s: %s%s' % (k, msg, '' if shaped else ' (annotations do not fit the changed body)'))
        traits = {re.sub(r'^.*::trait ', '', f['key']) for f in rep['fns'] if '::trait ' in f['key'] and f['contract']}
        direct_fns = [f['key'] for f in rep['fns'] if is_direct(f['key']) and (f['contract'] or inherited(f['key']) in traits)]
        for k in rep['lost_keys']:
            if is_direct(k):
                notes.append('function under contract no longer exists: ' + k)
                proved = False
        if not direct_fns:
            proved = False
            notes.append('no function under contract left')

    budget = prop.get('budget_ms', 12000) if tier == 'quick' else prop.get('thorough_ms', 180000)
    if not proved:
        budget = max(budget, 60000)
    budget = int(max(3000, min(budget, (left() - 60) * 1000)))
    found, fmsg, stats = falsify(fexe, pid, seed, budget, budget / 1000 + 60)

    for k in stats.get('known', []):
        print('KNOWN-FINDING: property=%s %s' % (pid, k))

    violation = None
    rdir = os.path.join(ROOT, 'evidence', 'replay')
    if found or alarms:
        body = ''
        case = os.path.join(rdir, '%s.case' % pid)
        if found and os.path.exists(case):
            with open(case) as f:
                body = f.read()
        if not body:
            body = 'property: %s\n' % pid
        body += '\nreplay: build/falsify/release/falsify replay <this file>\n' if found else ''
        for k, msg, text in alarms:
            body += '\nfailed obligation in %s: %s\n%s\n' % (k, msg, text)
        if v is not None and v.raw and not alarms:
            body += '\nverifier output:\n%s\n' % v.raw
        name = '%s-%s.txt' % (pid, hashlib.sha1(body.encode()).hexdigest()[:10])
        path = os.path.join(rdir, name)
        with open(path, 'w') as f:
            f.write(body)
        violation = (path, found)

    fns_all = len({n for n, _, _ in v.functions if 'canary' not in n}) if v else 0
    smt_us = sum(t for _, _, t in v.functions) if v else 0
    # a failed obligation is the prover's answer; without one, an unproved run only explored
    level = 'proof' if proved or alarms else 'exploration'
    cov = {
        'obligations': (v.verified + v.errors - 1) if v and v.canary else (len(unread) or 1),
        'discharged': v.verified if v else 0,
        'checker_cmd': 'verus build/gen-%s/gen.rs %s' % (pid, ' '.join('--verify-only-module ' + m for m in prop['modules'])),
        'trusted_base': trusted_base(rep, prop),
        'back_end': 'Verus/Z3, one query per function',
        'functions_queried': fns_all,
        'functions_by_module': v.modules if v else {},
        'solver_retries': v.retries if v else 0,
        'solver_seconds': round(smt_us / 1e6, 3),
        'functions_under_contract': len(direct_fns),
        'functions': sorted(direct_fns),
        'canary_rejected': bool(v and v.canary),
        'proved_on_this_run': proved,
        'not_proved': notes,
        'bounded_part': prop.get('bounded', ''),
        'evaluations': stats.get('evaluations', 0),
        'distinct_nontrivial': stats.get('distinct', 0),
        'rule': 'executions of the compiled crate against independent oracles (guards the assumed contracts; finds the failing input when an obligation fails); distinct by drawn tape',
        'cases': stats.get('cases', ''),
        'sweeps': stats.get('sweeps', ''),
        'samples': stats.get('samples', []),
        'new_constants': stats.get('new_constants', []),
    }
    if prop.get('theorems'):
        cov['theorems'] = prop['theorems']
    if rep:
        cov['extraction_dropped'] = sum(1 for d in rep['dropped'])
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
        'wall_s': round(time.time() - T0, 2),
        'assumptions': prop.get('assumptions', []) + ['machine integers are modelled exactly (Verus checks overflow); usize is taken as 64 bits'],
        'violations': 1 if violation else 0,
    }
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')

    for n in notes:
        print('NOTE: ' + n[:400])
    if violation:
        path, has_input = violation
        if has_input:
            print('failing input: ' + fmsg[:600])
            print('VIOLATION property=%s replay=%s' % (pid, path))
        else:
            for k, msg, _ in alarms:
                print('failed obligation: %s: %s' % (k, msg))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
        sys.exit(1)
    if proved:
        print('%s holds: %d obligations discharged, %d functions under contract, %d executions agree' % (pid, cov['discharged'], len(direct_fns), cov['evaluations']))
    else:
        print('%s: no violation; bounded only on this tree (%d executions): %s' % (pid, cov['evaluations'], '; '.join(notes)[:300]))
    sys.exit(0)


main()
