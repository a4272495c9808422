#!/usr/bin/env python3
"""
check.py PROP            decide one property (tier from VERIF_TIER, seed from VERIF_SEED)
check.py --replay FILE   re-execute a recorded concrete violation against the real code
"""
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
RT_PY = '/opt/venv/bin/python'
VT_PY = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python'
KNOWN = os.path.join(HERE, 'known_findings.jsonl')


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH=HERE, PYTHONWARNINGS='ignore')
    return e


def run_rt(prop, size, seed, budget, scratch, tag):
    out = os.path.join(scratch, 'rt_%s.json' % tag)
    cwd = os.path.join(scratch, 'cwd_%s' % tag)
    os.makedirs(cwd)
    return subprocess.Popen([RT_PY, os.path.join(HERE, 'rt', prop + '.py'), '--size', str(size), '--seed', str(seed),
                             '--budget', str(budget), '--out', out, '--known', KNOWN], cwd=cwd, env=env(),
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True), out


def collect(p, out, timeout):
    try:
        txt, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            p.kill()
        txt, _ = p.communicate()
        txt += '\n<killed after %d s>' % timeout
    try:
        with open(out) as f:
            return json.load(f), txt
    except Exception:
        return None, txt


def main():
    if sys.argv[1] == '--replay':
        f = sys.argv[2]
        r = json.load(open(f))
        if r.get('kind') == 'concrete':
            sys.exit(subprocess.call([RT_PY, os.path.join(HERE, 'rt', r['property'] + '.py'), '--replay', f], env=env()))
        print(json.dumps(r, indent=1))
        sys.exit(1)
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    try:
        return decide(prop, tier, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(prop, tier, seed, t0, scratch):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    pout = os.path.join(scratch, 'proof.json')
    p = subprocess.Popen([VT_PY, '-m', 'pyvc.run', prop, '--out', pout, '--tier', tier], cwd=HERE, env=env(),
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    have_rt = os.path.exists(os.path.join(HERE, 'rt', prop + '.py'))
    rt = None
    rtlog = ''
    if have_rt:
        q, qout = run_rt(prop, 1 if tier == 'quick' else 3, seed, 45 if tier == 'quick' else 400, scratch, 'main')
        rt, rtlog = collect(q, qout, 150 if tier == 'quick' else 1500)
    left = 560 - (time.time() - t0) if not (rt and rt['violations']) else 150
    proof, plog = collect(p, pout, max(60, left) if tier == 'quick' else 7200)
    contracts = proof['contracts'] if proof else []
    perr = None if proof else plog[-3000:]
    if proof and proof.get('error'):
        perr = proof['error']

    def bad(st):
        return [c for c in contracts if c['status'] in st]

    failed = bad(('failed', 'unknown', 'vacuous'))
    outside = bad(('unsupported', 'error'))
    violations = []
    known = []
    search = None
    if rt:
        known = rt['known']
        violations += rt['violations']
    if not violations and (failed or outside or perr or (have_rt and rt is None)) and have_rt:
        # the proof did not go through: search harder for an input that fails on the real code
        procs = []
        for k in range(6):
            procs.append(run_rt(prop, 2, seed * 1000 + k + 17, 50, scratch, 's%d' % k))
        search = []
        for q, qout in procs:
            r, log = collect(q, qout, 150)
            if r:
                search.append({'evaluations': r['evaluations']})
                if not violations:
                    violations += r['violations']
    lines = []
    rc = 0
    replay = None
    if violations:
        v = violations[0]
        h = hashlib.sha256(json.dumps(v, sort_keys=True).encode()).hexdigest()[:10]
        replay = os.path.join(rdir, '%s_%s.json' % (prop, h))
        with open(replay, 'w') as f:
            json.dump({'kind': 'concrete', 'property': prop, 'case': v['case'], 'input': v['input'],
                       'message': v['message'], 'original_input': v.get('original'),
                       'failed_obligations': [{'contract': c['name'], 'status': c['status'],
                                               'obligations': [o for o in c['obligations'] if not o['ok']]}
                                              for c in failed],
                       'how_to_replay': 'python3 /verif/check.py --replay <this file>'}, f, indent=1)
        for c in failed:
            for o in c['obligations']:
                if not o['ok']:
                    lines.append('failed obligation: %s / %s' % (c['name'], o['name']))
        lines.append('failing input (%s): %s -> %s' % (v['case'], json.dumps(v['input'])[:600], v['message'][:400]))
        lines.append('VIOLATION property=%s replay=%s' % (prop, replay))
        rc = 1
    elif failed:
        replay = os.path.join(rdir, '%s_obligation.json' % prop)
        with open(replay, 'w') as f:
            json.dump({'kind': 'obligation', 'property': prop,
                       'failed': [{'contract': c['name'], 'status': c['status'], 'functions': c['functions'],
                                   'unreached': c['missing'],
                                   'obligations': [o for o in c['obligations'] if not o['ok']]} for c in failed],
                       'bounded_search': search}, f, indent=1)
        for c in failed:
            lines.append('failed contract: %s (%s): %s' % (c['name'], c['status'], ', '.join(
                o['name'] for o in c['obligations'] if not o['ok']) or 'unreached: %s' % c['missing']))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay))
        rc = 1
    for k in known:
        lines.append('KNOWN-FINDING: property=%s %s %s: %s' % (prop, k['case'], json.dumps(k['input']), k['message']))
    if rc == 0:
        for c in outside:
            lines.append('note: contract %s is outside the verifier\'s reach on this tree (%s); the bounded check stands in'
                         % (c['name'], '; '.join(c['unsupported'])[:300]))
        if perr:
            lines.append('note: contracts could not be loaded; the bounded check stands in: %s' % perr[-600:])
    nob = sum(len(c['obligations']) for c in contracts)
    ndis = sum(1 for c in contracts for o in c['obligations'] if o['ok'] and c['status'] == 'proved' and not c['bounded'])
    meta = {}
    try:
        meta = json.load(open(os.path.join(HERE, 'props', 'meta.json'))).get(prop, {})
    except Exception:
        pass
    common = {}
    try:
        common = json.load(open(os.path.join(HERE, 'props', 'meta.json')))['_common']
    except Exception:
        pass
    allproved = contracts and all(c['status'] == 'proved' and not c['bounded'] for c in contracts)
    level = 'proof' if allproved else ('exploration' if contracts or rt else 'other')
    srcs = proof.get('sources', {}) if proof else {}
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'obligations': nob, 'discharged': ndis,
            'checker_cmd': 'python3-vt -m pyvc.run %s -v   (z3 %s; cvc5 on unknown%s)' % (
                prop, '5.x python API', ' and as second opinion on every obligation' if tier == 'thorough' else ''),
            'trusted_base': common.get('trusted_base', []) + meta.get('trusted', []),
            'functions_under_contract': sorted({f for c in contracts for f in c['functions']}),
            'contracts': [{'name': c['name'], 'status': c['status'], 'bounded': c['bounded'], 'paths': c['paths'],
                           'completed_paths': c['completed'], 'solver_queries': c['queries'],
                           'solver_s': c['solver_s'], 'obligations': len(c['obligations']),
                           'obligation_names': [o['name'] for o in c['obligations']],
                           'backends': sorted({b for o in c['obligations'] for b in o['backends']}),
                           'outside_reach': c['unsupported'], 'cvc5_second_opinion': c['second'],
                           'unreached': c['missing']} for c in contracts],
            'solver_s': round(sum(c['solver_s'] for c in contracts), 2),
            'evaluations': (rt or {}).get('evaluations', 0) + sum(s['evaluations'] for s in (search or [])),
            'distinct_nontrivial': sum(c['distinct'] for c in (rt or {}).get('cases', {}).values()),
            'rule': 'bounded run-time contract checks of the real code (cross-check and failing-input search, never '
                    'counted as proved): enumerated then random inputs; distinct by JSON text',
            'runtime_cases': (rt or {}).get('cases', {}),
            'samples': (rt or {}).get('samples', []) or [{'contract': c['name'], 'obligations':
                [o['name'] for o in c['obligations']][:5]} for c in contracts[:2]],
            'extraction': proof.get('instrumentation', {}) if proof else {},
            'sources_read': len(srcs),
        },
        'assumptions': common.get('assumptions', []) + meta.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': 1 if rc else 0,
    }
    if meta.get('bounded'):
        ev['coverage']['bounded_only'] = meta['bounded']
    if not allproved:
        ev['coverage']['explanation'] = 'at least one contract was not fully discharged on this tree'
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d contracts, %d/%d obligations discharged, %d run-time evaluations, %.1f s' % (
        prop, len(contracts), ndis, nob, ev['coverage']['evaluations'], time.time() - t0))
    if have_rt and rt is None and rc == 0:
        print('note: run-time check gave no result: %s' % rtlog[-500:])
    for l in lines:
        print(l)
    return rc


if __name__ == '__main__':
    sys.exit(main())
