#!/usr/bin/env python3
"""mkseed.py [ids...]: build seeded/<id>/ from tools/seeds/*.py in a scratch copy of /repo, confirm demo and (with --tests) tests."""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}


def seed(id, property, edits, demo, needs, what):
    SEEDS[id] = dict(id=id, property=property, edits=edits, demo=demo, needs=needs, what=what)


for f in sorted(glob.glob(os.path.join(HERE, 'tools', 'seeds', '*.py'))):
    exec(compile(open(f).read(), f, 'exec'))


def demo_run(d, cwd):
    e = dict(os.environ, PYTHONPATH=cwd, PYTHONDONTWRITEBYTECODE='1')
    try:
        p = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=cwd, env=e, capture_output=True, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        return 'timeout', ''
    return p.returncode, (p.stdout + p.stderr)[-300:]


def tests(cwd):
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    out = os.path.join(cwd, '..', 'junit')
    os.makedirs(out, exist_ok=True)
    e = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    py = ['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=120', '-o', 'junit_family=xunit2']
    subprocess.run(py + ['-p', 'no:xdist', '--junitxml=%s/a.xml' % out, 'tests/test_files.py', 'tests/test_configuration'],
                   cwd=cwd, env=e, capture_output=True)
    subprocess.run(py + ['-n', '8', '--dist', 'loadfile', '--junitxml=%s/b.xml' % out, '--ignore=tests/test_files.py',
                         '--ignore=tests/test_configuration', 'tests'], cwd=cwd, env=e, capture_output=True)
    r = out + '/r.json'
    subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', r, 'junit:%s/*.xml' % out], capture_output=True)
    o = json.load(open(r))
    return sorted(base - set(o['passed']))


def main():
    want = [a for a in sys.argv[1:] if not a.startswith('-')] or list(SEEDS)
    for i in want:
        s = SEEDS[i]
        top = tempfile.mkdtemp(prefix='seed_')
        try:
            c = os.path.join(top, 'repo')
            shutil.copytree(os.environ.get('VERIF_REPO', '/repo'), c, symlinks=True)
            subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=c)
            d = os.path.join(HERE, 'seeded', i)
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, 'demo.py'), 'w') as f:
                f.write(s['demo'].strip('\n') + '\n')
            with open(os.path.join(d, 'demo.sh'), 'w') as f:
                f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\ncd "$(pwd)"\n'
                        'PYTHONPATH="$(pwd)" timeout 120 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
            with open(os.path.join(d, 'meta.json'), 'w') as f:
                json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what']}, f, indent=1)
            r0 = demo_run(d, c)
            for fn, old, new in s['edits']:
                p = os.path.join(c, fn)
                t = open(p).read()
                if t.count(old) != 1:
                    print(i, 'EDIT DOES NOT APPLY', fn, t.count(old))
                    break
                open(p, 'w').write(t.replace(old, new))
            diff = subprocess.run(['git', 'diff'], cwd=c, capture_output=True, text=True).stdout
            with open(os.path.join(d, 'patch.diff'), 'w') as f:
                f.write(diff)
            r1 = demo_run(d, c)
            ok = r0[0] == 0 and r1[0] not in (0,)
            print(i, s['property'], 'demo clean', r0[0], 'patched', r1[0], 'OK' if ok else 'BAD ' + str(r0) + str(r1))
            if '--tests' in sys.argv:
                bad = tests(c)
                print('   tests failing:', bad[:5])
            if '--check' in sys.argv:
                e = dict(os.environ, VERIF_REPO=c)
                p = subprocess.run(['python3', os.path.join(HERE, 'check.py'), s['property']], env=e, capture_output=True, text=True)
                print('   check rc=%d: %s' % (p.returncode, p.stdout[-500:].strip()))
        finally:
            shutil.rmtree(top, ignore_errors=True)


main()
