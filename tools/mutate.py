#!/usr/bin/env python3
"""
mutate.py OUT [--files REGEX] [--width N] [--stage rt|tests|proof] [--sample K] [--only OUT]

Small changes of the code (comparisons, conditions, constants, statements left out, locks not taken) in a scratch copy of the repository;
lists those that neither the run-time cases, nor the existing tests, nor the contracts of the properties of that file notice.
Used to find weak spots of the checks; what is left over is either equivalent to the original or a gap.
"""
import argparse
import ast
import copy
import json
import multiprocessing as mp
import os
import pickle
import random
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
QUIET = re.compile(r'^(logger|log|logging|warnings|warn)\b')


def mutants(src):
    """(line, what, source) of every change"""
    tree = ast.parse(src)
    infn = set()
    for f in ast.walk(tree):
        if isinstance(f, (ast.FunctionDef, ast.Lambda)):
            for n in ast.walk(f):
                infn.add(id(n))
            if isinstance(f, ast.FunctionDef):
                for n in f.decorator_list + ([f.returns] if f.returns else []):
                    for m in ast.walk(n):
                        infn.discard(id(m))
                for a in f.args.args + f.args.kwonlyargs:
                    if a.annotation:
                        for m in ast.walk(a.annotation):
                            infn.discard(id(m))
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            for d in f.decorator_list:
                if 'synchron' in ast.unparse(d):
                    infn.add(id(f))
    nodes = [n for n in ast.walk(tree) if id(n) in infn]
    frozen = pickle.dumps((tree, nodes))
    for i, n in enumerate(nodes):
        for k in range(8):
            if isinstance(n, ast.expr_context) or change(copy.deepcopy(n), k, None) is None:
                continue
            t = pickle.loads(frozen)
            what = change(t[1][i], k, t[0])
            ast.fix_missing_locations(t[0])
            try:
                s = ast.unparse(t[0])
                compile(s, 'x', 'exec')
            except Exception:
                continue
            yield getattr(n, 'lineno', 0), what + ': ' + ast.unparse(n).split('\n')[0][:90], s


def become(n, m):
    n.__class__ = m.__class__
    n.__dict__ = m.__dict__


def change(n, k, tree):
    if isinstance(n, ast.Compare) and k < len(n.ops) and type(n.ops[k]) in CMP:
        n.ops[k] = CMP[type(n.ops[k])]()
        return 'comparison'
    if isinstance(n, (ast.If, ast.While, ast.IfExp)) and k == 0:
        n.test = ast.UnaryOp(ast.Not(), n.test)
        return 'negated'
    if isinstance(n, ast.If) and k == 1:
        n.test = ast.Constant(True)
        return 'always'
    if isinstance(n, ast.If) and k == 2:
        n.test = ast.Constant(False)
        return 'never'
    if isinstance(n, ast.BoolOp) and k == 0:
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        return 'and/or'
    if isinstance(n, ast.BoolOp) and k in (1, 2) and len(n.values) >= k:
        n.values.pop(k - 1)
        if len(n.values) == 1:
            become(n, n.values[0])
        return 'operand dropped'
    if isinstance(n, (ast.BinOp, ast.AugAssign)) and k == 0:
        c = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.FloorDiv: ast.Mult, ast.Div: ast.Mult}.get(type(n.op))
        if c is None:
            return
        n.op = c()
        return 'operator'
    if isinstance(n, ast.Constant) and k < 2:
        if isinstance(n.value, bool):
            if k:
                return
            n.value = not n.value
            return 'constant'
        if isinstance(n.value, int):
            n.value += 1 if k == 0 else -1
            return 'constant'
        if n.value is None:
            return
    if isinstance(n, (ast.AugAssign, ast.Delete, ast.Raise)) and k == 1:
        become(n, ast.Pass())
        return 'left out'
    if isinstance(n, ast.Expr) and k == 1 and not isinstance(n.value, ast.Constant):
        if QUIET.match(ast.unparse(n)):
            return
        become(n, ast.Pass())
        return 'left out'
    if isinstance(n, ast.Assign) and k == 1:
        become(n, ast.Pass())
        return 'left out'
    if isinstance(n, ast.Return) and k == 1 and n.value is not None:
        n.value = ast.Constant(None)
        return 'result dropped'
    if isinstance(n, ast.With) and k == 0:
        if n.items[0].optional_vars is not None:
            return
        become(n, ast.If(ast.Constant(True), n.body, []))
        return 'without'
    if isinstance(n, ast.Try) and n.finalbody and k == 0:
        if n.handlers:
            n.orelse = n.orelse + n.finalbody
            n.finalbody = []
        else:
            become(n, ast.If(ast.Constant(True), n.body + n.finalbody, []))
        return 'no finally'
    if isinstance(n, ast.ExceptHandler) and k == 0 and n.type is not None:
        n.type = ast.Tuple([], ast.Load())
        return 'does not catch'
    if isinstance(n, ast.Break) and k == 0:
        become(n, ast.Continue())
        return 'continue'
    if isinstance(n, ast.Continue) and k == 0:
        become(n, ast.Break())
        return 'break'
    if isinstance(n, ast.UnaryOp) and k == 0 and isinstance(n.op, (ast.Not, ast.USub)):
        become(n, n.operand)
        return 'unary dropped'
    if isinstance(n, ast.Call) and k == 0 and len(n.args) == 2:
        n.args.reverse()
        return 'arguments swapped'
    if isinstance(n, ast.Call) and k == 1 and n.keywords:
        n.keywords.pop()
        return 'keyword dropped'
    if isinstance(n, ast.Call) and k == 2 and len(n.args) == 1 and not n.keywords and isinstance(n.func, ast.Name) \
            and n.func.id in ('list', 'tuple', 'sorted', 'reversed', 'set', 'dict', 'copy', 'iter', 'int', 'float', 'max', 'min'):
        become(n, n.args[0])
        return 'call dropped'
    if isinstance(n, ast.FunctionDef) and k == 0 and any('synchron' in ast.unparse(d) for d in n.decorator_list):
        n.decorator_list = [d for d in n.decorator_list if 'synchron' not in ast.unparse(d)]
        return 'unsynchronized'


def sh(cmd, timeout, env=None, cwd=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return -9, 'timeout'


def env(repo):
    e = dict(os.environ)
    e.update(VERIF_REPO=repo, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH=HERE, PYTHONWARNINGS='ignore')
    return e


def one(job):
    path, line, what, src, props, stage = job
    me = os.getpid()
    repo = '/tmp/mut/%d' % me
    if not os.path.exists(repo):
        subprocess.check_call(['cp', '-a', REPO, repo])
    f = os.path.join(repo, path)
    orig = open(os.path.join(REPO, path)).read()
    try:
        open(f, 'w').write(src)
        for p in props:
            rc, out = sh(['/opt/venv/bin/python', os.path.join(HERE, 'rt', p + '.py'), '--size', '1', '--seed', '1', '--budget', '40', '--out',
                          '/tmp/mut/%d.json' % me, '--known', os.path.join(HERE, 'known_findings.jsonl')], 150, env(repo), '/tmp/mut')
            if rc != 0:
                return path, line, what, 'rt ' + p
        if stage == 'rt':
            return path, line, what, 'SURVIVED'
        rc, out = sh(['/opt/venv/bin/python', '-W', 'ignore', '-m', 'pytest', '-q', '-x', '-n', '3', 'tests/test_coding', 'tests/test_time.py', 'tests/test_exception_handling',
                      '-p', 'no:cacheprovider'], 240, env(repo), repo)
        if rc != 0:
            m = re.search(r'FAILED (\S+)', out)
            return path, line, what, 'tests ' + (m.group(1) if m else str(rc))
        if stage == 'proof':
            for p in props:
                rc, out = sh(['python3-vt', '-m', 'pyvc.run', p], 600, env(repo), HERE)
                if rc != 0:
                    return path, line, what, 'proof ' + p
        return path, line, what, 'SURVIVED'
    except Exception as e:
        return path, line, what, 'error %r' % e
    finally:
        open(f, 'w').write(orig)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--files', default='.')
    ap.add_argument('--prop', default=None)
    ap.add_argument('--width', type=int, default=7)
    ap.add_argument('--stage', default='rt', choices=['rt', 'tests', 'proof'], help='how far to go')
    ap.add_argument('--only', help='the survivors of this earlier output')
    ap.add_argument('--sample', type=int, default=0)
    ap.add_argument('--list', action='store_true')
    a = ap.parse_args()
    by = {}
    for l in open(os.path.join(HERE, 'properties.jsonl')):
        d = json.loads(l)
        for f in d['anchors']['files']:
            by.setdefault(f, []).append(d['id'])
    jobs = []
    for f, ps in sorted(by.items()):
        if not re.search(a.files, f) or (a.prop and a.prop not in ps):
            continue
        ms = list(mutants(open(os.path.join(REPO, f)).read()))
        if a.sample and len(ms) > a.sample:
            ms = random.Random(1).sample(ms, a.sample)
        jobs += [(f, l, w, s, ps, a.stage) for l, w, s in ms]
    if a.only:
        left = {tuple(r[:3]) for r in map(json.loads, open(a.only)) if r[3] == 'SURVIVED'}
        jobs = [j for j in jobs if j[:3] in left]
    print(len(jobs), 'changes', flush=True)
    if a.list:
        for j in jobs:
            print(j[:3])
        return
    shutil.rmtree('/tmp/mut', ignore_errors=True)
    os.makedirs('/tmp/mut')
    random.Random(2).shuffle(jobs)
    with open(a.out, 'w') as o, mp.Pool(a.width) as pool:
        for r in pool.imap_unordered(one, jobs):
            o.write(json.dumps(r) + '\n')
            o.flush()
    shutil.rmtree('/tmp/mut', ignore_errors=True)


if __name__ == '__main__':
    main()
