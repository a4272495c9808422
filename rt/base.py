"""
Run-time contract checks of the real, unmodified code (CPython, /opt/venv): used (1) to search for a failing input when
an obligation of the proof fails, (2) as a bounded cross-check of the verifier's model of Python on every run, and (3) as
the stand-in, labelled bounded, for a function an edit has put outside the verifier's reach.
"""
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings

warnings.simplefilter('ignore')
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)

CASES = {}


class Hang(BaseException):
    pass


def case(name, gen, bound='', weight=1.0):
    """register run(input): raises on violation.  gen(rng, size) yields JSON-able inputs (size: 1 quick, 2 search, 3 thorough)"""

    def deco(run):
        CASES[name] = (gen, run, bound, weight)
        return run

    return deco


def _alarm(sig, frm):
    raise Hang()


def attempt(run, inp, limit=20):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        run(json.loads(json.dumps(inp)))
        return None
    except Hang:
        return 'does not terminate within %d s' % limit
    except (Exception, SystemExit, KeyboardInterrupt) as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ''
        for f in reversed(tb):
            if '/satella/' in f.filename:
                where = ' at %s:%d' % (f.filename, f.lineno)
                break
        return '%s: %s%s' % (type(e).__name__, e, where)
    finally:
        signal.alarm(0)


def shrink(run, inp, msg, deadline):
    """drop elements of the lists inside the input while it still fails"""

    def variants(x):
        if isinstance(x, list):
            for i in range(len(x) - 1, -1, -1):
                yield x[:i] + x[i + 1:]
            for i, e in enumerate(x):
                for v in variants(e):
                    yield x[:i] + [v] + x[i + 1:]
        elif isinstance(x, dict):
            for k in x:
                for v in variants(x[k]):
                    y = dict(x)
                    y[k] = v
                    yield y

    changed = True
    kind = msg.split(':')[0]
    n = 0
    while changed and time.time() < deadline:
        changed = False
        for v in variants(inp):
            n += 1
            if n > 400 or time.time() > deadline:
                return inp, msg
            try:
                m = attempt(run, v, 5)
            except BaseException:
                continue
            if m is not None and m.split(':')[0] == kind == 'AssertionError':
                inp, msg, changed = v, m, True
                break
    return inp, msg


def again(gen, rng, size, t0):
    """the inputs of gen; where running them takes next to no time, further random ones"""
    n = 0
    for inp in gen(rng, size):
        n += 1
        yield inp
    r = 0
    while n > 20 and r < 40 and time.time() - t0 < 0.5 * size:
        r += 1
        state = rng.getstate()
        for inp in gen(rng, size):
            if time.time() - t0 > 0.5 * size:
                return
            yield inp
        if rng.getstate() == state:
            return      # not random


def main(prop):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('--size', type=int, default=1)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--budget', type=float, default=40.0)
    ap.add_argument('--replay')
    ap.add_argument('--out')
    ap.add_argument('--known', default=None)
    a = ap.parse_args()
    if a.replay:
        r = json.load(open(a.replay))
        gen, run, bound, w = CASES[r['case']]
        m = attempt(run, r['input'], 60)
        if m is None:
            print('replay: the recorded input does not fail on this tree')
            sys.exit(0)
        print('replay: FAILS: %s' % m)
        sys.exit(1)
    known = []
    if a.known and os.path.exists(a.known):
        for line in open(a.known):
            line = line.strip()
            if line.startswith('{'):
                k = json.loads(line)
                if k.get('property') == prop:
                    known.append((k['case'], json.dumps(k['input'], sort_keys=True)))
    res = {'property': prop, 'cases': {}, 'violations': [], 'known': [], 'evaluations': 0, 'samples': []}
    tot = sum(c[3] for c in CASES.values()) or 1
    import resource
    try:
        lim = 6 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except Exception:
        pass
    t00 = time.time()
    for name, (gen, run, bound, w) in CASES.items():
        rng = random.Random('%d/%s/%s' % (a.seed, prop, name))
        t0 = time.time()
        deadline = t0 + a.budget * w / tot
        n = 0
        seen = set()
        for inp in again(gen, rng, a.size, t0):
            if time.time() > deadline:
                break
            n += 1
            if n <= 3000:
                seen.add(hash(json.dumps(inp, sort_keys=True)))
            m = attempt(run, inp)
            if m is not None:
                key = (name, json.dumps(inp, sort_keys=True))
                if key in known:
                    res['known'].append({'case': name, 'input': inp, 'message': m})
                    continue
                if m.startswith(('MemoryError', 'RecursionError')):
                    m2 = attempt(run, inp)
                    if m2 is None:
                        continue
                inp2, m2 = shrink(run, inp, m, time.time() + 10)
                res['violations'].append({'case': name, 'input': inp2, 'message': m2, 'original': inp})
                break
            if n == 2 and len(res['samples']) < 6:
                res['samples'].append({'case': name, 'input': inp})
        res['cases'][name] = {'evaluations': n, 'distinct': len(seen), 'bound': bound,
                              'wall_s': round(time.time() - t0, 2)}
        res['evaluations'] += n
        if res['violations']:
            break
    txt = json.dumps(res)
    if a.out:
        with open(a.out, 'w') as f:
            f.write(txt)
    else:
        print(json.dumps(res, indent=1)[:6000])
    sys.stdout.flush()
    os._exit(1 if res['violations'] else 0)


def ops_gen(alphabet, depth, random_len, random_count):
    """all operation sequences up to `depth`, then random longer ones. alphabet(rng|None) -> list of ops / random op"""
    import itertools

    def gen(rng, size):
        base = alphabet(None)
        for d in range(1, depth + 1):
            for seq in itertools.product(base, repeat=d):
                yield [list(o) for o in seq]
        for _ in range(random_count * size):
            yield [list(alphabet(rng)) for _ in range(rng.randint(1, random_len))]

    return gen
