from base import case, main
from fakeclock import Clock
from satella.coding.concurrent import CallableGroup, CallNoOftenThan, CancellableCallback


class Boom(Exception):
    pass


def gen(rng, size):
    for gather in (True, False):
        for swallow in (True, False):
            for one in (True, False):
                for n in (1, 2, 3):
                    for bad in range(n + 1):
                        yield {'gather': gather, 'swallow': swallow, 'ops': [['add', one, ['raise'] if i == bad else []] for i in range(n)] +
                               [['call'], ['call']]}
                    for c in range(n):
                        yield {'gather': gather, 'swallow': swallow, 'ops': [['add', one, []] for i in range(n)] +
                               [['cancel', c], ['has'], ['call'], ['has'], ['call']]}
                        yield {'gather': gather, 'swallow': swallow, 'ops': [['add', one, ['cancel', c]] for i in range(n)] +
                               [['call'], ['has'], ['call']]}
                    yield {'gather': gather, 'swallow': swallow, 'ops': [['add', one, ['add', True]] for i in range(n)] + [['call'], ['call'], ['call']]}
    for _ in range(1500 * size):
        ops = []
        for _ in range(rng.randint(1, 14)):
            r = rng.random()
            if r < .45:
                ops.append(['add', rng.random() < .4, rng.choice([[], [], [], ['raise'], ['raise once'], ['cancel', rng.randint(0, 4)], ['add', rng.random() < .5], ['exit']])])
            elif r < .6:
                ops.append(['cancel', rng.randint(0, 5)])
            elif r < .65:
                ops.append(['again', rng.randint(0, 5), rng.random() < .5])
            elif r < .7:
                ops.append(['clean'])
            elif r < .8:
                ops.append(['has'])
            else:
                ops.append(['call'])
        yield {'gather': rng.random() < .7, 'swallow': rng.random() < .5, 'ops': ops + [['call'], ['call']]}


class Exit(BaseException):
    pass


@case('histories of a callback group', gen, 'up to 14 operations; callbacks that raise, cancel or add others')
def run(inp):
    g = CallableGroup(inp['gather'], inp['swallow'])
    cbs, live, one, reg, ordered = [], [], [], [], [True]
    log, exp_added, raised = [], [], []

    def add(one_shot, script):
        k = len(cbs)
        n = [0]

        def f(*a, **kw):
            assert a == (1, 'x') and kw == {'z': 3}, 'called with %r %r' % (a, kw)
            log.append(k)
            n[0] += 1
            if script:
                if script[0] == 'raise' or (script[0] == 'raise once' and n[0] == 1):
                    raised.append(k)
                    raise Boom(k)
                if script[0] == 'exit' and n[0] == 1:
                    raised.append(-1)
                    raise Exit(k)
                if script[0] == 'cancel' and script[1] < len(cbs):
                    cbs[script[1]].cancel()
                    live[script[1]] = False
                if script[0] == 'add':
                    ordered[0] = False
                    exp_added.append(add(script[1], []))
            return ['r', k]
        c = g.add(f, one_shot)
        assert isinstance(c, CancellableCallback) and bool(c) is True
        cbs.append(c)
        live.append(True)
        one.append(one_shot)
        return k
    for op in inp['ops']:
        if op[0] == 'add':
            reg.append(add(op[1], op[2]))
        elif op[0] == 'again':
            if op[1] in reg:
                r = g.add(cbs[op[1]], op[2])      # "Same callable can't be added twice. It will silently fail"
                assert r is cbs[op[1]]
        elif op[0] == 'cancel':
            if op[1] < len(cbs):
                cbs[op[1]].cancel()
                live[op[1]] = False
                assert not cbs[op[1]] and cbs[op[1]](1, 'x', z=3) is None
        elif op[0] == 'clean':
            g.remove_cancelled()
            reg = [k for k in reg if live[k]]
        elif op[0] == 'has':
            assert g.has_cancelled_callbacks == any(not live[k] for k in reg), 'has_cancelled_callbacks is %r' % (g.has_cancelled_callbacks,)
        else:
            reg = [k for k in reg if live[k]]
            log.clear()
            exp_added.clear()
            raised.clear()
            before, one_before = list(reg), list(one)
            try:
                res, exc = g(1, 'x', z=3), None
            except (Boom, Exit) as e:
                res, exc = None, e
            assert len(set(log)) == len(log), 'called %r' % (log,)
            assert set(log) <= set(before), 'called %r, registered were %r' % (log, before)
            if ordered[0]:
                assert log == sorted(log), 'called in order %r' % (log,)
            if exc is None:
                assert -1 not in raised and (inp['swallow'] or not raised), 'the failure of %r was swallowed' % (raised,)
                missed = [k for k in before if k not in log]
                assert not any(live[k] for k in missed), 'not called: %r' % (missed,)
                if inp['gather']:
                    assert isinstance(res, list) and len(res) == len(before), 'results %r for %r' % (res, before)
                    if ordered[0]:
                        for k, r in zip(before, res):
                            if k in log:
                                assert (isinstance(r, Boom) and r.args == (k,)) if k in raised else r == ['r', k], 'result of %d is %r' % (k, r)
                            else:
                                assert r is None
                else:
                    assert res is None
                left = []
            else:
                assert exc.args == (log[-1],), 'the failure of another callback'
                assert not (isinstance(exc, Boom) and inp['swallow']), 'a failure was not swallowed'
                left = [k for k in before if k not in log]
            reg = [k for k in before if (k in left) or not one_before[k]] + list(exp_added)
            if not ordered[0]:
                reg.sort()
            have = [k for c in g.callables for k in range(len(cbs)) if cbs[k] is c]
            want = [k for k in reg if live[k]]
            assert sorted(k for k in have if live[k]) == sorted(want), 'registered afterwards: %r instead of %r' % (have, want)
            assert set(have) <= set(reg) or any(not live[k] for k in before), 'registered afterwards: %r' % (have,)
            reg = have           # cancelled meanwhile: may be kept or not, but is called no more


def gen_cno(rng, size):
    for first in (0.0, 0.5, 3.0, 1e6):
        for fail in (False, True):
            yield {'interval': 1.0, 'start': first, 'steps': [[0, fail, .3], [.5, False, 0], [.5, False, 0], [.2, False, 0], [5, False, 0]]}
    for _ in range(1000 * size):
        yield {'interval': rng.choice([0, .5, 1, 10]), 'start': rng.choice([0.0, .1, 5, 1e5]),
               'steps': [[rng.choice([0, .1, .4, .5, .6, 1, 2, 10, 30]), rng.random() < .2, rng.choice([0, 0, .2, 3])] for _ in range(rng.randint(1, 10))]}


@case('a rate limited function', gen_cno, 'up to 10 calls at chosen times')
def run_cno(inp):
    with Clock(inp['start']) as clock:
        made = []
        fail = [False]
        took = [0]

        def f(*a, **kw):
            assert a == (1,) and kw == {'k': 2}
            made.append(clock.now)
            clock.now += took[0]
            if fail[0]:
                raise Boom()
            return [len(made)]
        c = CallNoOftenThan(inp['interval'], f)
        end = None
        for dt, fl, tk in inp['steps']:
            clock.now += dt
            fail[0], took[0] = fl, tk
            due = end is None or clock.now - end >= inp['interval']
            n = len(made)
            try:
                r, exc = c(1, k=2), False
            except Boom:
                r, exc = None, True
            assert len(made) - n == (1 if due else 0), 'call at %r, the one before ended at %r: %s' % (clock.now, end, 'called' if len(made) > n else 'not called')
            if due:
                assert exc == fl
                assert fl or r == [len(made)], 'the result is not given'
                end = clock.now
            else:
                assert r is None


if __name__ == '__main__':
    main('C14')
