seed('B21', 'C21', [('satella/coding/decorators/decorators.py', '''                    if now - ts > cache_duration:
                        with Monitor.release(fun.memoize_timestamps):
                            v = fun(*args, **kwargs)
''', '''                    if cache_duration < now - ts:
                        fun.memoize_timestamps[key] = now
                        with Monitor.release(fun.memoize_timestamps):
                            v = fun(*args, **kwargs)
''')], '''
from satella.coding.decorators import cache_memoize

now, n, fail = [0], [0], [False]


@cache_memoize(10, lambda: now[0])
def f():
    n[0] += 1
    if fail[0]:
        raise KeyError()
    return n[0]


assert f() == 1
now[0], fail[0] = 11, True
try:
    f()
    raise AssertionError('must fail')
except KeyError:
    pass
now[0], fail[0] = 12, False
assert f() == 3, 'a value 12 seconds old was served'
''', 'the value has expired and computing it anew fails', 'after a failed recomputation the expired value is served as if it were fresh')
