"""
A controlled clock: import before satella.  time.time, time.monotonic (and their _ns forms), time.perf_counter and time.sleep
are replaced in the module time itself; outside `with Clock(...)` they are the real ones.
"""
import time

_real = {k: getattr(time, k) for k in ('time', 'monotonic', 'time_ns', 'monotonic_ns', 'perf_counter', 'sleep')}
ACTIVE = [None]


class Clock:
    def __init__(self, start=1000.0, tick=0.0):
        self.now, self.tick, self.slept, self.on_sleep = float(start), tick, [], None

    def read(self):
        r = self.now
        self.now += self.tick
        return r

    def sleep(self, s):
        if s < 0:
            raise ValueError('sleep length must be non-negative')
        self.slept.append(s)
        self.now += s
        if self.on_sleep is not None:
            self.on_sleep(s)

    def __enter__(self):
        ACTIVE[0] = self
        return self

    def __exit__(self, *a):
        ACTIVE[0] = None
        return False


def _mk(k):
    real = _real[k]
    if k == 'sleep':
        return lambda s: real(s) if ACTIVE[0] is None else ACTIVE[0].sleep(s)
    if k.endswith('_ns'):
        return lambda: real() if ACTIVE[0] is None else int(ACTIVE[0].read() * 1e9)
    return lambda: real() if ACTIVE[0] is None else ACTIVE[0].read()


for _k in _real:
    setattr(time, _k, _mk(_k))
