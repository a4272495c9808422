seed('B08', 'C08', [('satella/coding/structures/dictionaries/cache_dict.py', '''        self.invalidate(key)
        if self.cache_failures:
            self.cache_missed.add(key)
            self.timestamp_data[key] = self.time_getter()
''', '''        if self.cache_failures:
            self.invalidate(key)
            self.cache_missed.add(key)
            self.timestamp_data[key] = self.time_getter()
''')], '''
from concurrent.futures import Future
from satella.coding.structures import CacheDict


class Now:
    def submit(self, f, *a):
        fut = Future()
        try:
            fut.set_result(f(*a))
        except Exception as e:
            fut.set_exception(e)
        return fut


source = {'a': 1}
now = [0]
c = CacheDict(1, 10, source.__getitem__, Now(), time_getter=lambda: now[0])
assert c['a'] == 1
del source['a']
import time
c.feed('a', 1, time.monotonic() - 5 if now[0] is None else 0)
now[0] = 5
assert c['a'] == 1          # stale: served, and refreshed in the background; the source says it is gone
try:
    r = c['a']
except KeyError:
    r = None
assert r is None, 'a value the source has disowned is still served: %r' % (r,)
assert 'a' not in list(c)
''', 'a background refresh of a stale entry fails with KeyError while failures are not cached',
'the disowned value is not evicted and keeps being served until it expires')
