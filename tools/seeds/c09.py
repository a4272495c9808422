seed('B09', 'C09', [('satella/coding/structures/dictionaries/writeback_cache.py', '''            if item not in self.cache and self.store_key_errors:
                raise KeyError()
            else:
                return self.cache[item]
''', '''            if item not in self.cache and self.store_key_errors:
                raise KeyError()
            else:
                return self.cache.get(item)
''')], '''
from concurrent.futures import ThreadPoolExecutor
from satella.coding.structures import ExclusiveWritebackCache

d = {'a': 1}
ex = ThreadPoolExecutor(max_workers=1)
c = ExclusiveWritebackCache(d.__setitem__, d.__getitem__, lambda k: d.pop(k, None), executor=ex, store_key_errors=False)
assert c['a'] == 1
del c['a']
try:
    r = c['a']
except KeyError:
    pass
else:
    raise AssertionError('a deleted key reads as %r' % (r,))
''', 'reading a key deleted before, with store_key_errors=False',
'a deleted key is reported as present with value None instead of KeyError')
