seed('B13', 'C13', [('satella/coding/structures/proxy.py', '''    @wrap_operation
    def __rfloordiv__(self, other):
        return other // self.__obj
''', '''    @wrap_operation
    def __rfloordiv__(self, other):
        return int(other / self.__obj)
''')], '''
from satella.coding.structures import Proxy

assert 7 // Proxy(2) == 3
assert -7 // Proxy(2) == -7 // 2, 'floor division by a proxy gives %r' % (-7 // Proxy(2),)
assert (10 ** 20 + 1) // Proxy(1) == 10 ** 20 + 1
''', 'floor division of a negative or a very large number by a proxy',
'the result is truncated (and rounded to a float) instead of floored')
