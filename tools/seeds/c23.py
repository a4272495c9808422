seed('B23', 'C23', [('satella/coding/sequences/iterators.py', '''        if self.internal_pointer == len(self.list) and self.exhausted:
            raise StopIteration()
''', '''        if self.exhausted and self.internal_pointer + 1 >= len(self.list):
            raise StopIteration()
''')], '''
from satella.coding.sequences import ListWrapperIterator

w = ListWrapperIterator(iter([1, 2, 3]))
assert len(w) == 3
got = []
for _ in range(4):
    try:
        got.append(next(w))
    except StopIteration:
        break
assert got == [1, 2, 3], got
''', 'a wrapped iterator that is exhausted before its last element is asked for', 'the last element is never given out')
