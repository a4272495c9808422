seed('B04', 'C04', [('satella/coding/structures/heaps/time.py', '''            if item[0] == timestamp:
                ts, item = self.data.pop(index)
                heapq.heapify(self.data)
                return item
''', '''            if item[0] == timestamp:
                ts, item = self.data.pop(index)
                if index == 0:
                    heapq.heapify(self.data)
                return item
''')], '''
from satella.coding.structures import TimeBasedHeap
import itertools
for perm in itertools.permutations(range(6)):
    for gone in range(6):
        h = TimeBasedHeap()
        for t in perm:
            h.put(t, 'x%d' % t)
        assert h.pop_timestamp(gone) == 'x%d' % gone
        got = [h.pop()[0] for _ in range(5)]
        assert got == sorted(got), (perm, gone, got)
''', 'an entry is removed by timestamp from the middle of the heap, in an insertion order where shifting breaks the heap order',
     'later entries come out of order')
