seed('B26', 'C26', [('satella/instrumentation/metrics/metric_types/summary.py', '''            self.calls_queue.pop()

        self.calls_queue.appendleft(time_taken)
''', '''            self.calls_queue.popleft()

        self.calls_queue.appendleft(time_taken)
''')], '''
from satella.instrumentation.metrics import getMetric
m = getMetric('seeded.summary', 'summary', last_calls=2, quantiles=[0.0], count_calls=False)
for v in (1, 5, 9):
    m.runtime(v)
v = next(iter(m.to_metric_data().values)).value
assert v == 5, v
''', 'more values than fit in the window', 'the window keeps the oldest values and forgets the one before the newest')
