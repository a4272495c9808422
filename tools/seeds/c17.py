seed('B17', 'C17', [('satella/coding/concurrent/timer.py', '''                delay = min(ts - time.monotonic(), 1)
''', '''                delay = ts - time.monotonic()
''')], '''
import time
from satella.coding.concurrent import Timer

got = []
Timer(60, lambda: got.append('late')).start()
time.sleep(2.5)
Timer(0.1, lambda: got.append('soon')).start()
time.sleep(4)
assert got == ['soon'], 'a timer of 0.1 s was not executed within 4 s: %r' % got
''', 'a timer is started while the only other one is due in a long time',
'a timer is executed only when another one, started earlier, is due')
