seed('B16', 'C16', [('satella/coding/concurrent/atomic.py', '''        self.value **= other
        self.condition.notify_all()
        return self
''', '''        self.condition.notify_all()
        self.value **= other
        return self
''')], '''
import threading
import time
from satella.coding.concurrent import AtomicNumber


class Two:
    def __rpow__(self, base):
        time.sleep(0.5)
        return base ** 2


a = AtomicNumber(5)
got = []


def wait():
    a.wait_until_equal(25)
    got.append(1)


t = threading.Thread(target=wait, daemon=True)
t.start()
time.sleep(0.5)
a **= Two()
t.join(5)
assert int(a) == 25
assert got, 'the value is 25, and the thread waiting for that still waits'
''', 'the thread waiting is woken up, looks at the value and goes back to waiting before the new value is stored',
'a thread waiting for a value set by **= waits forever')
