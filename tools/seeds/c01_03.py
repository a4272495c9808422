seed('B01', 'C01', [('satella/coding/concurrent/id_allocator.py', '''        if x >= self.bound:
            self._extend_the_bound_to(x + 1)
            self.free_ints.remove(x)
            self.ints_allocated.add(x)
''', '''        if x >= self.bound:
            self._extend_the_bound_to(x + 1)
            self.ints_allocated.add(x)
''')], '''
from satella.coding.concurrent import IDAllocator
a = IDAllocator()
a.mark_as_allocated(3)
got = {a.allocate_int() for _ in range(20)}
assert 3 not in got, '3 was handed out while allocated'
assert len(got) == 20
''', 'an integer beyond the current pool is reserved by hand, then the pool is drained',
     'the reserved integer stays in the free pool and is handed out a second time')
seed('B02', 'C02', [('satella/coding/concurrent/atomic.py', '''    @Monitor.synchronized
    def __isub__(self, other: int) -> 'AtomicNumber':
        self.value -= other
        self.condition.notify_all()
        return self
''', '''    def __isub__(self, other: int) -> 'AtomicNumber':
        with Monitor.acquire(self):
            current = self.value
        self.value = current - other
        self.condition.notify_all()
        return self
''')], '''
import threading
from satella.coding.concurrent import AtomicNumber
# one thread is stopped between reading and writing, deterministically: the operand blocks in the subtraction
class Slow(int):
    pass
entered, go = threading.Event(), threading.Event()
class Operand:
    def __rsub__(self, other):
        entered.set()
        go.wait(10)
        return other - 1
a = AtomicNumber(10)
def t1():
    global a
    a -= Operand()
th = threading.Thread(target=t1)
th.start()
entered.wait(10)
def t2():
    global a
    a -= 5
th2 = threading.Thread(target=t2)
th2.start()
th2.join(1)         # with the lock held by t1, t2 has to wait
go.set()
th.join(10); th2.join(10)
assert a.value == 4, a.value
''', 'two threads subtract at the same time, the second one between the read and the write of the first',
     'an update is lost')
seed('B03', 'C03', [('satella/coding/concurrent/monitor.py', '''                with cls.acquire(monitor):
                    return fun(*args, **kwargs)
''', '''                lock = cls.acquire(monitor)
                lock.__enter__()
                result = fun(*args, **kwargs)
                lock.__exit__(None, None, None)
                return result
''')], '''
from satella.coding.concurrent import Monitor
m = Monitor()
@Monitor.synchronize_on(m)
def f():
    raise ValueError()
try:
    f()
except ValueError:
    pass
assert m._monitor_lock.acquire(timeout=1), 'the lock was not given back'
''', 'the protected function raises', 'the lock is never released when the body fails')
