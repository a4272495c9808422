seed('B15', 'C15', [('satella/coding/concurrent/futures/collection.py', '''            for fut in self.futures:
                e = fut.exception(timeout)
                if e is not None:
                    return e
            return None
''', '''            for fut in self.futures:
                e = fut.exception(timeout)
                if e is not None:
                    return e
                if timeout is not None and fut.done():
                    break
            return None
''')], '''
from concurrent.futures import Future
from satella.coding.concurrent import FutureCollection

a, b = Future(), Future()
a.set_result(1)
b.set_exception(ValueError('no'))
c = FutureCollection([a, b])
assert isinstance(c.exception(), ValueError)
assert isinstance(c.exception(timeout=1), ValueError), 'the exception of the second future is not seen'
''', 'a timeout is given, the first future succeeded and a later one failed',
'FutureCollection.exception says that there was no exception')
