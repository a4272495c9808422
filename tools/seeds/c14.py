seed('B14', 'C14', [('satella/coding/concurrent/callablegroup.py', '''        if callable_ in self.callables:
            return callable_
        self.callables[callable_] = one_shot
''', '''        self.callables[callable_] = one_shot
''')], '''
from satella.coding.concurrent import CallableGroup

calls = []
g = CallableGroup()
c = g.add(lambda: calls.append(1))
assert g.add(c, one_shot=True) is c      # "Same callable can't be added twice. It will silently fail"
g()
g()
assert calls == [1, 1], 'called %d times' % len(calls)
''', 'adding a callback again, as one-shot, and calling the group twice',
'the second registration replaces the first one, and the callback is lost after one call')
