seed('B29', 'C29', [('satella/coding/environment.py', '''        if val in self.variables:
            if self.variables[val] is THEY_HATIN:
                return False
            return True
''', '''        if self.variables.get(val, THEY_HATIN) is not THEY_HATIN:
            return True
''')], '''
import warnings
warnings.simplefilter('ignore')
from satella.coding import Context
ctx = Context.get()
ctx.value = 5
with Context() as inner:
    del inner.value
    assert not inner.does_exist('value')
    try:
        inner.value
    except AttributeError:
        pass
    else:
        raise AssertionError('it is still there')
assert ctx.value == 5
''', 'a variable of an outer layer, deleted in an inner one', 'does_exist() tells that a variable deleted in this layer exists')
