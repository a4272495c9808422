seed('B20', 'C20', [('satella/coding/recast_exceptions.py', '''            for from_, to in self.mapping:
                if issubclass(exc_type, from_):
''', '''            for from_, to in sorted(self.mapping, key=lambda pair: pair[1] is None):
                if issubclass(exc_type, from_):
''')], '''
from satella.coding import rethrow_as

try:
    with rethrow_as((LookupError, None), (Exception, ValueError)):
        raise KeyError(1)
except ValueError:
    raise AssertionError('the first pair that matches was not used')
''', 'several pairs match, and an earlier one silences', 'an exception that is to be silenced is translated by a later pair')
