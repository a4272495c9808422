seed('B12', 'C12', [('satella/coding/structures/immutable.py', '''            o = o ^ hash(key) ^ hash(value)
''', '''            o = (o * 31) ^ hash(key) ^ hash(value)
''')], '''
from satella.coding.structures import frozendict

a = frozendict({'x': 1, 'y': 2})
b = frozendict({'y': 2, 'x': 1})
assert a == b
assert hash(a) == hash(b) and len({a, b}) == 1, 'equal frozen dictionaries have different hashes'
''', 'two equal frozen dictionaries built in different orders', 'equal objects have different hashes, so that lookups miss')
