seed('B06', 'C06', [('satella/coding/structures/dictionaries/objects.py', '''        try:
            prev_val = self.data[key]
            del self.reverse_data[prev_val]
        except KeyError:
            pass
''', '''        prev_val = self.data.get(key)
        if prev_val:
            del self.reverse_data[prev_val]
''')], '''
from satella.coding.structures import TwoWayDictionary
for first in (0, '', 'x', 7, (), False):
    d = TwoWayDictionary()
    d['k'] = first
    d['k'] = 'other'
    assert dict(d.items()) == {'k': 'other'}
    assert dict(d.reverse.items()) == {'other': 'k'}, dict(d.reverse.items())
    d['l'] = first
    assert d.reverse[first] == 'l'
''', 'a key is reassigned whose previous value is falsy (0, empty string)', 'the previous value stays in the reverse mapping')
