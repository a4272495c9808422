seed('B07', 'C07', [('satella/coding/structures/dictionaries/expiring.py', '''        for ts, key in self.key_to_expiration_time.pop_less_than(self.time_getter()):
            del self.data[key]
''', '''        now = self.time_getter()
        for ts, key in self.key_to_expiration_time.pop_less_than(now):
            if now - ts > self.expiration_timeout:
                continue    # was due long ago, nobody is going to ask for it anymore
            del self.data[key]
''')], '''
from satella.coding.structures import ExpiringEntryDict
for gap in (6, 9, 11, 30):
    now = [0]
    d = ExpiringEntryDict(5, time_getter=lambda: now[0])
    d['a'] = 1
    now[0] += gap
    d['b'] = 2
    assert list(d) == ['b'], list(d)
    assert len(d) == 1
    assert 'a' not in d
''', 'the dictionary is not touched for more than twice the timeout before it is cleaned up',
'expired entries stay in the dictionary forever: iteration and length include them')
