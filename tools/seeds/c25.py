seed('B25', 'C25', [('satella/coding/transforms/__init__.py', '''    while len(seq) % multiple_of:
        seq.append(pad_with_factory())
    return seq
''', '''    seq.extend([pad_with_factory()] * (-len(seq) % multiple_of))
    return seq
''')], '''
from satella.coding.transforms import pad_to_multiple_of_length
a = pad_to_multiple_of_length([1], 3, pad_with_factory=list)
assert a == [1, [], []] and a[1] is not a[2], a
''', 'padding by a factory, of two elements or more', 'all elements of the padding are the same object')
