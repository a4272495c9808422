seed('B11', 'C11', [('satella/coding/deleters.py', '''            index_delta = 0
            for index, element in enumerate(self.list_to_process[:]):
                if index in self.indices_to_delete:
                    self.list_to_process.pop(index - index_delta)
                    index_delta += 1
''', '''            for index_delta, index in enumerate(self.indices_to_delete):
                if index - index_delta < len(self.list_to_process):
                    self.list_to_process.pop(index - index_delta)
''')], '''
from satella.coding.deleters import ListDeleter

lst = list(range(12))
with reversed(ListDeleter(lst)) as ld:
    for v in ld:
        if v in (2, 9, 8):
            ld.delete()
assert lst == [0, 1, 3, 4, 5, 6, 7, 10, 11], lst
''', 'marking indices which a set does not give back in ascending order (8 or above together with smaller ones)',
'the wrong elements are removed')
