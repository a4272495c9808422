seed('B10', 'C10', [('satella/coding/structures/sparse_matrix.py', '''        next_row = self.no_rows
''', '''        next_row = len(self.rows_dict)
''')], '''
from satella.coding.structures import SparseMatrix

sm = SparseMatrix()
sm[0, 0] = 1
sm[0, 2] = 2
sm.append_row([3])
assert list(sm) == [[1], [None], [2], [3]], 'appending a row gave %r' % (list(sm),)
''', 'appending a row to a matrix which has a row without elements',
'the appended row overwrites an existing one instead of being added at the bottom')
