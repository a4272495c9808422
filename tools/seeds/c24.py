seed('B24', 'C24', [('satella/coding/predicates.py', '''    __rmod__ = make_operation_two_args(operator.mod, swap_order=True)
''', '''    __rmod__ = make_operation_two_args(operator.mod)
''')], '''
from satella.coding.predicates import x
assert (7 % x)(4) == 3, (7 % x)(4)
''', 'a value on the left side of %, with x on the right', 'the operands are exchanged')
