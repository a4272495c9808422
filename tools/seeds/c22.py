seed('B22', 'C22', [('satella/parsing.py', '''        advance = self.pointer - self.init_ofs
        remaining = self.length - advance
''', '''        advance = self.pointer - self.init_ofs
        remaining = self.length - advance if advance else len(self.b_stream) - self.pointer
''')], '''
from satella.parsing import BinaryParser

p = BinaryParser(b'0123456789').get_parser(4)
assert p.get_remaining_bytes() == b'0123', p.get_remaining_bytes()
''', 'a window that ends before the stream, asked before anything was read', 'the remaining bytes reach beyond the window')
