import struct

from base import case, main
from satella.exceptions import NotEnoughBytes
from satella.parsing import BinaryParser

FMTS = ['B', '>H', '<i', '!q', '@f', '=H', '>d', 'c']


def gen_p(rng, size):
    for _ in range(2500 * size):
        n = rng.randint(0, 24)
        yield {'n': n, 'offset': rng.choice([None, 0, rng.randint(0, n + 2)]), 'length': rng.choice([None, None, 0, rng.randint(0, n + 2)]),
               'kind': rng.choice(['bytes', 'bytearray', 'memoryview']),
               'ops': [[rng.choice(['bytes', 'skip', 'assert', 'parser', 'reset', 'remaining', 'struct', 'struct', 'structs', 'whole', 'save', 'restore']),
                        rng.choice([0, 1, 2, 3, 8]), rng.choice(FMTS)] for _ in range(rng.randint(1, 10))]}


@case('parsing', gen_p, 'streams of up to 24 bytes, up to 10 operations, windows in windows')
def p(inp):
    data = bytes((i * 37 + 11) % 256 for i in range(inp['n']))
    stream = {'bytes': bytes, 'bytearray': bytearray, 'memoryview': memoryview}[inp['kind']](data)
    kw = {k: inp[k] for k in ('offset', 'length') if inp[k] is not None}
    off = inp['offset'] or 0
    try:
        b = BinaryParser(stream, **kw)
        assert off <= len(data), 'accepted'
    except NotEnoughBytes:
        assert off > len(data), 'refused'
        return
    win = data[off:] if inp['length'] is None else data[off:off + inp['length']]
    stack = [(b, win, 0)]
    pos, saved = 0, None
    for op, n, fmt in inp['ops']:
        b, win, pos = stack.pop()
        rest = win[pos:]
        need = struct.calcsize(fmt) * (2 if op == 'structs' else 1) if op.startswith('struct') else n
        new = None
        try:
            if op in ('bytes', 'skip', 'assert', 'parser'):
                out = {'bytes': b.get_bytes, 'skip': b.skip, 'assert': b.assert_has_bytes, 'parser': b.get_parser}[op](n)
                if op == 'bytes':
                    assert bytes(out) == rest[:n], out
                elif op == 'parser':
                    new = out, rest[:n], 0
                if op != 'assert':
                    pos += n
            elif op == 'reset':
                b.reset()
                pos, need = 0, 0
            elif op == 'remaining':
                need = 0
                assert b.get_remaining_bytes_count() == len(rest) and bytes(b.get_remaining_bytes()) == rest, bytes(b.get_remaining_bytes())
            elif op == 'whole':
                need = 0
                assert len(b) == len(win), '%d bytes instead of %d' % (len(b), len(win))
                assert bytes(b) == win, bytes(b)
            elif op == 'save':
                saved, need = (b, b.pointer, pos), 0
            elif op == 'restore':
                need = 0
                if saved is not None and saved[0] is b:
                    b.pointer, pos = saved[1], saved[2]
            elif op == 'struct':
                out = b.get_struct(fmt if n % 2 else struct.Struct(fmt))
                exp = struct.unpack(fmt, rest[:need])[0]
                assert out == exp or out != out, '%r instead of %r' % (out, exp)
                pos += need
            else:
                f2 = fmt + fmt[-1]
                need = struct.calcsize(f2)
                out = b.get_structs(f2)
                exp = struct.unpack(f2, rest[:need])
                assert repr(out) == repr(exp), '%r instead of %r' % (out, exp)
                pos += need
            assert need <= len(rest), 'bytes beyond the end'
        except NotEnoughBytes:
            if op == 'structs':
                need = struct.calcsize(fmt + fmt[-1])
            assert need > len(rest), 'refused to read %d of %d' % (need, len(rest))
        assert b.get_remaining_bytes_count() == len(win) - pos
        stack.append((b, win, pos))
        if new is not None:
            stack.append(new)
    for b, win, pos in stack:
        assert bytes(b.get_remaining_bytes()) == win[pos:]
    try:
        BinaryParser(b'1234').get_struct('BB')
        raise ValueError('two values taken for one')
    except AssertionError:
        pass


main('C22')
