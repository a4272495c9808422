"""C22: a binary parser reads exactly the bytes of its window, in order, and never anything else."""
import struct

from pyvc.api import *
from satella.exceptions import NotEnoughBytes
from satella.parsing import BinaryParser


def ok(ctx, out):
    ctx.check('does not fail', BoolVal(out[0] == 'ok'))
    return out[1]


class Piece:
    """the bytes [start, stop) of the stream"""
    def __init__(self, start, stop):
        self.start, self.stop = num_term(start), num_term(stop)


class Stream:
    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n

    def __getitem__(self, s):
        if not isinstance(s, slice) or s.step is not None:
            raise Unsupported('not a slice')
        return Piece(s.start, s.stop)


class St(struct.Struct):
    """a struct of any size"""
    def __new__(cls, fmt):
        return struct.Struct.__new__(cls, 'x')

    def __init__(self, fmt):
        struct.Struct.__init__(self, 'x')
        self.fmt = fmt
        self.n = cur().int('size')
        cur().assume(self.n.t >= 0)
        self.got = []
        self.r = (cur().obj('value'), ) if len(fmt.strip('<>!@=')) == 1 else (cur().obj('value1'), cur().obj('value2'))

    @property
    def format(self):
        return self.fmt

    @property
    def size(self):
        return self.n

    def unpack(self, p):
        self.got.append(p)
        return self.r


def a_parser(ctx):
    """a parser in any state its invariant allows"""
    total = ctx.int('total')
    ctx.assume(total.t >= 0)
    s = Stream(total)
    ctx.models[len] = lambda x: x.n if isinstance(x, Stream) else len(x)
    o = object.__new__(BinaryParser)
    o.b_stream, o.struct_cache = s, {}
    o.init_ofs, o.length, o.pointer = ctx.int('offset'), ctx.int('length'), ctx.int('pointer')
    ctx.assume(valid(o))
    return o


def valid(o):
    a, n, p, t = (num_term(v) for v in (o.init_ofs, o.length, o.pointer, o.b_stream.n))
    return And(a >= 0, n >= 0, a + n <= t, a <= p, p <= a + n)


def end(o):
    return num_term(o.init_ofs) + num_term(o.length)


def refused(ctx, out, must):
    """NotEnoughBytes exactly if it must be"""
    if out[0] == 'exc':
        ctx.reach('refused')
        ctx.check('refused only if there are not enough bytes', And(BoolVal(type(out[1]) is NotEnoughBytes), must))
        return True
    ctx.reach('given')
    ctx.check('nothing is given if there are not enough bytes', Not(must))
    return False


@contract('BinaryParser.__init__', ['BinaryParser.__init__', 'BinaryParser.__len__'], reach=['end', 'refused', 'given'])
def t_init(ctx):
    total = ctx.int('total')
    ctx.assume(total.t >= 0)
    ctx.models[len] = lambda x: x.n if isinstance(x, Stream) else len(x)
    s = Stream(total)
    how = ctx.choose(3)
    a = ctx.int('offset') if how else SNum(z3.IntVal(0))
    n = ctx.int('length') if how == 2 else None
    ctx.assume(And(a.t >= 0, BoolVal(True) if n is None else n.t >= 0))
    out = ctx.catch(BinaryParser, *[(s,), (s, a), (s, a, n)][how])
    if refused(ctx, out, a.t > total.t):
        return
    o = out[1]
    ctx.check('a window within the stream, at its start', And(valid(o), num_term(o.pointer) == a.t, num_term(o.init_ofs) == a.t))
    rest = total.t - a.t
    want = rest if n is None else If(n.t < rest, n.t, rest)
    ctx.check('as long as asked for and possible', And(num_term(o.length) == want, num_term(o.__len__()) == want, BoolVal(o.b_stream is s)))


@contract('BinaryParser: reading', ['BinaryParser.get_bytes', 'BinaryParser.skip', 'BinaryParser.assert_has_bytes', 'BinaryParser.get_parser', 'BinaryParser.reset',
                                    'BinaryParser.get_remaining_bytes_count', 'BinaryParser.get_remaining_bytes', 'BinaryParser.__bytes__'],
          reach=['end', 'refused', 'given'])
def t_read(ctx):
    o = a_parser(ctx)
    p0, a0, n0, s0 = num_term(o.pointer), num_term(o.init_ofs), num_term(o.length), o.b_stream
    k = ctx.int('k')
    ctx.assume(k.t >= 0)
    short = p0 + k.t > end(o)
    w = ctx.choose(7)
    moved = BoolVal(True)
    if w < 4:
        out = ctx.catch([o.get_bytes, o.skip, o.assert_has_bytes, o.get_parser][w], k)
        if refused(ctx, out, short):
            ctx.check('nothing is consumed', num_term(o.pointer) == p0)
        else:
            r = out[1]
            ctx.check('as many are consumed as given', num_term(o.pointer) == (p0 if w == 2 else p0 + k.t))
            if w == 0:
                ctx.check('the next bytes', And(BoolVal(isinstance(r, Piece)), r.start == p0, r.stop == p0 + k.t))
            elif w == 3:
                ctx.check('a parser of the next bytes', And(BoolVal(isinstance(r, BinaryParser) and r is not o), valid(r), num_term(r.init_ofs) == p0, num_term(r.pointer) == p0,
                                                            num_term(r.length) == k.t, BoolVal(r.b_stream is s0)))
            else:
                ctx.check('gives None', BoolVal(r is None))
    elif w == 4:
        ok(ctx, ctx.catch(o.reset))
        ctx.check('back at the start', num_term(o.pointer) == a0)
    elif w == 5:
        c = ok(ctx, ctx.catch(o.get_remaining_bytes_count))
        r = ok(ctx, ctx.catch(o.get_remaining_bytes))
        ctx.check('what remains', And(num_term(c) == end(o) - p0, r.start == p0, r.stop == end(o), num_term(o.pointer) == p0))
    else:
        ctx.models[bytes] = lambda x: ('bytes', x)
        r = ok(ctx, ctx.catch(o.__bytes__))
        ctx.check('bytes of the whole window', BoolVal(isinstance(r, tuple) and r[0] == 'bytes'))
        ctx.check('all of them', And(r[1].start == a0, r[1].stop == end(o), num_term(o.pointer) == p0))
    ctx.check('stays within the window', valid(o))
    ctx.check('the window stays', And(num_term(o.init_ofs) == a0, num_term(o.length) == n0, BoolVal(o.b_stream is s0)))


@contract('BinaryParser: structures', ['BinaryParser.get_struct', 'BinaryParser.get_structs', 'BinaryParser._to_struct'],
          reach=['end', 'refused', 'given', 'not single', 'cached'])
def t_struct(ctx):
    o = a_parser(ctx)
    p0, a0, n0 = num_term(o.pointer), num_term(o.init_ofs), num_term(o.length)
    fmt = ('B', '>H', '<i', '!q', '@f', '=d', 'BB', '>HH')[ctx.choose(8)]
    single = fmt not in ('BB', '>HH')
    made = {}

    def make(f):
        ctx.check('a format is compiled once', BoolVal(f not in made))
        made[f] = St(f)
        return made[f]
    ctx.models[struct.Struct] = make
    given = St(fmt) if ctx.choose(2) else None
    f = ctx.choose(2)
    out = ctx.catch((o.get_struct, o.get_structs)[f], given or fmt)
    if f == 0 and not single:
        ctx.reach('not single')
        ctx.check('more than one value is refused', And(BoolVal(out[0] == 'exc' and isinstance(out[1], AssertionError)), num_term(o.pointer) == p0))
        return
    st = given or made[fmt]
    ctx.check('compiled if it is not yet', BoolVal((given is None) == (fmt in made)))
    if refused(ctx, out, p0 + st.n.t > end(o)):
        ctx.check('nothing is consumed', And(num_term(o.pointer) == p0, BoolVal(not st.got)))
        return
    ctx.check('parsed from the next bytes', And(BoolVal(len(st.got) == 1), st.got[0].start == p0, st.got[0].stop == p0 + st.n.t))
    ctx.check('the values', BoolVal(out[1] is (st.r[0] if f == 0 else st.r)))
    ctx.check('as many are consumed', And(num_term(o.pointer) == p0 + st.n.t, valid(o), num_term(o.init_ofs) == a0, num_term(o.length) == n0))
    out = ctx.catch(o.get_structs, given or fmt)
    if out[0] == 'ok':
        ctx.reach('cached')
        ctx.check('the next of them', And(BoolVal(len(st.got) == 2), st.got[1].start == p0 + st.n.t, st.got[1].stop == p0 + 2 * st.n.t))
