"""C28: file helpers leave exactly the documented contents, close what they open, and leave the process as it was."""
import codecs
import os
import re
import shutil
import subprocess
import psutil
from pyvc.api import *
from satella import files as FS, processes as PR
from satella.exceptions import ProcessFailed, ResourceLocked
from satella.os import pidlock as PL

N = num_term
P = '/nonexistent-c28/file'


class Boom(Exception):
    pass


class Plain:
    pass


class File:
    """a file that is open: what is read is arbitrary, what is written is recorded"""

    def __init__(self, ctx, log, content, failing=None, start=0):
        self.ctx, self.log, self.content, self.failing, self.open, self.pos = ctx, log, content, failing, True, start

    def _do(self, what, *a):
        if not self.open:
            raise ValueError('I/O operation on closed file.')
        self.log.append((what, *a))
        if what == self.failing:
            raise Boom(what)

    def read(self, *a):
        self._do('read', *a)
        self.pos = self.ctx.int('pos')
        return self.content

    def write(self, data):
        self._do('write', data)
        self.pos = self.ctx.int('pos')
        return self.content

    def seek(self, o, whence=0):
        self._do('seek', o, whence)
        self.pos = o if type(whence) is int and whence == 0 else self.ctx.int('pos')
        return self.pos

    def truncate(self, size=None):
        self._do('truncate', size)
        return self.content

    def tell(self):
        if not self.open:
            raise ValueError('I/O operation on closed file.')
        return self.pos

    def flush(self):
        if not self.open:
            raise ValueError('I/O operation on closed file.')

    def close(self):
        self.open = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def disk(ctx, content, failing=None, errors=()):
    """files as they are opened: [(file, mode, encoding)]; opening may fail"""
    opened, log = [], []
    error = errors[ctx.choose(len(errors))] if errors else None

    def open_(path, mode='r', *a, **k):
        ctx.check('the file asked for', BoolVal(path == P))
        if error is not None:
            raise error
        f = File(ctx, log, content, failing)
        opened.append((f, mode, a, k))
        return f

    def copen(path, mode='r', encoding=None, *a, **k):
        ctx.check('the file asked for', BoolVal(path == P))
        if error is not None:
            raise error
        f = File(ctx, log, content, failing)
        opened.append((f, mode, (encoding, *a), k))
        return f
    ctx.models[open], ctx.models[codecs.open] = open_, copen
    return opened, log, error


def all_closed(ctx, opened):
    ctx.check('every file opened is closed', BoolVal(not any(f[0].open for f in opened)))


@contract('read_in_file', ['read_in_file'], reach=['end', 'read', 'default', 'missing', 'failed'])
def t_read(ctx):
    content, dflt = ctx.obj('content'), [Plain(), None][ctx.choose(2)]
    isdir = bool(ctx.choose(2))
    ctx.models[os.path.isdir] = lambda p: isdir
    failing = [None, 'read'][ctx.choose(2)]
    opened, log, error = disk(ctx, content, failing, [None, FileNotFoundError(2, 'x'), PermissionError(13, 'x')])
    enc, given = [None, 'utf-8'][ctx.choose(2)], ctx.choose(2)
    out = ctx.catch(FS.read_in_file, P, enc, dflt) if given else ctx.catch(FS.read_in_file, P, enc)
    all_closed(ctx, opened)
    if isdir or isinstance(error, FileNotFoundError):
        if given:
            ctx.reach('default')
            ctx.check('the default', BoolVal(out[0] == 'ok' and out[1] is dflt))
        else:
            ctx.reach('missing')
            ctx.check('reported as missing', BoolVal(out[0] == 'exc' and isinstance(out[1], FileNotFoundError)))
    elif error is not None or failing:
        ctx.reach('failed')
        ctx.check('a failure is passed on', BoolVal(out[0] == 'exc' and (out[1] is error or isinstance(out[1], Boom))))
    else:
        ctx.reach('read')
        ctx.check('the content, read once and entire', And(BoolVal(out[0] == 'ok' and log == [('read',)]), bool_term(out[1] == content)) if out[0] == 'ok' else BoolVal(False))
        ctx.check('as bytes exactly if there is no encoding', BoolVal(all(('b' in m) == (enc is None) and (enc is None or enc in a or enc in k.values()) for _, m, a, k in opened)))


@contract('write_to_file', ['write_to_file'], reach=['end', 'written', 'failed'])
def t_write(ctx):
    data = ctx.obj('data')
    failing = [None, 'write'][ctx.choose(2)]
    opened, log, error = disk(ctx, ctx.obj('n'), failing, [None, PermissionError(13, 'x')])
    enc = [None, 'utf-8'][ctx.choose(2)]
    out = ctx.catch(FS.write_to_file, P, data, enc)
    all_closed(ctx, opened)
    if error is not None or failing:
        ctx.reach('failed')
        ctx.check('a failure is passed on', BoolVal(out[0] == 'exc' and (out[1] is error or isinstance(out[1], Boom))))
    else:
        ctx.reach('written')
        ctx.check('written once, exactly the data', And(BoolVal(out[0] == 'ok' and len(log) == 1 and len(opened) == 1 and log[0][0] == 'write'), bool_term(log[0][1] == data)) if log else BoolVal(False))
        ctx.check('the file is begun anew, in that encoding', BoolVal(all('w' in m and (enc is None) == (not a and not k) for _, m, a, k in opened)))


@contract('write_out_file_if_different', ['write_out_file_if_different'], reach=['end', 'missing', 'same', 'different', 'failed'])
def t_different(ctx):
    content, data = ctx.obj('content'), ctx.obj('data')
    enc = [None, 'utf-8'][ctx.choose(2)]
    state, wrote = ctx.choose(3), []
    odd = PermissionError(13, 'x')

    def read(path, encoding=None, *a, **k):
        ctx.check('read as it is written', BoolVal(path == P and encoding == enc))
        if state == 0:
            raise FileNotFoundError(2, 'x')
        if state == 1:
            raise odd
        return content

    def write(path, d, encoding=None):
        ctx.check('written where asked, in the encoding asked for', BoolVal(path == P and encoding == enc))
        wrote.append(d)
    ctx.models[FS.read_in_file], ctx.models[FS.write_to_file] = read, write
    out = ctx.catch(FS.write_out_file_if_different, P, data, enc)
    if state == 1:
        ctx.reach('failed')
        ctx.check('a failure is passed on, nothing is written', BoolVal(out == ('exc', odd) and not wrote))
        return
    ctx.check('does not fail', BoolVal(out[0] == 'ok'))
    ctx.check('at most one write', BoolVal(len(wrote) < 2))
    ctx.check('tells whether it wrote', BoolVal(out[1] is bool(wrote)))
    for d in wrote:
        ctx.check('the data', d == data)
    if state == 0:
        ctx.reach('missing')
        ctx.check('written if missing', BoolVal(bool(wrote)))
    elif wrote:
        ctx.reach('different')
        ctx.check('written if different', Not(bool_term(content == data)))
    else:
        ctx.reach('same')
        ctx.check('not written if the same', bool_term(content == data))


@contract('try_unlink', ['try_unlink'], reach=['end', 'deleted', 'not deleted', 'odd'])
def t_unlink(ctx):
    isdir = bool(ctx.choose(2))
    err = [None, FileNotFoundError(2, 'x'), PermissionError(13, 'x'), Boom()][ctx.choose(4)]
    log = []

    def gone(what):
        def f(p, *a, **k):
            log.append((what, p))
            if err is not None:
                raise err
        return f
    ctx.models[os.path.isdir], ctx.models[shutil.rmtree], ctx.models[os.unlink], ctx.models[os.remove] = lambda p: isdir, gone('tree'), gone('file'), gone('file')
    out = ctx.catch(FS.try_unlink, P)
    ctx.check('exactly what was asked for is deleted', BoolVal(log == [('tree' if isdir else 'file', P)]))
    if isinstance(err, Boom):
        ctx.reach('odd')
        ctx.check('passed on', BoolVal(out == ('exc', err)))
    elif err:
        ctx.reach('not deleted')
        ctx.check('told', BoolVal(out == ('ok', False)))
    else:
        ctx.reach('deleted')
        ctx.check('told', BoolVal(out == ('ok', True)))


@contract('jump_to_directory', ['jump_to_directory.__init__', 'jump_to_directory.__enter__', 'jump_to_directory.__exit__'], reach=['end', 'raised', 'nested'])
def t_jump(ctx):
    """from any directory; nested jumps; the body may move elsewhere and may raise"""
    start, second = ctx.obj('start', str), ctx.obj('second', str)
    at, made = [start], []

    def chdir(p):
        at[0] = p
    ctx.models[os.getcwd], ctx.models[os.chdir] = lambda: at[0], chdir
    ctx.models[os.makedirs] = lambda p, mode=0o777, exist_ok=False: made.append((p, exist_ok))
    nested, fails, moves = ctx.choose(2), [None, Boom(), KeyboardInterrupt()][ctx.choose(3)], ctx.choose(2)

    early = ctx.choose(2)

    def body():
        jump = FS.jump_to_directory('one')
        if early:       # the process moves between making it and using it
            at[0] = second
        with jump as j:
            ctx.check('inside', BoolVal(at[0] == 'one'))
            if nested:
                ctx.reach('nested')
                with FS.jump_to_directory('two'):
                    ctx.check('inside the second', BoolVal(at[0] == 'two'))
                    if fails:
                        raise fails
                ctx.check('back in the first', BoolVal(at[0] == 'one'))
            if moves:
                at[0] = 'elsewhere'
            if fails:
                raise fails
    out = ctx.catch(body)
    ctx.check('created, if need be', BoolVal([m[0] for m in made] == ['one', 'two'][:1 + nested] and all(m[1] for m in made)))
    ctx.check('back where it was', BoolVal(at[0] is (second if early else start)))
    if fails:
        ctx.reach('raised')
        ctx.check('exceptions pass', BoolVal(out == ('exc', fails)))
    else:
        ctx.check('does not fail', BoolVal(out[0] == 'ok'))


# ---- files closed after each use ------------------------------------------------------------------------------------
MODES = {'w': 'a', 'wb': 'ab', 'w+': 'a+', 'wb+': 'ab+', 'a': 'a', 'ab': 'ab', 'a+': 'a+', 'ab+': 'ab+'}


@contract('AutoflushFile', ['AutoflushFile.__init__', 'AutoflushFile.write', 'AutoflushFile.read', 'AutoflushFile.seek', 'AutoflushFile.truncate', 'AutoflushFile.readall', 'AutoflushFile.close',
                            'AutoflushFile._open_file', 'AutoflushFile._close_file', 'close_file_after', 'value_error_on_closed_file'],
          reach=['end', 'done', 'failed', 'closed', 'refused'])
def t_auto(ctx):
    """any operation on a file at any position, after which the file is closed and the position known"""
    mode = (list(MODES) + ['r'])[ctx.choose(9)]
    opened, log = [], []
    end, result = ctx.int('end'), ctx.obj('result')
    fails = [None]

    def open_(path, m='r', *a, **k):
        f = File(ctx, log, result, fails[0], end)
        opened.append((f, path, m, k))
        return f
    ctx.models[open] = open_
    out = ctx.catch(FS.AutoflushFile, P, mode, encoding='utf-8')
    all_closed(ctx, opened)
    if mode == 'r':
        ctx.reach('refused')
        ctx.check('refused, and nothing opened', BoolVal(out[0] == 'exc' and isinstance(out[1], ValueError) and not opened))
        return
    f = ok(ctx, out)
    ctx.check('begun anew exactly if asked to', BoolVal(('w' in mode) == any('w' in m for _, _, m, _ in opened)))
    n = len(opened)
    log.clear()
    known = ctx.int('position')
    f.__dict__['pointer'] = known
    if ctx.choose(2):
        ctx.reach('closed')
        ok(ctx, ctx.catch(f.close))
        all_closed(ctx, opened)
        n = len(opened)
        for op, a in (('write', ('x',)), ('read', ()), ('seek', (0,)), ('truncate', (0,)), ('readall', ())):
            out = ctx.catch(getattr(type(f), op), f, *a)
            ctx.check('nothing can be done with a closed file', BoolVal(out[0] == 'exc' and isinstance(out[1], ValueError) and len(opened) == n))
        return
    op = ['write', 'read', 'seek', 'truncate', 'readall'][ctx.choose(5)]
    arg = ctx.obj('data') if op == 'write' else ctx.int('arg')
    if ctx.choose(2):
        fails[0] = 'read' if op == 'readall' else op
    if op == 'seek' and fails[0]:
        return      # positioning uses it, too
    out = ctx.catch(getattr(type(f), op), f, *([] if op == 'readall' else [arg]))
    all_closed(ctx, opened)
    ctx.check('opened once, not truncated', BoolVal(len(opened) == n + 1 and opened[-1][1] == P and opened[-1][2] == MODES[mode] and opened[-1][3] == {'encoding': 'utf-8'}))
    ctx.check('from the position it had', And(BoolVal(len(log) == 2 and log[0][0] == 'seek'), N(log[0][1]) == known.t) if log else BoolVal(False))
    ctx.check('the position is remembered', N(f.__dict__['pointer']) == N(opened[-1][0].pos))
    if fails[0]:
        ctx.reach('failed')
        ctx.check('a failure is passed on', BoolVal(out[0] == 'exc' and isinstance(out[1], Boom)))
        return
    ctx.reach('done')
    v = ok(ctx, out)
    what = log[-1]
    ctx.check('the operation asked for', BoolVal(what[0] == ('read' if op == 'readall' else op)))
    if op == 'write':
        ctx.check('the data', what[1] == arg)
    elif op != 'readall':
        ctx.check('the argument', N(what[1]) == arg.t)
    if op == 'seek':
        ctx.check('the new position', N(v) == arg.t)
    else:
        ctx.check('the result', v == result)


def ok(ctx, out):
    ctx.check('does not fail', BoolVal(out[0] == 'ok'))
    return out[1]


# ---- processes ------------------------------------------------------------------------------------------------------
@contract('PIDFileLock', ['PIDFileLock.__init__', 'PIDFileLock.acquire', 'PIDFileLock.release', 'PIDFileLock.__enter__', 'PIDFileLock.__exit__'],
          reach=['end', 'acquired', 'held', 'reclaimed'])
def t_pid(ctx):
    """the lock file absent, or there with any of: a living process, a dead one, garbage, twice in a row"""
    found = [[], ['7'], ['8\n'], ['junk'], [''], ['8', '7'], ['junk', '8\n'], ['8', ' 7 \n']][ctx.choose(8)]
    there = list(found)
    alive = {7, 70}
    log, text = [], []

    class Held:
        def write(self, x):
            text.append(x)

        def close(self):
            log.append('closed')

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

    class Proc:
        def __init__(self, pid):
            self.pid = pid
    p = os.path.join('/nonexistent-c28', 'x.pid')

    def os_open(path, flags, *a):
        ctx.check('created, or refused if there', BoolVal(path == p and flags & os.O_CREAT and flags & os.O_EXCL and flags & (os.O_WRONLY | os.O_RDWR)))
        if there:
            raise FileExistsError(17, 'x')
        log.append('created')
        return 33

    def open_(path, mode='r', *a, **k):
        ctx.check('only read', BoolVal(path == p and mode.replace('t', '') == 'r'))
        return File(ctx, [], there[0])

    def unlink(path):
        ctx.check('only the lock', BoolVal(path == p))
        log.append('gone')
        if there:
            there.pop(0)
    ctx.models[os.open], ctx.models[open], ctx.models[os.unlink], ctx.models[os.remove] = os_open, open_, unlink, unlink
    ctx.models[os.fdopen], ctx.models[os.getpid] = lambda fd, mode='r': Held(), lambda: 12
    ctx.models[psutil.process_iter] = lambda *a, **k: [Proc(x) for x in sorted(alive)]
    lock = PL.PIDFileLock('x.pid', '/nonexistent-c28')
    out = ctx.catch(lock.release)
    ctx.check('not released before it is acquired', BoolVal(out[0] == 'exc' and isinstance(out[1], RuntimeError) and not log))
    out = ctx.catch(lock.acquire)
    living = [x for x in found if x.strip() == '7']
    if living:
        ctx.reach('held')
        ctx.check('refused, naming the holder', BoolVal(out[0] == 'exc' and isinstance(out[1], ResourceLocked) and out[1].pid == 7 and out[1].is_alive is True))
        ctx.check('the lock of the living is left alone', BoolVal(log.count('gone') == len(found) - 1 and 'created' not in log))
        out = ctx.catch(lock.release)
        ctx.check('nothing to release', BoolVal(out[0] == 'exc' and isinstance(out[1], RuntimeError) and log.count('gone') == len(found) - 1))
        return
    ctx.check('acquired', BoolVal(out[0] == 'ok'))
    ctx.check('the dead are cleared away, then it is created, and closed', BoolVal(log == ['gone'] * len(found) + ['created', 'closed'] and ''.join(text).strip() == '12'))
    if found:
        ctx.reach('reclaimed')
    ctx.reach('acquired')
    if ctx.choose(2):
        ok(ctx, ctx.catch(lock.release))
    else:
        ok(ctx, ctx.catch(lock.__exit__, None, None, None))
    ctx.check('deleted', BoolVal(log[-1] == 'gone' and log.count('gone') == len(found) + 1))
    out = ctx.catch(lock.release)
    ctx.check('not released twice', BoolVal(out[0] == 'exc' and isinstance(out[1], RuntimeError) and log.count('gone') == len(found) + 1))


@contract('call_and_return_stdout', ['call_and_return_stdout'], reach=['end', 'timeout', 'code', 'output'])
def t_call(ctx):
    chunks = [b'ab', b'c\xc4', b'd'][:ctx.choose(4)]
    if chunks:
        chunks[-1] = b'z'
    code, expected = ctx.int('code'), ctx.int('expected')
    checked, limit = ctx.choose(2), ctx.choose(2)
    late = ctx.choose(2) if limit else 0
    log = []

    class Proc:
        returncode = code

        def wait(self, timeout=None):
            log.append(('wait', timeout))
            if timeout is not None and late and ('kill',) not in log:
                raise subprocess.TimeoutExpired('x', timeout)
            return code

        def kill(self):
            log.append(('kill',))

    class Fut:
        def result(self):
            log.append(('read',))

    def popen(args, **k):
        log.append(('popen', args, k))
        return Proc()

    def reader(proc, lst):
        lst.extend(chunks)
        return Fut()
    ctx.models[subprocess.Popen], ctx.models[PR.read_nowait], ctx.models[PR.parse_time_string] = popen, reader, lambda x: 5.0
    enc = [None, 'latin-1'][ctx.choose(2)]
    out = ctx.catch(PR.call_and_return_stdout, ['prog'], '5s' if limit else None, enc, expected if checked else None, cwd='/x')
    ctx.check('started once, as asked', BoolVal(log[0] == ('popen', ['prog'], {'cwd': '/x', 'stdout': subprocess.PIPE}) and sum(x[0] == 'popen' for x in log) == 1))
    ctx.check('all of the output is waited for', BoolVal(('read',) in log))
    ctx.check('within the limit', BoolVal(('wait', 5.0 if limit else None) in log))
    if late:
        ctx.reach('timeout')
        ctx.check('ended and reported', BoolVal(isinstance(out[1], TimeoutError) and log.index(('kill',)) < log.index(('wait', None))))
    elif out[0] == 'exc':
        ctx.reach('code')
        ctx.check('only if the code is not the one expected', And(BoolVal(bool(checked) and isinstance(out[1], ProcessFailed)), code.t != expected.t))
        ctx.check('the code', BoolVal(out[1].rc is code))
    else:
        ctx.reach('output')
        want = b''.join(chunks)
        ctx.check('all of the output', BoolVal(out[1] == (want if enc is None else want.decode('latin-1'))))
        ctx.check('the code is the one expected', code.t == expected.t if checked else BoolVal(True))


# ---- finding files --------------------------------------------------------------------------------------------------
@contract('find_files', ['find_files', '_cond_join'], reach=['end', 'found'], max_paths=6000)
def t_find(ctx):
    """a directory of up to two entries, with one below, on a file system that is modelled"""
    kinds = [ctx.choose(3) for _ in range(ctx.choose(3))]
    tree = {'/top': []}
    names = []
    for i, k in enumerate(kinds):
        tree['/top'].append('e%d' % i)
        if k == 0:
            names.append(('e%d' % i,))
        else:
            tree['/top/e%d' % i] = ['sub'] if k == 1 else []
            if k == 1:
                names.append(('e%d' % i, 'sub'))
    ctx.models[os.listdir], ctx.models[os.path.isdir] = lambda p: list(tree[p]), lambda p: p in tree
    prefix, scan, entire, withpath = [None, 'pre'][ctx.choose(2)], bool(ctx.choose(2)), bool(ctx.choose(2)), bool(ctx.choose(2))
    wild = ['(.*)', 'sub', 'e0', '.*sub$', '.*/e1'][ctx.choose(5)]
    out = ctx.catch(lambda: list(FS.find_files('/top', wild, prefix, scan, entire, withpath)))
    got = ok(ctx, out)
    want = []
    for parts in names:
        if len(parts) == 2 and not scan:
            continue
        full = os.path.join(*([prefix] if prefix else []), *(['/top'] if withpath else []), *parts)
        if re.match(wild, full if entire else parts[-1]):
            want.append(full)
    if want:
        ctx.reach('found')
    got = [g for g in got if scan or os.path.join('/top', os.path.basename(g)) not in tree]
    ctx.check('exactly the files that match, under their names', BoolVal(sorted(got) == sorted(want)))


@contract('DevNullFilelikeObject', ['DevNullFilelikeObject.%s' % m for m in ('__init__', 'tell', 'truncate', 'writable', 'seek', 'seekable', 'read', 'write', 'flush', 'close', '__enter__', '__exit__')],
          reach=['end', 'open', 'closed', 'wrong type'])
def t_null(ctx):
    binary = bool(ctx.choose(2))
    f = FS.DevNullFilelikeObject(binary)
    op, a, w = [('tell', (), 0), ('truncate', (), 0), ('writable', (), True), ('seek', (3,), 0), ('seekable', (), True), ('read', (), b'' if binary else ''),
                ('write', (b'abc' if binary else 'abc',), 3), ('flush', (), None), ('write', ('abc' if binary else b'abc',), TypeError)][ctx.choose(9)]
    out = ctx.catch(getattr(f, op), *a)
    if w is TypeError:
        ctx.reach('wrong type')
        ctx.check('refused', BoolVal(out[0] == 'exc' and type(out[1]) is TypeError))
    else:
        ctx.reach('open')
        ctx.check('the result', BoolVal(out[0] == 'ok' and out[1] == w and type(out[1]) is type(w)))
    how = ctx.choose(2)
    ok(ctx, ctx.catch(f.close) if how else ctx.catch(f.__exit__, None, None, None))
    ok(ctx, ctx.catch(f.close))
    ctx.reach('closed')
    out = ctx.catch(getattr(f, op), *a)
    ctx.check('refused, when closed', BoolVal(out[0] == 'exc' and isinstance(out[1], ValueError)))


# ---- names, lines, substitution -------------------------------------------------------------------------------------
@contract('make_noncolliding_name', ['make_noncolliding_name'], reach=['end', 'free', 'taken'], unroll=8)
def t_name(ctx):
    """up to four names taken, in any pattern"""
    directory, stem, ext = ['', '/nonexistent-c28', 'a.b'][ctx.choose(3)], ['x', '', 'x.y'][ctx.choose(3)], ['', '.txt'][ctx.choose(2)]
    if not stem + ext:
        return
    if '.' in stem and not ext:
        stem, ext = 'x', '.y'
    first = [bool(ctx.choose(2)) for _ in range(4)]
    names = [os.path.join(directory, stem + ext)] + [os.path.join(directory, '%s.%d%s' % (stem, i, ext)) for i in range(1, 5)]
    taken = {n for n, t in zip(names, first) if t}
    asked = []

    def exists(p):
        asked.append(p)
        return p in taken
    got = ok(ctx, ctx.catch(FS.make_noncolliding_name, os.path.join(directory, stem + ext), exists))
    ctx.reach('taken' if first[0] else 'free')
    want = [n for n in names if n not in taken][0]
    ctx.check('the first name that is free', BoolVal(got == want and got in asked))


@contract('split', ['split', '_has_separator'], reach=['end', 'absolute', 'relative'], unroll=12)
def t_split(ctx):
    """up to four parts, absolute or not"""
    parts = [['a', 'b.txt', '..', 'c:'][ctx.choose(4)] for _ in range(1 + ctx.choose(3))]
    root = ['', '/', '//'][ctx.choose(3)]
    path = root + '/'.join(parts)
    got = ok(ctx, ctx.catch(FS.split, path))
    ctx.reach('absolute' if root else 'relative')
    ctx.check('joined again, the same path', BoolVal(os.path.join(*got) == path))
    ctx.check('its parts', BoolVal([x for x in got if x] == ([root] if root else []) + parts))


@contract('read_lines', ['read_lines'], reach=['end', 'kept', 'dropped'])
def t_lines(ctx):
    """up to three lines, of four kinds"""
    given = [[' a \n', '\n', '  \r\n', 'b\n'][ctx.choose(4)] for _ in range(ctx.choose(4))]
    fails = Boom() if ctx.choose(2) else None
    opened = []

    class Lines(File):
        def readlines(self, *a):
            if fails:
                raise fails
            return list(given)

        def __iter__(self):
            return iter(self.readlines())

        def read(self, *a):
            return ''.join(self.readlines())

    def copen(path, mode='r', *a, **k):
        ctx.check('the file asked for, in that encoding', BoolVal(path == P and 'utf-16' in (*a, *k.values())))
        opened.append((Lines(ctx, [], None),))
        return opened[-1][0]
    ctx.models[codecs.open], ctx.models[open] = copen, copen
    drop = bool(ctx.choose(2))
    out = ctx.catch(FS.read_lines, P, drop, 'utf-16')
    all_closed(ctx, opened)
    if fails:
        ctx.check('a failure is passed on', BoolVal(out == ('exc', fails)))
        return
    ctx.reach('dropped' if drop else 'kept')
    want = [x.strip() for x in given]
    ctx.check('the lines, in order', BoolVal(ok(ctx, out) == ([x for x in want if x] if drop else want)))


@contract('read_re_sub_and_write', ['read_re_sub_and_write'], reach=['end', 'written', 'failed'])
def t_sub(ctx):
    opened, log = [], []
    failing = [None, 'read', 'write'][ctx.choose(3)]

    def open_(path, mode='r', *a, **k):
        f = File(ctx, log, 'a-b-a', failing)
        ctx.check('the file asked for; one at a time', BoolVal(path == P and not any(x[0].open for x in opened)))
        opened.append((f, mode))
        return f
    ctx.models[open] = open_
    pattern = ['a', re.compile('a')][ctx.choose(2)]
    out = ctx.catch(FS.read_re_sub_and_write, P, pattern, 'zz')
    all_closed(ctx, opened)
    if failing:
        ctx.reach('failed')
        ctx.check('passed on', BoolVal(out[0] == 'exc' and isinstance(out[1], Boom)))
        ctx.check('not begun anew before it is read', BoolVal(failing != 'read' or not any('w' in m for _, m in opened)))
    else:
        ctx.reach('written')
        ctx.check('read, then written with all matches replaced', BoolVal(out[0] == 'ok' and log == [('read',), ('write', 'zz-b-zz')] and [m.replace('t', '') for _, m in opened] == ['r', 'w']))
