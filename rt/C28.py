import codecs
import io
import os
import re
import shutil
import subprocess
import sys
import tempfile

from base import case, main
from satella.exceptions import ProcessFailed, ResourceLocked
from satella.files import (AutoflushFile, DevNullFilelikeObject, find_files, jump_to_directory, make_noncolliding_name, read_in_file, read_lines,
                           read_re_sub_and_write, split, try_unlink, write_out_file_if_different, write_to_file)
from satella.os import PIDFileLock
from satella.processes import call_and_return_stdout, read_nowait


DELETING = [(os, 'unlink'), (os, 'remove'), (os, 'rmdir'), (shutil, 'rmtree')]
REAL = [getattr(m, n) for m, n in DELETING]


class Scratch:
    """a directory of its own; nothing outside it can be deleted by the code under test"""

    def __enter__(self):
        self.d = os.path.realpath(tempfile.mkdtemp(prefix='c28'))
        self.cwd = os.getcwd()
        for (m, n), f in zip(DELETING, REAL):
            setattr(m, n, self.guard(f))
        return self.d

    def guard(self, f):
        def guarded(path, *a, **k):
            if k.get('dir_fd') is None:
                assert os.path.realpath(path).startswith(self.d + '/'), 'deletes %r' % (path,)
            return f(path, *a, **k)
        return guarded

    def __exit__(self, *a):
        for (m, n), f in zip(DELETING, REAL):
            setattr(m, n, f)
        os.chdir(self.cwd)
        shutil.rmtree(self.d, ignore_errors=True)


class Boom(Exception):
    pass


def outcome(f, *a, **k):
    try:
        return 'ok', f(*a, **k)
    except Exception as e:
        return 'exc', type(e)


def raw(p):
    with open(p, 'rb') as f:
        return f.read()


def decoded(b, enc):
    return codecs.getreader(enc)(io.BytesIO(b)).read()


def put(p, b):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'wb') as f:
        f.write(b)


def fds():
    return len(os.listdir('/proc/self/fd'))


# ---- reading and writing --------------------------------------------------------------------------------------------
TEXTS = ['', 'a', 'abc\n', 'ąż\n\nx', 'x' * 5000, 'a\r\nb', '\x00']
ENC = [None, 'utf-8', 'utf-16', 'latin-1', 'ascii']


def gen_rw(rng, size):
    for _ in range(300 * size):
        yield {'ops': [[rng.choice(['write', 'read', 'default', 'different', 'different', 'unlink', 'mkdir', 'rawwrite']), rng.choice(TEXTS), rng.choice(ENC), rng.randint(0, 1)]
                       for _ in range(rng.randint(1, 8))]}


@case('reading, writing and deleting files', gen_rw, 'up to 8 operations on 2 files')
def rw(inp):
    with Scratch() as d:
        state = {}      # path -> bytes, or 'dir'
        before = fds()
        for op, text, enc, i in inp['ops']:
            p = os.path.join(d, 'f%d' % i)
            cur = state.get(p)
            try:
                blob = text.encode(enc) if enc else text.encode('utf-8')
            except UnicodeEncodeError:
                blob = None
            data = text if enc else text.encode('utf-8')
            if op == 'rawwrite':
                if cur != 'dir':
                    put(p, text.encode('utf-8'))
                    state[p] = text.encode('utf-8')
            elif op == 'mkdir':
                if cur is None:
                    os.mkdir(p)
                    put(os.path.join(p, 'x', 'y'), b'1')
                    state[p] = 'dir'
            elif op == 'write':
                got = outcome(write_to_file, p, data, enc)
                if cur == 'dir':
                    assert got == ('exc', IsADirectoryError), 'writing to a directory: %r' % (got,)
                elif blob is None:
                    assert got == ('exc', UnicodeEncodeError), 'writing what cannot be encoded: %r' % (got,)
                    state[p] = b''
                else:
                    assert got == ('ok', None), 'writing: %r' % (got,)
                    state[p] = blob
            elif op in ('read', 'default'):
                dflt = [b'no', 'no', None][len(text) % 3]
                got = outcome(read_in_file, p, enc) if op == 'read' else outcome(read_in_file, p, enc, dflt)
                if cur is None or cur == 'dir':
                    want = ('exc', FileNotFoundError) if op == 'read' else ('ok', dflt)
                elif enc is None:
                    want = ('ok', cur)
                else:
                    try:
                        want = ('ok', decoded(cur, enc))
                    except UnicodeError:
                        want = None
                if want is None:
                    assert got[0] == 'exc' and issubclass(got[1], UnicodeError), 'reading what cannot be decoded: %r' % (got,)
                else:
                    assert got == want, 'reading %r: %r, not %r' % (cur, got, want)
            elif op == 'different':
                if cur == 'dir' or blob is None:
                    continue
                try:
                    now = cur if enc is None or cur is None else decoded(cur, enc)
                except UnicodeError:
                    continue
                stamp = None
                if cur is not None:
                    os.utime(p, (1000, 1000))
                got = outcome(write_out_file_if_different, p, data, enc)
                want = now != data
                assert got == ('ok', want), 'written out, if different: %r, not %r' % (got, want)
                if want:
                    state[p] = blob
                else:
                    assert os.stat(p).st_mtime == 1000, 'written though not different'
            else:
                got = outcome(try_unlink, p)
                assert got == ('ok', cur is not None), 'deleting: %r' % (got,)
                state.pop(p, None)
            for j in (0, 1):
                q = os.path.join(d, 'f%d' % j)
                s = state.get(q)
                if s is None:
                    assert not os.path.exists(q), '%s: a file is left' % op
                elif s == 'dir':
                    assert raw(os.path.join(q, 'x', 'y')) == b'1', '%s: a directory is damaged' % op
                else:
                    assert raw(q) == s, '%s: the file contains %r, not %r' % (op, raw(q), s)
            assert fds() <= before, '%s leaves a file open' % op


def gen_lines(rng, size):
    for _ in range(150 * size):
        yield {'lines': [rng.choice(['', ' ', 'a', '  b\t', 'ą c', '#', '0']) for _ in range(rng.randint(0, 6))], 'eol': rng.choice(['\n', '\r\n']), 'last': rng.random() < .5,
               'enc': rng.choice(['utf-8', 'utf-16', None]), 'keep': rng.random() < .5,
               'pattern': rng.choice(['a', '[ab]', '^', 'x', '(b)|(c)']), 'compiled': rng.random() < .5, 'repl': rng.choice(['Z', '', '[\\g<0>]', 'call'])}


@case('lines and substitution', gen_lines, 'up to 6 lines')
def lines(inp):
    with Scratch() as d:
        p = os.path.join(d, 'f')
        text = inp['eol'].join(inp['lines']) + (inp['eol'] if inp['last'] else '')
        put(p, text.encode(inp['enc'] or 'utf-8'))
        before = fds()
        k = {} if inp['enc'] is None else {'encoding': inp['enc']}
        if inp['keep']:
            k['delete_empty_lines'] = False
        got = read_lines(p, **k)
        want = [x.strip() for x in text.splitlines()]
        if not inp['keep']:
            want = [x for x in want if x]
        assert got == want, 'lines %r, not %r' % (got, want)
        put(p, text.replace('\r', '').encode('ascii', 'ignore'))
        t = open(p).read()
        repl = (lambda m: '<%s>' % m.group(0)) if inp['repl'] == 'call' else inp['repl']
        read_re_sub_and_write(p, re.compile(inp['pattern'], re.M) if inp['compiled'] else inp['pattern'], repl)
        want = re.sub(re.compile(inp['pattern'], re.M) if inp['compiled'] else inp['pattern'], repl, t)
        assert open(p).read() == want, 'substituted: %r, not %r' % (open(p).read(), want)
        assert fds() <= before, 'a file is left open'


# ---- names ----------------------------------------------------------------------------------------------------------
PARTS = ['a', 'b.txt', '..', '.', 'c d', '.hidden', 'x.tar.gz', '~', 'aa', 'ab']


def gen_names(rng, size):
    for _ in range(300 * size):
        yield {'parts': [rng.choice(PARTS) for _ in range(rng.randint(1, 6))], 'absolute': rng.choice(['', '', '/', '//']), 'slash': rng.random() < .2,
               'taken': rng.randint(0, 12), 'gap': rng.random() < .3}


@case('splitting and inventing names', gen_names, 'up to 6 parts, up to 12 names taken')
def names(inp):
    path = inp['absolute'] + '/'.join(inp['parts']) + ('/' if inp['slash'] else '')
    parts = split(path)
    assert os.path.join(*parts) == path, 'split(%r) is %r, and joined %r' % (path, parts, os.path.join(*parts))
    want = inp['parts'] + ([''] if inp['slash'] else [])
    if inp['absolute']:
        want = [inp['absolute']] + want
    assert [x for x in parts if x] == [x for x in want if x], 'split(%r) is %r' % (path, parts)
    if inp['slash']:
        return
    # names that do not collide
    base = os.path.basename(path)
    stem, dot, ext = base.rpartition('.')
    cands = [base] + [(stem + '.%d.' % i + ext) if dot else base + '.%d' % i for i in range(1, 20)]
    full = [os.path.join(os.path.dirname(path), c) for c in cands]
    taken = set(full[:inp['taken']])
    if inp['gap'] and len(taken) > 1:
        taken.discard(full[len(taken) // 2])
    asked = []

    def exists(p):
        asked.append(p)
        return p in taken
    got = make_noncolliding_name(path, exists)
    want = [p for p in full if p not in taken][0]
    assert got == want, 'make_noncolliding_name(%r) is %r, not %r, with %d names taken' % (path, got, want, inp['taken'])
    assert asked[-1] == got, 'not asked about the name given'
    if inp['taken'] < 4 and not inp['absolute']:
        with Scratch() as d:
            for i in range(inp['taken']):
                put(os.path.join(d, cands[i]), b'') if base not in ('.', '..') else None
            if base in ('.', '..'):
                return
            got = make_noncolliding_name(os.path.join(d, base))
            assert got == os.path.join(d, cands[inp['taken']]) and not os.path.exists(got), 'the name %r, with %d taken' % (got, inp['taken'])


def gen_find(rng, size):
    for _ in range(150 * size):
        files = {'/'.join(rng.choice(['a', 'b', 'dd']) + str(i) for i in range(rng.randint(0, 2))).strip('/') + '/' + rng.choice(['x.txt', 'y.py', 'txt', 'z', 'a0x'])
                 for _ in range(rng.randint(0, 6))}
        yield {'files': sorted(f.strip('/') for f in files), 'wildcard': rng.choice([None, r'(.*)\.txt', 'x', r'.*a0', 'a0/', r'.*/y\.py$', r'dd0/', 'pre/', r'(.*)']),
               'prefix': rng.choice([None, None, 'pre', '/q/r']), 'sub': rng.random() < .75, 'entire': rng.random() < .5, 'withpath': rng.random() < .5}


@case('finding files', gen_find, 'up to 6 files in directories up to 2 deep')
def finding(inp):
    with Scratch() as d:
        os.chdir(d)
        for f in inp['files']:
            put(os.path.join(d, 'root', f), b'')
        os.makedirs(os.path.join(d, 'root', 'empty'), exist_ok=True)
        k = {}
        if inp['wildcard'] is not None:
            k['wildcard'] = inp['wildcard']
        if inp['prefix'] is not None:
            k['prefix_with'] = inp['prefix']
        if not inp['sub']:
            k['scan_subdirectories'] = False
        if inp['entire']:
            k['apply_wildcard_to_entire_path'] = True
        if not inp['withpath']:
            k['prefix_with_path'] = False
        got = sorted(find_files('root', **k))
        pre = [x for x in (inp['prefix'], 'root' if inp['withpath'] else None) if x]
        want = []
        for f in inp['files']:
            if not inp['sub'] and '/' in f:
                continue
            full = os.path.join(*pre, f)
            if re.match(inp['wildcard'] or '', full if inp['entire'] else os.path.basename(f)):
                want.append(full)
        if not inp['sub']:      # whether directories themselves are named is not said
            got = [x for x in got if not os.path.isdir(os.path.join(d, 'root', os.path.basename(x)))]
        assert got == sorted(want), 'found %r, not %r' % (got, sorted(want))


# ---- the working directory ------------------------------------------------------------------------------------------
def gen_jump(rng, size):
    for _ in range(100 * size):
        yield {'dirs': [rng.choice(['a', 'a/b', 'c', '../x', 'ABS/q', '.']) for _ in range(rng.randint(1, 4))], 'fails': rng.choice([None, 'exc', 'base']), 'inside': rng.random() < .3,
               'again': rng.random() < .3, 'early': rng.random() < .3}


@case('jumping to directories', gen_jump, 'up to 4 nested jumps')
def jumping(inp):
    with Scratch() as d:
        start = os.path.join(d, 's', 't')
        os.makedirs(start)
        os.chdir(start)

        def go(rest):
            if not rest:
                if inp['fails']:
                    raise (Boom if inp['fails'] == 'exc' else KeyboardInterrupt)('x')
                return
            target = os.path.join(d, rest[0][4:]) if rest[0].startswith('ABS') else rest[0]
            here = os.getcwd()
            want = os.path.normpath(os.path.join(here, target))
            j = jump_to_directory(target)
            assert os.getcwd() == here, 'jumped too early'
            assert os.path.isdir(want), 'the directory is not created'
            if inp['early'] and len(inp['dirs']) == 1:
                here = os.path.join(d, 'meanwhile')
                os.makedirs(os.path.join(here), exist_ok=True)
                os.chdir(here)
                want = os.path.normpath(os.path.join(here, target))
                os.makedirs(want, exist_ok=True)
            try:
                with j as x:
                    assert x is j and os.getcwd() == want, 'in %r, not %r' % (os.getcwd(), want)
                    assert j.prev_path == here and j.path == target
                    go(rest[1:])
                    assert os.getcwd() == want, 'an inner jump leaves %r' % os.getcwd()
                    if inp['inside']:
                        os.chdir(d)
            finally:
                assert os.getcwd() == here, 'back in %r, not %r' % (os.getcwd(), here)
        for _ in range(2 if inp['again'] else 1):
            try:
                go(inp['dirs'])
            except (Boom, KeyboardInterrupt):
                assert inp['fails'], 'failed'
            else:
                assert not inp['fails'], 'an exception is lost'
            assert os.getcwd() == (os.path.join(d, 'meanwhile') if inp['early'] and len(inp['dirs']) == 1 else start)
            os.chdir(start)


# ---- files that are closed after each use ---------------------------------------------------------------------------
def gen_auto(rng, size):
    for _ in range(250 * size):
        ops = []
        for _ in range(rng.randint(1, 9)):
            ops.append(rng.choice([['write', rng.choice(['abc', 'x', '', 'line\nline', 'é'])]] * 3 + [['read'], ['read', rng.randint(0, 4)], ['seek', rng.randint(0, 6)], ['seek', 0, 2], ['readall'],
                                                                                             ['truncate', rng.randint(0, 6)], ['truncate', None], ['bad']]))
        yield {'mode': rng.choice(['w', 'wb', 'w+', 'wb+', 'a', 'ab', 'a+', 'ab+', 'a+', 'w+']), 'ops': ops, 'before': rng.choice([None, '', 'old text']), 'enc': rng.choice([None, 'utf-8', 'latin-1'])}


@case('files closed after each use', gen_auto, 'up to 9 operations')
def auto(inp):
    with Scratch() as d:
        p, q = os.path.join(d, 'f'), os.path.join(d, 'twin')
        mode, binary = inp['mode'], 'b' in inp['mode']
        kw = {'encoding': inp['enc']} if inp['enc'] and not binary else {}
        for x in (p, q):
            if inp['before'] is not None:
                put(x, inp['before'].encode())
        n = fds()
        f = AutoflushFile(p, mode, **kw)
        assert fds() <= n, 'left open'
        if mode[0] == 'w':
            open(q, 'w').close()
        twin = open(q, mode.replace('w', 'a'), **kw)
        n = fds()
        try:
            for op, *a in inp['ops']:
                if not binary and (op, *a) in (('write', ''), ('truncate', None)):
                    continue        # on a file read ahead, positions are not defined
                if op == 'write' and (binary or inp['enc'] != 'latin-1'):
                    a = [a[0].replace('é', 'e')]        # of more than one byte: could be truncated within
                if op == 'write' and binary:
                    a = [a[0].encode()]
                if op == 'bad':
                    op, a = 'write', [5]
                want = outcome(getattr(twin, 'read' if op == 'readall' else op), *a)
                twin.flush()
                pos = twin.tell()
                got = outcome(getattr(f, op), *a)
                assert got == want, '%s%r gives %r, and a file gives %r' % (op, tuple(a), got, want)
                assert fds() <= n, 'left open after %s' % op
                assert raw(p) == raw(q), 'after %s%r the file contains %r, not %r' % (op, tuple(a), raw(p), raw(q))
                assert f.pointer == pos, 'after %s%r at %r, not %r' % (op, tuple(a), f.pointer, pos)
        finally:
            twin.close()
        f.seek(offset=0, whence=0)
        if '+' in mode:
            want = raw(p)[:2]
            got = f.read(2)
            if binary:
                assert got == want and f.pointer == len(want), 'from the start %r is read, not %r' % (got, want)
            else:
                assert got == raw(p).decode(inp['enc'] or 'utf-8').replace('\r\n', '\n')[:2], 'from the start %r is read' % got
        n = fds()
        f.close()
        now = raw(p)
        for op, a in (('write', ['x']), ('read', []), ('seek', [0]), ('truncate', [0]), ('readall', [])):
            assert outcome(getattr(f, op), *a) == ('exc', ValueError), '%s on a closed file' % op
        assert raw(p) == now and fds() <= n, 'a closed file is written to'
        for bad in ('r', 'rb', 'x', '', 'rw', 'r+'):
            assert outcome(AutoflushFile, p, bad) == ('exc', ValueError), 'mode %r accepted' % bad
        assert raw(p) == now and fds() <= n, 'a refused mode changes the file'


def gen_null(rng, size):
    for b in (True, False, None):
        yield {'binary': b}


@case('a file that discards everything', gen_null, 'every method')
def null(inp):
    f = DevNullFilelikeObject(**({} if inp['binary'] is None else {'binary': inp['binary']}))
    b = bool(inp['binary'])
    good, wrong = (b'abc', 'abc') if b else ('abc', b'abc')
    calls = [('write', [good], 3), ('write', [good[:0]], 0), ('read', [], good[:0]), ('read', [7], good[:0]), ('seek', [0], 0), ('tell', [], 0), ('truncate', [], 0), ('truncate', [0], 0),
             ('flush', [], None), ('writable', [], True), ('seekable', [], True)]
    with f as g:
        assert g is f
        for n, a, w in calls:
            got = outcome(getattr(f, n), *a)
            assert got == ('ok', w) and type(got[1]) is type(w), '%s%r gives %r, not %r' % (n, tuple(a), got, w)
        assert f.read(byte_count=2) == good[:0] and f.write(y=good) == 3
        for x in (wrong, 5, None):
            assert outcome(f.write, x) == ('exc', TypeError), 'write(%r)' % (x,)
    for _ in range(2):
        for n, a, w in calls:
            assert outcome(getattr(f, n), *a) == ('exc', ValueError), '%s of a closed file' % n
        f.close()


# ---- processes and locks of processes -------------------------------------------------------------------------------
def gen_proc(rng, size):
    for n in (0, 1, 10, 5000, 300000):
        for code in (0, 3):
            for expected in (None, 0, 3):
                yield {'n': n, 'code': code, 'expected': expected, 'enc': [None, 'utf-8'][(n + code) % 2], 'sleeps': False}
    yield {'n': 20, 'code': 0, 'expected': 0, 'enc': None, 'sleeps': True}
    yield {'n': 90000, 'code': 0, 'expected': None, 'enc': None, 'sleeps': True}


@case('output of processes', gen_proc, 'up to 300 kB of output')
def processes(inp):
    n = inp['n']
    args = ['sh', '-c', ('head -c %d /dev/zero | tr "\\\\0" x; ' % n if n else '') + ('exec sleep 60' if inp['sleeps'] else 'exit %d' % inp['code'])]
    k = {}
    if inp['enc']:
        k['encoding'] = inp['enc']
    if inp['expected'] is not None:
        k['expected_return_code'] = inp['expected']
    k['timeout'] = 1 if inp['sleeps'] else ['15s', 15, None][n % 3]
    try:
        got = call_and_return_stdout(args, **k)
    except TimeoutError:
        assert inp['sleeps'], 'timed out'
        return
    except ProcessFailed as e:
        assert inp['expected'] is not None and inp['expected'] != inp['code'], 'failed, with the code expected'
        assert e.rc == inp['code'], 'the code is %r' % e.rc
        return
    assert not inp['sleeps'], 'the time limit is ignored'
    assert inp['expected'] in (None, inp['code']), 'the code is not checked'
    want = ('x' if inp['enc'] else b'x') * n
    assert got == want, '%d bytes, not %d' % (len(got), n)


def gen_pid(rng, size):
    for content in (None, 'self', 'dead', 'text', '', ' self \n'):
        for how in ('with', 'acquire', 'raise', 'twice'):
            yield {'content': content, 'how': how}


@case('locks of processes', gen_pid, 'every content of the file')
def pids(inp):
    with Scratch() as d:
        p = os.path.join(d, 'x.pid')
        dead = subprocess.Popen(['true'])
        dead.wait()
        c = inp['content']
        if c is not None:
            put(p, c.replace('self', str(os.getpid())).replace('dead', str(dead.pid)).encode())
        lock = PIDFileLock('x.pid', d)
        assert outcome(lock.release) == ('exc', RuntimeError), 'released, and not acquired'
        n = fds()
        if c and 'self' in c:
            before = raw(p)
            for _ in range(2):
                try:
                    lock.acquire()
                except ResourceLocked as e:
                    assert e.pid == os.getpid() and e.is_alive is True, 'held by %r' % e.pid
                else:
                    assert False, 'acquired, and held by a living process'
            assert raw(p) == before and fds() <= n, 'a failed acquisition changes the lock'
            assert outcome(lock.release) == ('exc', RuntimeError), 'released, and not acquired'
            assert raw(p) == before
            return
        held = lambda: raw(p).strip() == str(os.getpid()).encode()
        if inp['how'] == 'acquire':
            lock.acquire()
            assert held()
            lock.release()
        elif inp['how'] == 'twice':
            for _ in range(2):
                with lock:
                    assert held()
                    assert outcome(PIDFileLock('x.pid', d).acquire) == ('exc', ResourceLocked), 'acquired twice'
                    assert held()
                assert not os.path.exists(p)
        else:
            try:
                with lock:
                    assert held()
                    if inp['how'] == 'raise':
                        raise Boom()
            except Boom:
                pass
            else:
                assert inp['how'] != 'raise', 'an exception is lost'
        assert not os.path.exists(p), 'the lock file is left'
        assert outcome(lock.release) == ('exc', RuntimeError), 'released twice'
        assert fds() <= n, 'a file is left open'


main('C28')
