import base64
import copy
import functools
import json
import logging
import math
import os
import re
import shutil
import sqlite3
import subprocess
import sys
import tempfile
import warnings
from fractions import Fraction

from base import case, main
import satella.coding
from satella.configuration import sources as S
from satella.configuration.schema import Boolean, Descriptor, Dict, File, Directory, FileContents, Float, Integer, IPv4, List, Regexp, String, Union, create_key, descriptor_from_dict
from satella.configuration.schema.base import must_be_one_of, must_be_type
from satella.configuration.schema.basic import DirectoryObject, FileObject
from satella.configuration.sources import load_source_from_dict, load_source_from_list
from satella.dao import Loadable, must_be_loaded
from satella.db import transaction
from satella.exceptions import ConfigurationError, ConfigurationSchemaError, ConfigurationValidationError

logging.disable(logging.CRITICAL)
warnings.simplefilter('ignore')
REPO = os.path.dirname(os.path.dirname(os.path.abspath(S.__file__))).rsplit(os.sep + 'satella', 1)[0]


class Odd(Exception):
    pass


def outcome(f, *a):
    try:
        return 'ok', f(*a)
    except Exception as e:
        return 'exc', e


def failed(out, cls, what):
    assert out[0] == 'exc' and isinstance(out[1], cls), '%s: %r' % (what, out)


def value(rng, depth):
    r = rng.random()
    if depth and r < 0.4:
        return {rng.choice('abc'): value(rng, depth - 1) for _ in range(rng.randint(0, 3))}
    if depth and r < 0.6:
        return [value(rng, depth - 1) for _ in range(rng.randint(0, 3))]
    return rng.choice([0, 1, 2, 'x', '', None, True, 1.5])


def dct(rng, depth=3):
    return {rng.choice('abcd'): value(rng, depth - 1) for _ in range(rng.randint(0, 4))}


def merged(a, b):
    if type(a) is dict and type(b) is dict:
        return {k: merged(a[k], b[k]) if k in a and k in b else (b if k in b else a)[k] for k in list(a) + [k for k in b if k not in a]}
    if type(a) is list and type(b) is list:
        return a + b
    return b


class Source(S.BaseSource):
    def __init__(self, what, log=None):
        self.what, self.log = what, log if log is not None else []

    def provide(self):
        self.log.append(self)
        if self.what == 'fails':
            raise ConfigurationError('fails')
        if self.what == 'odd':
            raise Odd()
        return self.what


def scramble(v):
    if type(v) is dict:
        for x in v.values():
            scramble(x)
        v['scrambled'] = 1
    elif type(v) is list:
        for x in v:
            scramble(x)
        v.append('scrambled')


def gen_a(rng, size):
    for _ in range(1500 * size):
        yield {'sources': [rng.choice(['fails', 'fails', 'odd']) if rng.random() < 0.3 else dct(rng) for _ in range(rng.randint(0, 4))],
               'silent': rng.random() < 0.6, 'fail_if_none': rng.random() < 0.5, 'times': rng.randint(1, 3), 'key': rng.choice(['a', 'zz', ''])}


@case('sources', gen_a, 'up to 4 sources of nested dictionaries, up to 3 loads')
def a(inp):
    whats = copy.deepcopy(inp['sources'])
    srcs = [S.StaticSource(w) if type(w) is dict and i % 2 else Source(w) for i, w in enumerate(whats)]

    # merging: those later override those before; what the sources hold is not changed
    m = S.MergingSource(*srcs, on_fail=S.MergingSource.SILENT if inp['silent'] else S.MergingSource.RAISE, fail_if_no_sources_are_correct=inp['fail_if_none'])
    want, good, err = {}, 0, None
    for w in inp['sources']:
        if w == 'odd' or (w == 'fails' and not inp['silent']):
            err = Odd if w == 'odd' else ConfigurationError
            break
        if w != 'fails':
            want, good = merged(want, w), good + 1
    if err is None and inp['sources'] and not good and inp['fail_if_none']:
        err = ConfigurationError
    for _ in range(inp['times']):
        out = outcome(m.provide)
        if err:
            failed(out, err, 'a source that fails')
        else:
            assert out == ('ok', want), 'merged %r, it is %r' % (out, want)
            scramble(out[1])
        assert whats == inp['sources'], 'the sources were changed, to %r' % (whats,)

    # alternatives: the first that does not fail, and those after it are not asked
    log = []
    srcs = [Source(w, log) for w in whats]
    for _ in range(inp['times']):
        log.clear()
        out = outcome(S.AlternativeSource(*srcs).provide)
        n = next((i for i, w in enumerate(whats) if w != 'fails'), None)
        if n is None:
            failed(out, ConfigurationError, 'all alternatives fail')
            assert log == srcs
        else:
            if whats[n] == 'odd':
                failed(out, Odd, 'a failure that is not one of configuration')
            else:
                assert out[0] == 'ok' and out[1] == inp['sources'][n], 'the alternative is %r, not %r' % (out, whats[n])
            assert log == srcs[:n + 1], 'asked %d alternatives, not %d' % (len(log), n + 1)
    for w, s in zip(whats, srcs):
        out = outcome(S.OptionalSource(s).provide)
        if w == 'odd':
            failed(out, Odd, 'optional')
        else:
            assert out == ('ok', {} if w == 'fails' else w), 'optional gives %r' % (out,)
        out = outcome(S.BuildObjectFrom(inp['key'], s).provide)
        if type(w) is dict:
            assert out == ('ok', {inp['key']: w}), out
        else:
            failed(out, Odd if w == 'odd' else ConfigurationError, 'an object built from a source that fails')
    assert whats == inp['sources']


def gen_b(rng, size):
    for _ in range(700 * size):
        yield {'text': rng.choice(['absent', 'garbage', 'list', 'dict', 'dict']), 'd': json.loads(json.dumps(dct(rng))), 'as': rng.choice([None, 'cfg', '']),
               'cast': rng.choice([None, 'int', 'len'])}


@case('environment and formats', gen_b, 'documents up to 3 deep')
def b(inp):
    name = 'SATELLA_RT_C27'
    text = {'absent': None, 'garbage': '{"a": 1', 'list': json.dumps([inp['d']]), 'dict': json.dumps(inp['d'])}[inp['text']]
    os.environ.pop(name, None)
    try:
        if text is not None:
            os.environ[name] = text
        out = outcome(S.EnvironmentSource(name, inp['as'], cast_to={None: None, 'int': int, 'len': len}[inp['cast']]).provide)
        if text is None or inp['cast'] == 'int':
            failed(out, ConfigurationError, 'environment')
        else:
            assert out == ('ok', {inp['as'] or name: len(text) if inp['cast'] == 'len' else text}), out
        out = outcome(S.EnvVarsSource(name).provide)
        if inp['text'] != 'dict':
            failed(out, ConfigurationError, 'environment')
        else:
            assert out == ('ok', inp['d']), out
            os.environ[name] = '{"changed": 1}'
            s = S.EnvVarsSource(name)
            assert s.provide() == {'changed': 1}
            os.environ[name] = text
            assert s.provide() == inp['d'], 'not read again from the environment'
    finally:
        os.environ.pop(name, None)
    if text is None:
        return
    for root, enc in ((text, 'utf-8'), (text.encode('utf-8'), 'utf-8'), (text.encode('utf-16'), 'utf-16'), (base64.b64encode(text.encode('utf-8')), 'base64')):
        s = S.JSONSource(root, encoding=enc)
        for _ in range(2):
            out = outcome(s.provide)
            if inp['text'] == 'dict':
                assert out == ('ok', inp['d']), '%s: %r' % (enc, out)
            else:
                failed(out, ConfigurationError, inp['text'])
    failed(outcome(S.JSONSource(b'\xff\xff{}', encoding='utf-8').provide), ConfigurationError, 'not text')
    failed(outcome(S.JSONSource(b'{}', encoding='nosuch').provide), ConfigurationError, 'unknown encoding')


def gen_c(rng, size):
    for _ in range(120 * size):
        yield {'files': [{'dir': rng.choice(['', '', 'sub', 'sub/deep', 'other']), 'name': 'f%d.%s' % (i, rng.choice(['json', 'cfg'])),
                          'kind': rng.choice(['json', 'json', 'json', 'garbage', 'list'])} for i in range(rng.randint(0, 5))],
               'relative': rng.random() < 0.5, 'scan': rng.random() < 0.6, 'silent': rng.random() < 0.7, 'filter': rng.choice([None, '.json']),
               'missing': rng.random() < 0.1, 'classes': rng.random() < 0.5}


@case('files and directories', gen_c, 'up to 5 files, 2 directories deep')
def c(inp):
    d = tempfile.mkdtemp(prefix='rt-c27-')
    cwd = os.getcwd()
    try:
        root = os.path.join(d, 'conf')
        os.makedirs(root)
        for i, f in enumerate(inp['files']):
            os.makedirs(os.path.join(root, f['dir']), exist_ok=True)
            with open(os.path.join(root, f['dir'], f['name']), 'w') as o:
                o.write({'json': json.dumps({'k%d' % i: {'v': i}, 'all': {'f%d' % i: [i]}}), 'garbage': '{"a": ', 'list': '[1, 2]'}[f['kind']])
        if inp['relative']:
            os.chdir(d)
            path = 'conf'
        else:
            path = root
        if inp['missing']:
            path += '-missing'
        classes = [S.JSONSource] if inp['classes'] else ['JSONSource']
        kw = {'interpret_as': classes, 'scan_subdirectories': inp['scan'], 'on_fail': S.DirectorySource.SILENT if inp['silent'] else S.DirectorySource.RAISE}
        if inp['filter']:
            kw['fname_filter'] = lambda p: os.path.isdir(p) or p.endswith(inp['filter'])
        src = S.DirectorySource(path, **kw)
        used = [] if inp['missing'] else [(i, f) for i, f in enumerate(inp['files']) if (f['dir'] == '' or inp['scan']) and (not inp['filter'] or f['name'].endswith(inp['filter']))]
        want = {}
        for i, f in used:
            if f['kind'] == 'json':
                want = merged(want, {'k%d' % i: {'v': i}, 'all': {'f%d' % i: [i]}})
        bad = any(f['kind'] != 'json' for i, f in used)
        for _ in range(2):
            out = outcome(src.provide)
            if not inp['silent'] and (bad or inp['missing']) or inp['silent'] and used and not want:
                failed(out, ConfigurationError, 'directory')
            else:
                assert out == ('ok', want), 'the directory gives %r, it holds %r' % (out, want)
        if not inp['filter'] and inp['scan'] and not inp['silent']:
            out = outcome(S.DirectorySource(path, interpret_as=['JSONSource']).provide)
            assert out == ('ok', want) if not bad and not inp['missing'] else out[0] == 'exc', 'as default: %r' % (out,)
        for i, f in enumerate(inp['files']):
            p = os.path.join(path if not inp['missing'] else root, f['dir'], f['name'])
            out = outcome(S.FileSource(p, interpret_as=classes).provide)
            if f['kind'] == 'json':
                assert out == ('ok', {'k%d' % i: {'v': i}, 'all': {'f%d' % i: [i]}}), out
            else:
                failed(out, ConfigurationError, f['kind'])
            fo, raw = File()(p), open(p, 'rb').read()
            assert type(fo) is FileObject and fo == p and fo == FileObject(p) and not fo == p + 'x' and hash(fo) == hash(p) and str(fo) == p
            assert fo.get_value() == raw and fo.get_value('utf-8') == raw.decode() and FileContents()(p) == raw and FileContents('utf-8', True)(p) == raw.decode().strip()
            failed(outcome(Directory(), p), ConfigurationValidationError, 'a file as a directory')
            do = Directory()(os.path.dirname(p))
            assert do == DirectoryObject(os.path.dirname(p)) and hash(do) == hash(os.path.dirname(p)) and str(do) == os.path.dirname(p) and not do == p
            with fo.open('r') as h_:
                assert h_.read() == raw.decode()
            assert type(do) is DirectoryObject and do == os.path.dirname(p) and f['name'] in do.get_files() and fo != do and do != fo
        failed(outcome(S.FileSource(os.path.join(d, 'absent')).provide), ConfigurationError, 'a file that is not there')
        failed(outcome(S.FileSource(d).provide), ConfigurationError, 'a directory as a file')
        failed(outcome(File(), d), ConfigurationValidationError, 'a directory as a file')
    finally:
        os.chdir(cwd)
        shutil.rmtree(d)


TEXTS = {'json': '{"k": {"v": "ął", "n": 1}}', 'yaml': 'k:\n  v: "ął"\n  n: 1\n', 'toml': '[k]\nv = "ął"\nn = 1\n', 'none': '][ ą :', 'text': 'plain ł '}


def gen_k(rng, size):
    for _ in range(250 * size):
        yield {'text': rng.choice(list(TEXTS)), 'enc': rng.choice(['utf-8', 'iso8859-2', 'utf-16']), 'dir': rng.random() < 0.5, 'as': rng.choice(['default', 'json', 'yaml', 'toml', 'toml+json', 'classes']),
               'strip': rng.random() < 0.5, 'read': rng.choice([None, 'utf-8', 'iso8859-2'])}


@case('formats and encodings', gen_k, 'one file of 5 kinds in 3 encodings')
def k(inp):
    d = tempfile.mkdtemp(prefix='rt-c27-')
    try:
        p, text = os.path.join(d, 'f.cfg'), TEXTS[inp['text']]
        with open(p, 'wb') as o:
            o.write(text.encode(inp['enc']))
        names = {'json': ['JSONSource'], 'yaml': ['YAMLSource'], 'toml': ['TOMLSource'], 'toml+json': ['TOMLSource', 'JSONSource'], 'default': None, 'classes': [S.TOMLSource, S.JSONSource]}[inp['as']]
        kw = {} if names is None else {'interpret_as': names}
        if inp['enc'] != 'utf-8':
            kw['encoding'] = inp['enc']
        out = outcome((S.DirectorySource(d, **kw) if inp['dir'] else S.FileSource(p, **kw)).provide)
        reads = {'json': ['json', 'yaml'], 'yaml': ['yaml'], 'toml': ['toml']}.get(inp['text'], [])
        tried = {'default': ['json', 'yaml', 'toml'], 'toml+json': ['toml', 'json'], 'classes': ['toml', 'json']}.get(inp['as'], [inp['as']])
        if set(reads) & set(tried):
            assert out == ('ok', {'k': {'v': 'ął', 'n': 1}}), out
        else:
            failed(out, ConfigurationError, 'nothing can read it')
        sch = {'type': 'file_contents'}
        if inp['read']:
            sch['encoding'] = inp['read']
        if inp['strip']:
            sch['strip_afterwards'] = True
        out = outcome(descriptor_from_dict({'f': sch}), {'f': p})
        want = outcome(lambda: open(p, 'rb').read().decode(inp['read']) if inp['read'] else open(p, 'rb').read())
        if want[0] == 'exc':
            failed(out, (ConfigurationValidationError, UnicodeDecodeError), 'the contents of a file')
        else:
            assert out == ('ok', {'f': want[1].strip() if inp['strip'] else want[1]}), out
    finally:
        shutil.rmtree(d)


CASTS = [({'type': 'caster', 'cast_to': 'int'}, int), ({'type': 'caster', 'cast_to': 'float'}, float), ({'type': 'caster', 'cast_to': 'fractions.Fraction'}, Fraction),
         ({'type': 'caster', 'cast_to': 'int', 'expr': 'y(x) + 1'}, lambda x: int(x) + 1), ({'type': 'caster', 'cast_to': 'fractions.Fraction', 'expr': '[y(x), x]'}, lambda x: [Fraction(x), x]),
         ({'type': 'caster', 'cast_to': 'collections.OrderedDict', 'optional': True, 'default': 7}, None)]
ARGS = [({'type': 'lambda', 'operation': 'int(x) * 2'}, lambda x: int(x) * 2), ({'type': 'import', 'module': 'fractions', 'attribute': 'Fraction'}, Fraction),
        ({'type': 'import', 'module': 'math', 'attribute': 'sqrt', 'cast_before': {'type': 'lambda', 'operation': 'float(x)'}}, lambda x: math.sqrt(float(x))),
        ({'type': 'lambda', 'operation': '(x, len(x))'}, lambda x: (x, len(x)))]


def gen_l(rng, size):
    for _ in range(400 * size):
        yield {'cast': rng.randrange(len(CASTS)), 'arg': rng.randrange(len(ARGS)), 'v': rng.choice(['1', '16', '-4', '2.5', 'x', '', '1/2']), 'absent': rng.random() < 0.2}


@case('casts', gen_l, '6 casters and 4 kinds of arguments')
def l(inp):
    v = inp['v']
    spec, f = CASTS[inp['cast']]
    if not (spec['cast_to'] == 'collections.OrderedDict' and not inp['absent']):
        out = outcome(descriptor_from_dict({'a': spec}), {} if inp['absent'] else {'a': v})
        if inp['absent']:
            if 'default' in spec:
                assert out == ('ok', {'a': 7}), out
            else:
                failed(out, ConfigurationValidationError, 'a required key')
        else:
            want = outcome(f, v)
            if want[0] == 'exc':
                failed(out, ConfigurationValidationError, 'cannot be cast')
            else:
                assert typed(out) == typed(('ok', {'a': want[1]})), '%r gives %r, it is %r' % (spec, out, want)
    spec, f = ARGS[inp['arg']]
    os.environ['SATELLA_RT_C27'] = v
    try:
        keep = copy.deepcopy(spec)
        src = load_source_from_dict({'type': 'EnvironmentSource', 'args': ['SATELLA_RT_C27', 'name'], 'cast_to': spec})
        assert spec == keep, 'the description was changed'
        want, out = outcome(f, v), outcome(src.provide)
        if want[0] == 'exc':
            failed(out, ConfigurationError, 'cannot be cast')
        else:
            assert typed(out) == typed(('ok', {'name': want[1]})), out
    finally:
        os.environ.pop('SATELLA_RT_C27', None)


def gen_m(rng, size):
    for _ in range(300 * size):
        yield {'status': rng.choice([200, 201, 302, 399, 400, 404, 500, 503]), 'fails': rng.choice([None, None, None, 'requests', 'odd']), 'method': rng.choice([None, 'GET', 'POST']), 'kw': rng.random() < 0.5}


@case('http', gen_m, 'one request, to a stand-in for the network')
def m(inp):
    import requests
    seen, body = [], {'a': [1]}

    class Response:
        status_code = inp['status']
        ok = inp['status'] < 400

        def json(self):
            return body

        def raise_for_status(self):
            if not self.ok:
                raise requests.HTTPError('x')

    def request(self, method, url, **kw):
        seen.append((method, url, kw))
        if inp['fails']:
            raise requests.ConnectionError('x') if inp['fails'] == 'requests' else Odd()
        return Response()
    kw = {'timeout': 3} if inp['kw'] else {}
    keep = requests.Session.request
    requests.Session.request = request
    try:
        src = S.HTTPJSONSource('http://nowhere.invalid/', *([inp['method']] if inp['method'] else []), **kw)
        assert not seen, 'asked before it was needed'
        out = outcome(src.provide)
    finally:
        requests.Session.request = keep
    assert seen == [(inp['method'] or 'GET', 'http://nowhere.invalid/', kw)], 'requested %r' % (seen,)
    if inp['fails']:
        failed(out, ConfigurationError if inp['fails'] == 'requests' else Odd, 'the request fails')
    elif inp['status'] >= 400:
        failed(out, ConfigurationError, 'refused by the server')
    else:
        assert out == ('ok', body), out


def gen_d(rng, size):
    def src(depth):
        r = rng.random()
        if depth and r < 0.5:
            return {'t': rng.choice(['MergingSource', 'AlternativeSource']), 'of': [src(depth - 1) for _ in range(rng.randint(1, 3))], 'opt': rng.random() < 0.2}
        if r < 0.7:
            return {'t': 'StaticSource', 'd': dct(rng), 'arg': rng.choice(['args', 'arg', 'kw']), 'opt': rng.random() < 0.2}
        if r < 0.8:
            return {'t': 'JSONSource', 'd': json.loads(json.dumps(dct(rng))), 'opt': rng.random() < 0.2}
        if r < 0.9:
            return {'t': 'StaticSource', 'd': {'type': rng.choice(['dog', 'binarx', 5]), 'v': 1}, 'arg': rng.choice(['args', 'arg', 'kw']), 'opt': False}
        return {'t': 'EnvironmentSource', 'fails': True, 'opt': rng.random() < 0.5}
    for _ in range(1200 * size):
        yield {'src': src(2), 'list': rng.random() < 0.3, 'bad': rng.choice([None, None, None, 'notype', 'unknown', 'args'])}


def spec_of(s):
    out = {'type': s['t']}
    if s['opt']:
        out['optional'] = True
    if 'of' in s:
        out['args'] = [spec_of(x) for x in s['of']]
    elif s['t'] == 'StaticSource':
        if s['arg'] == 'kw':
            out['config'] = s['d']
        else:
            out[s['arg']] = [s['d']] if s['arg'] == 'args' else s['d']
    elif s['t'] == 'JSONSource':
        out['args'] = [{'type': 'binary', 'value': json.dumps(s['d']), 'encoding': 'utf-8'}]
    else:
        out['args'] = ['SATELLA_RT_C27_ABSENT']
    return out


def value_of(s):
    try:
        if s['t'] == 'MergingSource':
            out = {}
            for x in s['of']:
                out = merged(out, value_of(x))
            return out
        if s['t'] == 'AlternativeSource':
            for x in s['of']:
                try:
                    return value_of(x)
                except ConfigurationError:
                    pass
            raise ConfigurationError('none')
        if s.get('fails'):
            raise ConfigurationError('absent')
        return s['d']
    except ConfigurationError:
        if s['opt']:
            return {}
        raise


@case('sources from dictionaries', gen_d, 'sources up to 2 deep')
def d(inp):
    os.environ.pop('SATELLA_RT_C27_ABSENT', None)
    spec = spec_of(inp['src'])
    keep = copy.deepcopy(spec)
    if inp['bad']:
        bad = {'notype': {'args': []}, 'unknown': {'type': 'NoSuchSource'}, 'args': {'type': 'StaticSource', 'nope': 1}}[inp['bad']]
        failed(outcome(load_source_from_dict, bad), ConfigurationError, inp['bad'])
        failed(outcome(load_source_from_list, [spec, bad]), ConfigurationError, inp['bad'])
        failed(outcome(load_source_from_dict, {'type': 'MergingSource', 'args': [spec, dict(bad, type='MergingSource', nope=1)]}), ConfigurationError, 'nested')
    want = outcome(value_of, inp['src'])
    for _ in range(2):
        built = outcome(lambda: load_source_from_list([spec, spec]) if inp['list'] else load_source_from_dict(spec))
        assert built[0] == 'ok', built
        out = outcome(built[1].provide)
        assert spec == keep, 'the description was changed, to %r' % (spec,)
        if want[0] == 'exc':
            failed(out, ConfigurationError, spec)
        else:
            assert out == ('ok', merged(want[1], want[1]) if inp['list'] else want[1]), '%r gives %r, it is %r' % (spec, out, want)


# ---- schemas --------------------------------------------------------------------------------------------------------
PLAIN = ['int', 'float', 'str', 'bool', 'any', 'ipv4', '', int, str, bool, float]
VALUES = [0, 1, -3, 2.5, '7', '-2', '1.5', 'x', '', 'True', 'false', 'TRUE', True, False, None, [], [1, '2'], (3,), {}, {'a': 1}, '1.2.3.4', '255.255.255.255', '256.1.1.1', '1.2.3',
          '1.2.3.4.5', '1.2.3.4 x', '1.2.3.4\n', '1.2.3.', ' 1.2.3.4', '0.0.0.0', '1.2.3.400']


def gen_schema(rng, depth):
    r = rng.random()
    if depth and r < 0.3:
        return {'dict': {k: gen_schema(rng, depth - 1) for k in rng.sample(['a', 'b', 'c', 'd'], rng.randint(0, 3))}}
    if depth and r < 0.5:
        return {'list': gen_schema(rng, depth - 1) if rng.random() < 0.8 else None}
    if depth and r < 0.65:
        return {'union': [gen_schema(rng, depth - 1) for _ in range(rng.randint(0, 3))]}
    p = {'plain': rng.randrange(len(PLAIN))}
    if rng.random() < 0.4:
        p['long'] = True
        r = rng.random()
        if r < 0.3:
            p['optional'] = True
        elif r < 0.6:
            p['default'] = rng.choice([0, '', None, 'dflt', [1]])
            if rng.random() < 0.3:
                p['optional'] = False
    return p


def to_schema(s):
    if 'dict' in s:
        return {k: to_schema(v) for k, v in s['dict'].items()}
    if 'list' in s:
        return {'type': 'list'} if s['list'] is None else {'type': 'list', 'of': to_schema(s['list'])}
    if 'union' in s:
        return {'type': 'union', 'of': [to_schema(x) for x in s['union']]}
    t = PLAIN[s['plain']]
    if s.get('long'):
        t = 'any' if t == '' else t if type(t) is str else t.__name__
        return dict({'type': t}, **{k: s[k] for k in ('optional', 'default') if k in s})
    return t


class Bad(Exception):
    pass


def IP(v):
    if not re.fullmatch(r'[0-9]{1,3}(\.[0-9]{1,3}){3}', v) or any(int(x) > 255 for x in v.split('.')):
        raise Bad()
    return v


def boolean(v):
    if type(v) is str:
        if v.upper() not in ('TRUE', 'FALSE'):
            raise Bad()
        return v.upper() == 'TRUE'
    return bool(v)


def parsed(s, v):
    if 'dict' in s:
        if type(v) is not dict:
            raise Bad()
        out = {}
        for k, x in s['dict'].items():
            if k in v:
                out[k] = parsed(x, v[k])
            elif x.get('optional', 'default' in x):
                out[k] = x.get('default')
            else:
                raise Bad()
        return dict(out, **{k: x for k, x in v.items() if k not in s['dict']})
    if 'list' in s:
        if type(v) not in (list, tuple):
            raise Bad()
        return [x if s['list'] is None else parsed(s['list'], x) for x in v]
    if 'union' in s:
        for x in s['union']:
            try:
                return parsed(x, v)
            except Bad:
                pass
        raise Bad()
    t = PLAIN[s['plain']]
    t = t if type(t) is str else t.__name__
    if t in ('', 'any'):
        return v
    try:
        return {'int': int, 'float': float, 'str': str, 'bool': boolean, 'ipv4': lambda v: IP(str(v))}[t](v)
    except (TypeError, ValueError):
        raise Bad()


def gen_value(rng, s):
    if rng.random() < 0.1:
        return rng.choice(VALUES)
    if 'dict' in s:
        return dict({k: gen_value(rng, x) for k, x in s['dict'].items() if rng.random() < 0.85}, **({'extra': 5} if rng.random() < 0.3 else {}))
    if 'list' in s:
        return [gen_value(rng, s['list'] or {'plain': 4}) for _ in range(rng.randint(0, 3))]
    if 'union' in s and s['union']:
        return gen_value(rng, rng.choice(s['union']))
    return rng.choice(VALUES)


def gen_e(rng, size):
    for _ in range(2500 * size):
        s = {'dict': {k: gen_schema(rng, 2) for k in rng.sample(['a', 'b', 'c', 'd'], rng.randint(0, 4))}}
        yield {'schema': s, 'value': gen_value(rng, s), 'bad': rng.choice(['nope', 'list', 'union', {'type': 'nope'}, {'type': 'list', 'of': 'nope'}, {'n': 'nope'}, 5, None]) if rng.random() < 0.2 else 0}


def typed(v):
    if type(v) is dict:
        return {k: typed(x) for k, x in v.items()}
    if type(v) in (list, tuple):
        return type(v), [typed(x) for x in v]
    return type(v), v


@case('schemas', gen_e, 'schemas up to 3 deep, of up to 4 keys')
def e(inp):
    schema = to_schema(inp['schema'])
    keep = copy.deepcopy(schema)
    if inp['bad'] != 0:
        failed(outcome(descriptor_from_dict, dict(schema, bad=inp['bad'])), ConfigurationSchemaError, 'schema of %r' % (inp['bad'],))
    desc = outcome(descriptor_from_dict, schema)
    assert desc[0] == 'ok', desc
    assert schema == keep, 'the schema was changed'
    v = inp['value']
    before = copy.deepcopy(v)
    want = outcome(parsed, inp['schema'], v)
    for _ in range(2):
        out = outcome(desc[1], v)
        assert typed(v) == typed(before), 'the value was changed'
        if want[0] == 'exc':
            failed(out, ConfigurationValidationError, '%r of schema %r' % (v, schema))
        else:
            assert out[0] == 'ok' and typed(out[1]) == typed(want[1]), '%r of schema %r gives %r, not %r' % (v, schema, out, want)


class Hex(Regexp):
    REGEXP = r'[0-9a-f]+'


class Compiled(Regexp):
    REGEXP = re.compile(r'[0-9a-f]+')


def gen_f(rng, size):
    for _ in range(1500 * size):
        yield {'v': rng.choice(VALUES + ['a0', 'ag', 'ga', 3, 4, '3']), 'one_of': [rng.choice([1, 2, 3, '3', 'x', True]) for _ in range(rng.randint(0, 3))], 'type': rng.choice(['int', 'str', 'both']),
               'fallback': rng.choice(['int', 'float', 'bool'])}


@case('descriptors', gen_f, 'single values')
def f(inp):
    v = inp['v']
    for cls in (Hex, Compiled):
        out = outcome(cls(), v)
        m = re.match('[0-9a-f]+', str(v))
        if m:
            assert out == ('ok', m.group(0)), out
        else:
            failed(out, ConfigurationValidationError, 'no match')
            assert out[1].value == str(v), 'the exception is of %r, not %r' % (out[1].value, v)
            assert '[0-9a-f]+' in str(cls())
    types = {'int': (int,), 'str': (str,), 'both': (int, str)}[inp['type']]
    d1, plain = Integer(), outcome(Integer(), v)
    d1.add_checker(must_be_type(*types))
    out = outcome(d1, v)
    if not isinstance(v, types) or plain[0] == 'exc':
        failed(out, ConfigurationValidationError, 'a type that is refused, or no integer')
        assert typed(out[1].value) == typed(v), 'the exception is of %r, not %r' % (out[1].value, v)
    else:
        assert out == plain
    d2 = Integer()
    d2.add_checker(must_be_one_of(*inp['one_of']))
    out = outcome(d2, v)
    if plain[0] == 'exc' or plain[1] not in inp['one_of']:
        failed(out, ConfigurationValidationError, 'not one of %r' % (inp['one_of'],))
    else:
        assert out == plain
    assert outcome(Integer(), v)[0] == plain[0], 'checkers of one descriptor apply to another'
    d3 = Dict([create_key(String(), 'k')], unknown_key_mapper=lambda k, x: (k, x))
    assert d3({'k': v, 'z': v}) == {'k': str(v), 'z': ('z', v)}
    failed(outcome(d3, {'z': v}), ConfigurationValidationError, 'a key missing')
    u = Union(List(Integer()), {'int': Integer, 'float': Float, 'bool': Boolean}[inp['fallback']]())
    pl = inp['fallback']
    want = outcome(parsed, {'union': [{'list': {'plain': 0}}, {'plain': ['int', 'float', 'str', 'bool'].index(pl)}]}, v)
    out = outcome(u, v)
    if want[0] == 'exc':
        failed(out, ConfigurationValidationError, 'union')
    else:
        assert typed(out) == typed(want), '%r, it is %r' % (out, want)
    assert Descriptor()(v) is v


# ---- transactions ---------------------------------------------------------------------------------------------------
def gen_g(rng, size):
    for _ in range(2000 * size):
        yield {'getter': rng.choice(['none', 'function', 'method', 'partial', 'object']), 'close': rng.random() < 0.5, 'log': rng.random() < 0.5,
               'runs': [{'body': rng.choice([None, None, 'Odd', 'BaseException']), 'fault': rng.choice([None, None, None, 'end', 'cursor.close', 'conn.close'])} for _ in range(rng.randint(1, 3))]}


class Stop(BaseException):
    pass


class Fault(Exception):
    pass


@case('transactions', gen_g, 'up to 3 transactions, one fault in each')
def g(inp):
    log, fault = [], [None]

    def step(name, kind=None):
        log.append(name)
        if fault[0] == (kind or name):
            raise Fault(name)

    class Cursor:
        def close(self):
            step('cursor.close')

    class Conn:
        def cursor(self):
            step('cursor')
            cur = Cursor()
            cursors.append(cur)
            return cur

        def commit(self):
            step('commit', 'end')

        def rollback(self):
            step('rollback', 'end')

        def close(self):
            step('conn.close')

        def __call__(self):
            raise AssertionError('a connection is no getter')
    conn, got, cursors = Conn(), [], []

    class Getter:
        def get(self):
            got.append(1)
            return conn

        def __call__(self):
            return self.get()
    src = {'none': conn, 'function': lambda: Getter().get(), 'method': Getter().get, 'partial': functools.partial(Getter.get, Getter()), 'object': Getter()}[inp['getter']]
    t = transaction(src, inp['close'], inp['log']) if inp['close'] or not inp['log'] else transaction(src)
    said, handler, lg = [], logging.Handler(), logging.getLogger('satella.db')
    handler.emit, lg.propagate = said.append, False
    lg.handlers[:] = [handler]
    for run in inp['runs']:
        log.clear()
        said.clear()
        logging.disable(logging.NOTSET)
        fault[0] = run['fault']
        exc = {None: None, 'Odd': Odd(), 'BaseException': Stop()}[run['body']]
        seen = None
        try:
            with t as cur:
                assert cur is cursors[-1], 'the cursor given is not that of the connection'
                if exc:
                    raise exc
        except (Odd, Stop, Fault) as e_:
            seen = e_
        finally:
            logging.disable(logging.CRITICAL)
        if run['fault'] != 'end':
            assert bool(said) == bool(exc and inp['log']) and all(r.exc_info for r in said), 'logged %d times' % (len(said),)
        want = ['cursor', 'rollback' if exc else 'commit', 'cursor.close'] + (['conn.close'] if inp['close'] else [])
        assert log == want, 'did %r, not %r' % (log, want)
        if run['fault'] in (None, 'conn.close' if not inp['close'] else None):
            assert seen is exc, 'ended with %r, not %r' % (seen, exc)
        else:
            assert type(seen) is Fault, 'the failure of %s was swallowed: %r' % (run['fault'], seen)
    assert len(got) == (inp['getter'] != 'none'), 'the connection was asked for %d times' % (len(got),)


def gen_h(rng, size):
    for _ in range(150 * size):
        yield {'runs': [{'insert': [rng.randint(0, 9) for _ in range(rng.randint(0, 3))], 'fails': rng.random() < 0.4} for _ in range(rng.randint(1, 4))], 'getter': rng.random() < 0.5}


@case('transactions of sqlite', gen_h, 'up to 4 transactions of 3 rows')
def h(inp):
    conn = sqlite3.connect(':memory:')
    conn.execute('CREATE TABLE t (x INTEGER)')
    t, want = transaction((lambda: conn) if inp['getter'] else conn, log_exception=False), []
    for run in inp['runs']:
        try:
            with t as cur:
                for x in run['insert']:
                    cur.execute('INSERT INTO t VALUES (?)', (x,))
                if run['fails']:
                    raise Odd()
            assert not run['fails'], 'swallowed'
            want += run['insert']
        except Odd:
            pass
        assert not conn.in_transaction, 'left open'
        assert [r[0] for r in conn.execute('SELECT x FROM t ORDER BY rowid')] == want, 'not what was committed'
    conn.close()


def gen_i(rng, size):
    for _ in range(300 * size):
        yield {'lazy': rng.random() < 0.6, 'calls': [rng.choice(['get', 'get', 'refresh', 'fail', 'plain']) for _ in range(rng.randint(0, 5))]}


@case('lazy loading', gen_i, 'up to 5 calls')
def i(inp):
    loads, failing = [], [False]

    class Obj(Loadable):
        def __init__(self, **k):
            super().__init__(**k)

        def refresh(self, load_from=None):
            if failing[0]:
                raise Odd()
            super().refresh(load_from)
            loads.append(1)

        @must_be_loaded
        def get(self, x, *, y=0):
            """doc"""
            return len(loads), x, y

        def plain(self):
            return len(loads)
    o, n = Obj(load_lazy=True) if inp['lazy'] else Obj(), int(not inp['lazy'])
    assert len(loads) == n, 'loaded %d times when made' % (len(loads),)
    assert Obj.get.__name__ == 'get' and Obj.get.__doc__ == 'doc'
    for cl in inp['calls']:
        if cl == 'refresh':
            o.refresh()
            n += 1
        elif cl == 'fail':
            failing[0] = True
            out = outcome(o.get, 1)
            failing[0] = False
            if n:
                assert out == ('ok', (n, 1, 0)), out
            else:
                failed(out, Odd, 'loading fails')
        elif cl == 'plain':
            assert o.plain() == n
        else:
            n = max(n, 1)
            assert o.get(5, y=7) == (n, 5, 7), 'run before it was loaded'
        assert len(loads) == n, 'loaded %d times, not %d' % (len(loads), n)


MODULES = ['satella.configuration', 'satella.configuration.sources', 'satella.configuration.schema', 'satella.configuration.sources.from_dict', 'satella.configuration.schema.from_json',
           'satella.db', 'satella.dao', 'satella.exceptions']


def gen_j(rng, size):
    for m in MODULES:
        yield {'module': m}


@case('imported first', gen_j, '8 modules')
def j(inp):
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', 'import ' + inp['module']], cwd='/', env=dict(os.environ, PYTHONPATH=REPO), capture_output=True, text=True, timeout=100)
    assert p.returncode == 0, p.stderr[-400:]


main('C27')
