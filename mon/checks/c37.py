# coding=utf-8
"""C37: experiment descriptions record exactly what they were given, at that moment."""
import datetime
import importlib
import json
import os
import shutil
import socket
import subprocess
import sys
import tempfile
import time

from .. import gen, ref, sizes
from ..core import unsharded

PROPERTY = 'C37'
TECHNIQUE = ('runtime monitoring: descriptions of experiments compared with what the monitor gave, with the clock around the call and '
             'with the source files that the monitor wrote')
RULE = ('random titles, comments, setups (nothing, strings, configurations, whatables, objects with ids), experiment functions from '
        'generated source files (plain, decorated, nested, methods, classes) and clocks (working, false-like, failing), given by '
        'position or name; distinct by description; non-trivial: with a setup or a function')
REQUIRE = {'large sizes': 1, 'mlexp_info_helper': 500, 'setup': 400, 'no setup': 150, 'source': 150, 'no source': 100, 'clock': 100, 'failing clock': 15,
           'false-like': 60, 'later change': 80, 'decorated source': 30, 'positional': 100}
O = gen.Options()
KEYS = ['title', 'data_setup', 'model_setup', 'eval_setup', 'fsource', 'date', 'idate', 'host', 'comments']
PARAMS = ['title', 'data_setup', 'model_setup', 'eval_setup', 'exp_function', 'comments', 'itime']
SHARDS = {'quick': 2}


class Source(object):
    """A module with functions whose source is known."""
    count = 0

    def __init__(self, rng):
        Source.count += 1
        self.folder = tempfile.mkdtemp(prefix='whatami-mon-c37-')
        self.name = 'whatami_mon_c37_%d_%d' % (os.getpid(), Source.count)
        lines = ['# coding=utf-8', 'import functools', 'from whatami import whatable', '', '',
                 'def deco(f):', '    @functools.wraps(f)', '    def wrapper(*args):', '        return f(*args)', '    return wrapper', '']
        self.expected = []   # (how to get it, lines, number of the first, decorated)
        for n in range(rng.randrange(2, 6)):
            lines += [rng.choice(['', '# a comment', 'X = %d' % n, '"""text"""'])] * rng.randrange(3)
            kind = rng.choice(['plain', 'decorated', 'whatable', 'nested', 'method', 'class', 'oneline', 'lambda', 'generator', 'async', 'staticmethod'])
            body = ['    """%s"""' % rng.choice(['Doc.', u'Caf\xe9', 'x' * 90])] * rng.randrange(2)
            body += rng.choice([['    return %d' % n], ['    # comment', '    y = [', '        x,', '    ]', '', '    return y'],
                                ['    if x:', '        return 1', '    else:', '        return 2'], [u"    return u'\xe9\u6f22'"]])
            text = ['def f%d(x=1, *args):' % n] + body
            get = lambda m, n=n: getattr(m, 'f%d' % n)  # noqa
            if kind == 'decorated':
                text = ['@deco'] * rng.randrange(1, 3) + text
            elif kind == 'whatable':
                text = ['@whatable'] + text
            elif kind == 'nested':
                lines += ['def f%d():' % n]
                text = ['    ' + line if line else line for line in ['def inner(x=2):'] + body]
                get = lambda m, n=n: getattr(m, 'f%d' % n)()  # noqa
            elif kind == 'method':
                lines += ['class f%d(object):' % n, '    x = 1', '']
                text = ['    ' + line if line else line for line in ['def method(self, x=2):'] + body]
                get = rng.choice([lambda m, n=n: getattr(m, 'f%d' % n).method, lambda m, n=n: getattr(m, 'f%d' % n)().method])  # noqa
            elif kind == 'class':
                text = ['class f%d(object):' % n, '    x = 1', '    def experiment(self):', '        return 3']
            elif kind == 'oneline':
                text = ['def f%d(x): return x' % n]
            elif kind == 'lambda':
                text = ['f%d = lambda x=%d: x' % (n, n)]
            elif kind == 'generator':
                text = ['def f%d(x=1, *args):' % n] + body + ['    yield 3']
            elif kind == 'async':
                text = ['async ' + text[0]] + body
            elif kind == 'staticmethod':
                lines += ['class f%d(object):' % n, '    x = 1', '']
                text = ['    ' + line if line else line for line in [rng.choice(['@staticmethod', '@classmethod']),
                                                                     'def method(x=2, *args):'] + body]
                get = rng.choice([lambda m, n=n: getattr(m, 'f%d' % n).method, lambda m, n=n: getattr(m, 'f%d' % n)().method])  # noqa
            self.expected.append((get, [line + '\n' for line in text], len(lines) + 1, text[0].startswith('@')))
            lines += text
            if kind == 'nested':
                lines += ['    return inner']
            lines += ['', '']
        with open(os.path.join(self.folder, self.name + '.py'), 'wb') as writer:
            writer.write('\n'.join(lines).encode('utf-8'))

    def __enter__(self):
        sys.path.insert(0, self.folder)
        importlib.invalidate_caches()
        self.module = importlib.import_module(self.name)
        return self

    def __exit__(self, *args):
        sys.path.remove(self.folder)
        sys.modules.pop(self.name, None)
        shutil.rmtree(self.folder, ignore_errors=True)


def setup(rng):
    """(object, expected id, function that changes the object or None)"""
    from whatami import What, whatable
    kind = rng.choice(['none', 'none', 'string', 'what', 'what', 'whatable', 'id', 'nonids', 'slots'])
    if kind == 'none':
        return None, None, None
    if kind == 'string':
        s = rng.choice(['', 'f(x=1)', 'anything', u'\xe9', gen.text(rng)])
        return s, s, None
    if kind == 'what':
        spec = gen.what(rng, O, 2)
        w = gen.build(spec)
        if rng.random() < 0.2:
            spec[3].append(('long_one', ('str', 'long ' * rng.choice([60, 1000, 20000]))))
            w = gen.build(spec)
        return w, ref.render(spec), lambda: w.set('changed_later', 1)
    if kind == 'nonids':
        w = What('Hidden', {'x': 1, 'verbose': True}, non_id_keys=['verbose'], out_name=rng.choice([None, 'out']))
        return w, ('out=' if w.out_name else '') + 'Hidden(x=1)', lambda: w.set('x', 2)
    if kind == 'id':
        cls = type('WithId', (object,), {'id': lambda self: 'given by id', '__len__': lambda self: 0})
        return cls(), 'given by id', None
    spec = ('whatable', 'slots' if kind == 'slots' else 'decorated', 'Thing',
            [('x', ('int', rng.randrange(9))), ('y', ('str', rng.choice(['a', 'a', 'long ' * rng.choice([60, 1000, 20000])])))])
    obj = gen.build(spec)
    return obj, ref.render(spec), lambda: setattr(obj, 'x', 'changed later')


class Clock(object):
    """A clock that can look false, or not work."""

    def __init__(self, value, fails=False, true=True):
        self.value, self.fails, self.true, self.calls = value, fails, true, 0

    def __call__(self):
        self.calls += 1
        if self.fails:
            raise self.value
        return self.value

    def __bool__(self):
        return self.true


FMT = '%Y-%m-%d %H:%M:%S'


def describe(t, rng, source):
    from whatami.misc import mlexp_info_helper
    title = rng.choice(['title', '', u'T\xedtulo', 'a\nb', gen.text(rng)])
    setups = [setup(rng) for _ in range(3)]
    exp = rng.choice(source.expected) if rng.random() < 0.6 else None
    function = exp[0](source.module) if exp else None
    comments = rng.choice([None, '', 'a comment', gen.text(rng), setup(rng)[0], ['a', 'b'], 3, 0])
    clock = None
    if rng.random() < 0.4:
        fails = rng.random() < 0.2
        value = rng.choice([RuntimeError, OSError, KeyError])('no network') if fails else rng.choice(
            ['2020-01-01', None, '', 0, ('a', 'tuple'), object()])
        clock = Clock(value, fails, rng.random() < 0.6)
    values = dict(zip(PARAMS, [title, setups[0][0], setups[1][0], setups[2][0], function, comments, clock]))
    npos = rng.randrange(0, len(PARAMS) + 1) if rng.random() < 0.4 else 0
    if npos > 1:
        t.event('positional')
    args = [values[k] for k in PARAMS[:npos]]
    kwargs = {k: v for k, v in values.items() if k not in PARAMS[:npos] and (k == 'title' or v is not None or rng.random() < 0.5)}
    if clock is not None and clock.fails:
        t.event('failing clock')
        out = t.call('mlexp_info_helper', mlexp_info_helper, *args, **kwargs)
        t.check(out.failed, 'the failure of the clock is not reported', args=args, kwargs=kwargs)
        return
    zone = rng.choice(['', 'UTC', 'ONE-7', 'TWO+7', 'THREE-13:30', 'FOUR+11', 'FIVE-4', 'SIX+3:30'])   # also another time of the day
    if zone:
        os.environ['TZ'] = zone
    else:
        os.environ.pop('TZ', None)
    time.tzset()
    before = datetime.datetime.now().strftime(FMT)
    info = t.ok('mlexp_info_helper', mlexp_info_helper, *args, **kwargs)
    after = datetime.datetime.now().strftime(FMT)
    t.same(list(info), KEYS, 'wrong contents')
    t.same(info['title'], title, 'wrong title')
    t.check(info['comments'] == comments and type(info['comments']) is type(comments), 'wrong comments', got=info['comments'],
            expected=comments)
    for k, (obj, expected, _) in zip(KEYS[1:4], setups):
        t.event('setup' if obj is not None else 'no setup')
        t.same(info[k], expected, 'wrong id of a setup', which=k, obj=obj)
    if exp is None:
        t.event('no source')
        t.check(info['fsource'] is None, 'there should be no source', got=info['fsource'])
    else:
        t.event('source')
        if exp[3]:
            t.event('decorated source')
        lines, number = info['fsource']
        t.same((list(lines), number), (exp[1], exp[2]), 'wrong source of the experiment')
    t.check(before <= info['date'] <= after and len(info['date']) == len(before), 'wrong date', before=before, after=after,
            got=info['date'])
    if clock is None:
        t.check(info['idate'] is None, 'a date without clock', got=info['idate'])
    else:
        t.event('clock')
        t.check(info['idate'] is clock.value, 'it is not the date given by the clock', got=info['idate'], expected=clock.value)
        t.same(clock.calls, 1, 'the clock is asked a wrong number of times')
        if not clock.true:
            t.event('false-like')
    if not title or comments == '':
        t.event('false-like')
    t.same(info['host'], socket.gethostname(), 'wrong host')
    # what happens later does not matter
    shown = dict(info)
    for _, _, change in setups:
        if change is not None:
            t.event('later change')
            change()
    t.check(dict(info) == shown, 'the description changes with the objects', before=shown, after=dict(info))
    again = t.ok('mlexp_info_helper', mlexp_info_helper, 'another')
    info.clear()
    t.same(list(again), KEYS, 'descriptions share their contents')
    t.same([again[k] for k in KEYS if k not in ('date', 'host')], ['another'] + [None] * 6, 'values of another description')
    if exp or any(obj is not None for obj, _, _ in setups):
        t.seen({k: v for k, v in shown.items() if k != 'date'})
    t.sample('%r' % sorted((k, str(v)[:60]) for k, v in shown.items()))


def descriptions(t, rng, i):
    with Source(rng) as source:
        for _ in range(6):
            describe(t, rng, source)


CHILD = ("import json, socket; print('started', flush=True); from whatami.misc import mlexp_info_helper; "
         "print(json.dumps([socket.gethostname(), mlexp_info_helper('t')['host']]))")


@unsharded
def hosts(t, rng, i):
    """In hosts with other names (in a namespace of their own, if these can be created)."""
    name = ['node1.cluster.example.org', 'localhost', 'UPPER-Case.Example.ORG', 'a', '10.0.0.7', 'x' * 60][i % 6]
    proc = subprocess.run(['unshare', '-Ur', '--uts', 'sh', '-c', 'hostname "$0" && exec "$1" -W ignore -c "$2"', name, sys.executable, CHILD],
                          stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if b'started' not in proc.stdout:
        t.event('no namespaces')
        return
    t.same(proc.returncode, 0, 'describing fails', stderr=proc.stderr.decode('utf-8', 'replace')[-800:])
    real, got = json.loads(proc.stdout.decode().strip().splitlines()[-1])
    t.event('host')
    t.same(got, real, 'wrong host')
    t.check(type(got) is str, 'wrong host', got=got)
    if real == name:
        t.event('renamed host')
        t.seen(('host', name))


PHASES = [('larger sizes', sizes.described, {'quick': 2, 'thorough': 24}),
          ('hosts', hosts, {'quick': 3, 'thorough': 12}),
          ('descriptions', descriptions, {'quick': 120, 'thorough': 5000})]
