# coding=utf-8
"""C17: content hashing ignores insertion order and never ignores content."""
import collections
import datetime
import decimal
import enum
import fractions
import functools
import json
import operator
import os
import random
import subprocess
import sys
import types
import uuid

import numpy as np

from .. import gen, ref, sizes
from ..core import unsharded

PROPERTY = 'C17'
TECHNIQUE = ('runtime monitoring: metamorphic monitors over the hashes of random picklable objects, rebuilt in other orders and in '
             'other processes or edited, with snapshots of the objects around each request')
RULE = ('nested values of builtin types, arrays, dates, numbers, enumerations, functions, methods, classes, containers and '
        'user objects (with dictionary, slots, custom state, of container classes), each rebuilt with other insertion orders, '
        'strings and processes, and edited anywhere; distinct by hash; non-trivial: containers and objects')
gen.SUBCLASSES = False
REQUIRE = {'large sizes': 1, 'twins': 100, 'object': 500, 'rebuilt': 1500, 'edited': 1500, 'unchanged': 500, 'other process': 150, 'algorithm:sha1': 200,
           'large': 30, 'huge': 10, 'shared': 20, 'distinct pairs': 20000, 'mixed keys': 30}


class Point(object):
    def __init__(self, **kwargs):
        for k, v in kwargs.items():
            setattr(self, k, v)

    def method(self):
        pass

    def other(self):
        pass


class Pixel(Point):
    pass


class Slots(object):
    __slots__ = ('x', 'y', 'z', 'a')

    def __init__(self, **kwargs):
        for k, v in kwargs.items():
            setattr(self, k, v)


class State(Point):
    def __getstate__(self):
        return {'state': dict(self.__dict__)}

    def __setstate__(self, state):
        self.__dict__.update(state['state'])


class MyList(list):
    def own(self):
        pass


class MyDict(dict):
    def own(self):
        pass


class Row(collections.namedtuple('Row', 'x y')):
    __slots__ = ()

    def own(self):
        pass


class Color(enum.Enum):
    RED = 1
    BLUE = 2


def some_function():
    pass


def other_function():
    pass


MODULES = [types.ModuleType(m) for m in ('a.m', 'b.m', 'm', 'a.b.m', 'a')]
OBJECTS = {'Point': Point, 'Pixel': Pixel, 'Slots': Slots, 'State': State}
# All the builders give equal objects at each call, and no two give equal objects (nor equal to plain values)
EXTRAS = [lambda: 1 + 2j, lambda: complex(1, 0), lambda: b'', lambda: b'ab', lambda: bytearray(b'ab'), lambda: b"a'\x00\xff",
          lambda: datetime.date(2020, 1, 2), lambda: datetime.date(2020, 2, 1), lambda: datetime.datetime(2020, 1, 2),
          lambda: datetime.timedelta(3), lambda: datetime.timedelta(0, 3), lambda: decimal.Decimal('1'),
          lambda: decimal.Decimal('1.0'), lambda: fractions.Fraction(1, 3), lambda: fractions.Fraction(1, 2),
          lambda: Color.RED, lambda: Color.BLUE, lambda: Color, lambda: some_function, lambda: other_function, lambda: len,
          lambda: max, lambda: int, lambda: complex, lambda: bytearray, lambda: Point, lambda: Pixel, lambda: np.float64, lambda: np.ndarray,
          lambda: MyList([1]).count, lambda: MyList([2]).count, lambda: MyList([1]).own, lambda: MyList([2]).own, lambda: MyList().own,
          lambda: MyDict(a=1).own, lambda: MyDict(a=2).own, lambda: Row(1, 2).own, lambda: Row(2, 1).own,
          lambda: Point(x=1).method, lambda: Point(x=2).method, lambda: Point(x=1).other, lambda: Pixel(x=1).method,
          lambda: range(3), lambda: range(4), lambda: range(0, 3, 2), lambda: uuid.UUID(int=5), lambda: uuid.UUID(int=6),
          lambda: np.arange(3), lambda: np.arange(3.), lambda: np.arange(3, dtype='i4'), lambda: np.arange(6).reshape(2, 3),
          lambda: np.arange(6).reshape(3, 2), lambda: np.array(['a', None], object), lambda: np.array([True]),
          lambda: np.float64(1), lambda: np.int64(1), lambda: np.int32(1), lambda: np.dtype('f8'), lambda: np.dtype('f4'),
          lambda: np.dtype([('a', 'f4')]), lambda: np.dtype([('b', 'f4')]), lambda: Ellipsis, lambda: NotImplemented,
          lambda: functools.partial(some_function, 1), lambda: functools.partial(some_function, x=1),
          lambda: operator.itemgetter(1), lambda: operator.itemgetter(2), lambda: collections.deque([1, 2]),
          lambda: collections.deque([2, 1]), lambda: collections.deque([1, 2], 5), lambda: np.arange(3)[::-1],
          lambda: collections.OrderedDict(), lambda: collections.Counter(), lambda: [].append, lambda: [1].append,
          lambda: [].extend, lambda: {}.pop, lambda: 'a'.join, lambda: 'b'.join] + [
    lambda m=m, f=f: types.MethodType(f, m) for m in MODULES for f in (some_function, other_function)]
UNHASHABLE = {i for i, f in enumerate(EXTRAS) if getattr(type(f()), '__hash__', None) is None or isinstance(f(), np.ndarray)}
# Equal to other numbers, or compared by identity
NOTKEYS = UNHASHABLE | {i for i, f in enumerate(EXTRAS)
                        if isinstance(f(), (complex, decimal.Decimal, np.generic, functools.partial, operator.itemgetter, np.dtype))
                        or callable(f()) and not isinstance(f(), type)}
O = gen.Options(whats=False, whatables=False, funcs=False, classes=True, trailing=True)


def key(rng, depth):
    r = rng.random()
    if r < 0.12:
        i = rng.choice([i for i in range(len(EXTRAS)) if i not in NOTKEYS])
        return ('extra', i)
    if r < 0.3 and depth:
        return (rng.choice(['tuple', 'fset']), [key(rng, depth - 1) for _ in range(rng.randrange(4))])
    if r < 0.6:
        return ('str', gen.text(rng, True))
    return gen.atom(rng, O, True)


def distinct(keys):
    seen, out = set(), []
    for k in keys:
        n = pynorm(k)
        if n not in seen:
            seen.add(n)
            out.append(k)
    return out


def pynorm(spec):
    """Specs that python could take as equal have the same."""
    kind = spec[0]
    if kind in ('bool', 'int', 'float'):
        return ('number', spec[1])
    if kind == 'tuple':
        return (kind, tuple([pynorm(s) for s in spec[1]]))
    if kind == 'fset':
        return (kind, frozenset([pynorm(s) for s in spec[1]]))
    return ident(spec)


def keys(rng, depth, n):
    if rng.random() < 0.3:
        same = rng.choice(['', '', 'p', 'the same beginning ', '0123456789' * 4, 'k' * 300])
        ks = [('str', same + gen.text(rng, True)) for _ in range(n)]
    elif rng.random() < 0.3:
        ks = [('int', rng.randrange(30)) for _ in range(n)]
    elif rng.random() < 0.3:     # partially ordered
        fam = rng.choice([('int', 4), ('str', 3), ('mixed', 4)])
        atoms = [('str', 'abcd'[j]) if fam[0] == 'str' or (fam[0] == 'mixed' and j % 2) else ('int', j) for j in range(fam[1])]
        ks = [('fset', [a for a in atoms if rng.random() < 0.5]) for _ in range(n)]
        if rng.random() < 0.4:
            ks = [('tuple', [rng.choice([('int', 1), ('int', 1), ('int', 2)]), k]) for k in ks]
    else:
        ks = [key(rng, depth) for _ in range(n)]
    ks = distinct(ks)
    fixed = []
    for k in ks:
        if k[0] in ('fset',):
            k = ('fset', distinct(k[1]))
        fixed.append(k)
    return distinct(fixed)


def value(rng, depth):
    r = rng.random()
    if depth <= 0 or r < 0.25:
        return gen.atom(rng, O)
    if r < 0.35:
        return ('extra', rng.randrange(len(EXTRAS)))
    n = rng.choice([0, 1, 2, 3, 4, 6])
    kind = rng.choice(['list', 'tuple', 'dict', 'dict', 'set', 'fset', 'obj', 'mylist', 'mydict', 'ddict', 'row'])
    if kind in ('list', 'tuple', 'mylist'):
        return (kind, [value(rng, depth - 1) for _ in range(n)])
    if kind in ('set', 'fset'):
        return (kind, keys(rng, depth - 1, n))
    if kind in ('dict', 'mydict', 'ddict'):
        return (kind, [(k, value(rng, depth - 1)) for k in keys(rng, depth - 1, n)])
    if kind == 'row':
        return (kind, [value(rng, depth - 1) for _ in range(2)])
    return ('obj', rng.choice(sorted(OBJECTS)), [(a, value(rng, depth - 1)) for a in rng.sample(['x', 'y', 'z', 'a'], min(n, 4))])


def children(spec):
    kind = spec[0]
    if kind in ('list', 'tuple', 'mylist', 'row', 'set', 'fset'):
        return list(spec[1])
    if kind in ('dict', 'mydict', 'ddict'):
        return [x for kv in spec[1] for x in kv]
    if kind == 'obj':
        return [v for _, v in spec[2]]
    return []


def with_children(spec, new):
    kind = spec[0]
    if kind in ('list', 'tuple', 'mylist', 'row', 'set', 'fset'):
        return (kind, list(new))
    if kind in ('dict', 'mydict', 'ddict'):
        return (kind, list(zip(new[::2], new[1::2])))
    if kind == 'obj':
        return spec[:2] + ([(a, v) for (a, _), v in zip(spec[2], new)],)
    return spec


def hashable(spec):
    return spec[0] not in ('list', 'mylist', 'dict', 'mydict', 'ddict', 'set', 'row', 'obj') and \
        not (spec[0] == 'extra' and spec[1] in NOTKEYS) and all(map(hashable, children(spec)))


def valid(spec):
    kind = spec[0]
    if kind in ('dict', 'mydict', 'ddict', 'set', 'fset'):
        ks = [k for k, _ in spec[1]] if kind.endswith('dict') else spec[1]
        if not all(map(hashable, ks)) or len(distinct(ks)) != len(ks):
            return False
    return all(map(valid, children(spec)))


def paths(spec, prefix=()):
    out = [prefix]
    for i, c in enumerate(children(spec)):
        out += paths(c, prefix + (i,))
    return out


def at(spec, path):
    for i in path:
        spec = children(spec)[i]
    return spec


def replace(spec, path, new):
    if not path:
        return new
    cs = children(spec)
    cs[path[0]] = replace(cs[path[0]], path[1:], new)
    return with_children(spec, cs)


OTHERS = {'list': ['tuple', 'mylist'], 'tuple': ['list'], 'mylist': ['list'], 'set': ['fset', 'list'], 'fset': ['set', 'tuple'],
          'dict': ['mydict', 'ddict'], 'mydict': ['dict', 'ddict'], 'ddict': ['dict', 'mydict'], 'row': ['tuple']}


def edit(rng, spec):
    path = rng.choice(paths(spec))
    node = at(spec, path)
    kind = node[0]
    op = rng.randrange(6)
    if op == 0:
        new = rng.choice([('list', [node]), ('tuple', [node]), ('none',), ('str', 'changed'), ('obj', 'Point', [('x', node)])])
    elif op == 1 and kind in OTHERS:
        new = (rng.choice(OTHERS[kind]),) + node[1:]
    elif kind == 'extra':
        new = ('extra', rng.randrange(len(EXTRAS)))
    elif kind == 'obj':
        attrs = list(node[2])
        if op == 2 and attrs:
            del attrs[rng.randrange(len(attrs))]
            new = node[:2] + (attrs,)
        elif op == 3 and len(attrs) > 1:
            (a, x), (b, y) = attrs[:2]
            new = node[:2] + ([(a, y), (b, x)] + attrs[2:],)
        else:
            new = (kind, rng.choice(sorted(OBJECTS)), attrs)
    elif kind in ('dict', 'mydict', 'ddict'):
        items = list(node[1])
        if op == 2 and items:
            del items[rng.randrange(len(items))]
        elif op == 3 and len(items) > 1:
            i, j = rng.sample(range(len(items)), 2)
            items[i], items[j] = (items[i][0], items[j][1]), (items[j][0], items[i][1])
        else:
            items.append((('str', 'added%d' % rng.randrange(100)), ('none',)))
        new = (kind, items)
    elif kind in ('list', 'tuple', 'mylist', 'set', 'fset', 'row'):
        elements = list(node[1])
        if kind == 'row' and op > 3:
            new = ('row', elements[::-1])
        elif op == 2 and elements:
            del elements[rng.randrange(len(elements))]
            new = (kind, elements)
        elif op == 3 and len(elements) > 1:
            i, j = rng.sample(range(len(elements)), 2)
            elements[i], elements[j] = elements[j], elements[i]
            new = (kind, elements)
        else:
            new = (kind, elements + [rng.choice([('none',), ('int', rng.randrange(1000, 2000))])])
    else:
        new = gen.edit_leaf(rng, node)
    edited = replace(spec, path, new)
    return edited if all(len(children(at(edited, p))) == 2 for p in paths(edited) if at(edited, p)[0] == 'row') else spec


def ident(spec):
    """Value and type identity."""
    kind = spec[0]
    if kind == 'str':
        return spec
    if kind == 'float':
        return (kind, float.__repr__(spec[1]))
    if kind in ('none', 'bool', 'int', 'extra'):
        return spec
    if kind == 'class':
        return (kind, spec[1].__module__, spec[1].__qualname__)
    if kind in ('list', 'tuple', 'mylist', 'row'):
        return (kind, tuple([ident(s) for s in spec[1]]))
    if kind in ('set', 'fset'):
        return (kind, frozenset([ident(s) for s in spec[1]]))
    if kind in ('dict', 'mydict', 'ddict'):
        return (kind, frozenset([(ident(k), ident(v)) for k, v in spec[1]]))
    return (kind, spec[1], frozenset([(a, ident(v)) for a, v in spec[2]]))


def fresh(s):
    """An equal string that is another object."""
    return ''.join([s[:1], s[1:]]) if len(s) > 1 else s


def shuffled(items, rng):
    items = list(items)
    if rng is not None:
        rng.shuffle(items)
    return items


def build(spec, rng=None):
    kind = spec[0]
    if kind == 'extra':
        return EXTRAS[spec[1]]()
    if kind == 'str':
        return fresh(spec[1])
    if kind == 'list':
        return [build(s, rng) for s in spec[1]]
    if kind == 'mylist':
        return MyList([build(s, rng) for s in spec[1]])
    if kind == 'tuple':
        return tuple([build(s, rng) for s in spec[1]])
    if kind == 'row':
        return Row(*[build(s, rng) for s in spec[1]])
    if kind in ('set', 'fset'):
        s = set()
        for x in shuffled(spec[1], rng):
            s.add(build(x, rng))
        return frozenset(s) if kind == 'fset' else s
    if kind in ('dict', 'mydict', 'ddict'):
        d = {'dict': dict, 'mydict': MyDict, 'ddict': lambda: collections.defaultdict(list)}[kind]()
        for k, v in shuffled(spec[1], rng):
            d[build(k, rng)] = build(v, rng)
        return d
    if kind == 'obj':
        o = OBJECTS[spec[1]]()
        for a, v in shuffled(spec[2], rng):
            setattr(o, a, build(v, rng))
        return o
    return gen.build(spec)


def snapshot(o, depth=0):
    """All that can be seen in an object, insertion orders included."""
    if isinstance(o, dict):
        return (type(o), [(snapshot(k), snapshot(v)) for k, v in o.items()])
    if isinstance(o, (list, tuple, set, frozenset)):
        return (type(o), [snapshot(x) for x in o])
    if isinstance(o, Slots):
        return (type(o), [(a, snapshot(getattr(o, a))) for a in o.__slots__ if hasattr(o, a)])
    if isinstance(o, Point):
        # in PyPy the order of the attributes of an instance can change at any time
        return (type(o), sorted([(a, snapshot(v)) for a, v in o.__dict__.items()]))
    if isinstance(o, np.ndarray):
        return (type(o), str(o.dtype), o.shape, o.strides, repr(o.tolist()))
    return (type(o), gen_repr(o))


def gen_repr(o):
    r = repr(o)
    return r if ' at 0x' not in r else type(o).__name__


def hashers():
    from whatami.minijoblib import hashing
    from whatami import plugins
    return hashing.hasher, plugins.hasher


def ask(t, obj, algorithm='md5'):
    own, plugin = hashers()
    h = t.ok('hasher', own, obj, hash_name=algorithm)
    t.event('algorithm:' + algorithm)
    t.check(isinstance(h, str) and len(h) == {'md5': 32, 'sha1': 40}[algorithm] and set(h) <= set('0123456789abcdef'),
            'not a digest', got=h)
    if algorithm == 'md5':
        t.same(t.ok('plugins.hasher', plugin, obj), h, 'the hashers do not agree')
    return h


def objects(t, rng, i):
    while True:
        spec = value(rng, rng.choice([1, 2, 3, 3]))
        if children(spec) and valid(spec):
            break
    t.event('object')
    obj = build(spec)
    before = snapshot(obj)
    for algorithm in ('md5', rng.choice(['md5', 'sha1'])):
        h = ask(t, obj, algorithm)
        t.event('unchanged')
        t.same(snapshot(obj), before, 'hashing changes the object', spec=spec)
        for _ in range(2):
            t.event('rebuilt')
            t.same(ask(t, build(spec, random.Random(rng.random())), algorithm), h, 'equal objects with different hashes', spec=spec)
        for _ in range(3):
            edited = edit(rng, spec)
            if not valid(edited):
                continue
            t.event('edited')
            other = ask(t, build(edited, random.Random(rng.random())), algorithm)
            same = ident(edited) == ident(spec)
            t.check((other == h) == same, 'equal objects with different hashes' if same else 'different objects with the same hash',
                    one=spec, other=edited, hash=h)
    t.seen(ident(spec) and h)
    t.sample(repr(spec))


def mixed(t, rng, i):
    """Keys and elements that cannot be ordered."""
    n = rng.choice([2, 3, 5, 30])
    ks = distinct([rng.choice([('int', rng.randrange(50)), ('str', rng.choice('abcdefgh')), ('none',),
                               ('tuple', [('int', rng.randrange(9))]), ('fset', distinct([('int', rng.randrange(4)) for _ in range(2)])),
                               ('extra', rng.choice([6, 7, 8, 15, 16])), ('bool', rng.random() < .5),
                               ('tuple', [('none',), ('str', rng.choice('ab'))])]) for _ in range(n)])
    for kind in ('set', 'fset', 'dict', 'mydict', 'ddict'):
        spec = (kind, ks if kind.endswith('set') else [(k, value(rng, 1)) for k in ks])
        if not valid(spec):
            continue
        t.event('mixed keys')
        h = ask(t, build(spec))
        for _ in range(3):
            t.event('rebuilt')
            t.same(ask(t, build(spec, random.Random(rng.random()))), h, 'equal objects with different hashes', spec=spec)
        for _ in range(3):
            edited = edit(rng, spec)
            if valid(edited) and ident(edited) != ident(spec):
                t.event('edited')
                t.check(ask(t, build(edited)) != h, 'different objects with the same hash', one=spec, other=edited)
        t.seen(h)


@unsharded
def crowd(t, rng, i):
    """Many small objects that cannot be ordered."""
    for make in (lambda n: {None, 'a', n}, lambda n: frozenset([None, n]), lambda n: {None: 1, n: 2}, lambda n: {None: n, 'a': 1}, lambda n: [{None, (n,)}],
                 lambda n: {'a', 'b', n, None, (1, None)}):
        hashes = {}
        for n in range(500):
            h = ask(t, make(n))
            t.event('crowd')
            t.check(h not in hashes, 'different objects with the same hash', one=make(n), other=make(hashes.get(h, 0)))
            hashes[h] = n
    t.seen('crowd')


TWINS = [(-1, -2), (0, 2 ** 61 - 1), (5, 5 + 2 ** 61 - 1), (-7, -7 - (2 ** 61 - 1)), (1, 2 ** 61), (3, 3 + 2 * (2 ** 61 - 1))]


def long_ints(t, rng, i):
    """Integers of any length, different in a single bit."""
    bits = rng.choice([63, 64, 65, 127, 128, 255, 256, 257, 300, 511, 1023, 1025, 2039, 2040, 4097, 20000])
    n = (1 << bits) | rng.getrandbits(bits)
    n = rng.choice([n, -n])
    others = [n ^ (1 << rng.randrange(bits - 1)), n ^ (1 << (bits - 2)), n ^ 1, n + 1, -n, ~n, n & ((1 << (bits // 2)) - 1), n + (1 << bits)]
    wrap = rng.choice([lambda n: n, lambda n: [n], lambda n: {'a': n}, lambda n: {n, 'x'}, lambda n: {n: 1}, lambda n: (n, n)])
    own = ask(t, wrap(n))
    t.same(ask(t, wrap(int(hex(n), 16))), own, 'equal objects with different hashes', n=hex(n))
    for other in others:
        if other != n:
            t.event('long integers')
            t.check(ask(t, wrap(other)) != own, 'different objects with the same hash', one=hex(n), other=hex(other))
    t.seen(('long', hex(n)))


def twins(t, rng, i):
    """Different numbers that python hashes alike, among others that cannot be ordered."""
    one, other = rng.choice(TWINS)
    rest = rng.sample([('str', 'a'), ('none',), ('tuple', [('int', 40)]), ('fset', [('int', 41)]), ('str', ''), ('int', 42)], rng.randrange(0, 5))
    for kind in ('set', 'fset', 'dict', 'ddict', 'tuple', 'list'):
        def make(n):
            items = rest + [n]
            rng.shuffle(items)
            if kind in ('tuple', 'list'):
                items = rest + [n]
            return build((kind, [(k, ('none',)) for k in items] if kind.endswith('dict') else items))
        wrap = rng.choice([lambda s: s, lambda s: ('tuple', [s, ('str', 'x')])])
        t.event('twins')
        t.check(ask(t, make(wrap(('int', one)))) != ask(t, make(wrap(('int', other)))), 'different objects with the same hash', kind=kind, one=one,
                other=other, rest=rest)
    t.seen(('twins', one, rest))


def pairs(t, rng, i):
    """All the pairs in a pool of similar and different objects."""
    pool = {}
    specs = [('extra', j) for j in range(len(EXTRAS))] + [
        ('none',), ('bool', True), ('bool', False), ('int', 1), ('int', 0), ('float', 1.), ('float', 0.), ('float', -0.),
        ('str', ''), ('str', '1'), ('str', 'ab'), ('list', []), ('tuple', []), ('set', []), ('fset', []), ('dict', []),
        ('mylist', []), ('mydict', []), ('ddict', []), ('obj', 'Point', []), ('obj', 'Pixel', []), ('obj', 'Slots', []),
        ('int', 255), ('int', 256), ('int', -1), ('int', 65535), ('int', 65536), ('int', 2 ** 31), ('int', 2 ** 31 - 1),
        ('int', 2 ** 63), ('int', -2 ** 63), ('int', 2 ** 2040), ('int', 2 ** 2041), ('str', 'a' * 255), ('str', 'a' * 256),
        ('str', 'a' * 65536), ('str', u'\xe9'), ('str', u'e\u0301'), ('list', [('none',)] * 999), ('list', [('none',)] * 1000),
        ('list', [('none',)] * 1001), ('list', [('none',)] * 2000), ('list', [('none',)] * 2001)]
    wrap = rng.choice([lambda s: s, lambda s: ('list', [s]), lambda s: ('tuple', [s, s]), lambda s: ('dict', [(('str', 'k'), s)]),
                       lambda s: ('obj', 'Point', [('x', s)]), lambda s: ('list', [('list', [s]), ('int', 1)]),
                       lambda s: ('ddict', [(('int', 3), s)]), lambda s: ('mylist', [('none',), s])])
    for spec in [wrap(s) for s in specs]:
        obj = build(spec)
        h = ask(t, obj)
        t.event('distinct pairs', len(pool))
        t.check(h not in pool, 'different objects with the same hash', one=pool.get(h), other=spec, hash=h)
        t.same(ask(t, build(spec)), h, 'equal objects with different hashes', spec=spec)
        pool[h] = spec
    t.seen(sorted(pool))


def huge(t, rng, i):
    """Objects of which hashing goes over hundreds of thousands of bytes, which differ in one place."""
    n = rng.choice([50000, 80000])
    kind = ('numbers', 'texts', 'text', 'bytes', 'pairs', 'dict')[i % 6]
    build_ = {'numbers': lambda: list(range(1000, 1000 + n)), 'texts': lambda: ['word %d' % j for j in range(n)],
              'text': lambda: ['abcdefg%d ' % j for j in range(n)], 'bytes': lambda: [b'%d ' % j for j in range(n)],
              'pairs': lambda: [(j, None) for j in range(n)], 'dict': lambda: ['k%d' % j for j in range(n)]}[kind]
    finish = {'text': ''.join, 'bytes': b''.join, 'dict': lambda items: dict.fromkeys(items, 1)}.get(kind, lambda items: items)
    h = ask(t, finish(build_()))
    for where in (n // 2, rng.randrange(n), rng.randrange(n // 3, 2 * n // 3)):
        items = build_()
        old = items[where]
        items[where] = b'x' * len(old) if kind == 'bytes' else 'x' * len(old) if kind == 'text' else -33 if kind == 'numbers' else 'x'
        t.event('huge')
        t.check(ask(t, finish(items)) != h, 'different objects with the same hash', size=n, where=where, kind=kind)
    t.seen((kind, n, h))


def large(t, rng, i):
    n = rng.choice([130, 300, 600, 999, 1000, 1001, 1100, 2500, 5000])
    t.event('large')
    kind = rng.choice(['dict', 'mixed', 'alike', 'alike', 'set', 'fset', 'list', 'tuple', 'deep', 'text'])
    sparse = rng.random() < 0.5
    where = rng.choice([0, 1, n // 2, n - 2, n - 1, rng.randrange(n)])

    def make(change, order):
        items = ['k%d' % j if kind != 'mixed' or j % 2 else j for j in range(n)]
        if change == 1:
            items[where] = 'changed'
        elif change == 2:
            del items[where]
        if kind == 'alike':     # keys that show the same
            items = [k if j % 7 or sparse and j > 40 or k == 'changed' else int(j) for j, k in enumerate(items)]
            items += ['%d' % k for k in items if type(k) is int]
        if order and kind not in ('list', 'tuple', 'text'):
            items = items[::-1]
        if kind in ('dict', 'mixed', 'alike'):
            return {k: 0 for k in items}
        if kind == 'deep':
            x = [len(items), 'changed' in items]
            for j in range(60):
                x = [x] if j % 2 else {'x': x, 'y': j} if not order else {'y': j, 'x': x}
            return x
        if kind == 'text':
            return ''.join(items)
        return {'set': set, 'fset': frozenset, 'list': list, 'tuple': tuple}[kind](items)
    h = ask(t, make(0, False))
    t.event('rebuilt')
    t.same(ask(t, make(0, True)), h, 'equal objects with different hashes', size=n, kind=kind)
    for change in (1, 2):
        t.event('edited')
        t.check(ask(t, make(change, False)) != h, 'different objects with the same hash', size=n, where=where, kind=kind)
    if kind in ('dict', 'mixed', 'alike'):
        changed = make(0, False)
        changed[list(changed)[where]] = 1
        t.event('edited')
        t.check(ask(t, changed) != h, 'different objects with the same hash', size=n, where=where, kind=kind)
    t.seen((kind, n, where, h))


def shared(t, rng, i):
    """Objects that hold the same object several times, or themselves."""
    def make(changed):
        part = {'a': [1, 2], 'b': {3, 'x'}}
        if changed:
            part['a'].append(3)
        word = 'shared text'
        cycle = [1]
        cycle.append(cycle)
        owner = Point(x=part)
        owner.y = owner
        return [part, part, word, cycle, owner, {'k': part}]
    h = ask(t, make(False))
    t.event('shared')
    t.same(ask(t, make(False)), h, 'equal objects with different hashes')
    t.check(ask(t, make(True)) != h, 'different objects with the same hash')
    # strings are values, whether they are the same object or not
    s = gen.text(rng, True) + 'zz'
    long = (s[:20] + 'wxyz') * rng.choice([50, 300, 1500, 5000])
    for word in (s, s.encode('utf8', 'surrogatepass'), long, long.encode('utf8', 'surrogatepass')):
        t.same(ask(t, [word, word, {word: word}, (word,)]),
               ask(t, [word, word[:1] + word[1:], {word[:2] + word[2:]: word[:1] + word[1:]}, (word[:-1] + word[-1:],)]),
               'equal strings hash different depending on their identity', word=word)
    # memory maps
    own, _ = hashers()
    import tempfile
    with tempfile.NamedTemporaryFile() as f:
        a = np.arange(rng.randrange(1, 20))
        m = np.memmap(f.name, dtype=a.dtype, mode='w+', shape=a.shape)
        m[:] = a
        t.check(own([m]) != own([a]), 'arrays of different classes with the same hash')
        t.same(own([m], coerce_mmap=True), own([a], coerce_mmap=True), 'memory maps do not hash as arrays on request')
        t.same(own([a], coerce_mmap=True), own([a]), 'arrays hash different')
    t.seen((s, h))


def batch(seed, n):
    """Hashes of n objects, in json; used by other processes."""
    from whatami.minijoblib.hashing import hasher
    rng = random.Random(seed)
    out = []
    while len(out) < n:
        spec = value(rng, 3)
        if children(spec) and valid(spec):
            out.append((hasher(build(spec, random.Random(os.getpid()))), repr(spec)[:500]))
    return out


def processes(t, rng, i):
    n = 60
    hashes = batch('%s' % i, n)
    env = dict(os.environ, PYTHONHASHSEED=str(rng.randrange(1, 10 ** 6)))
    code = 'import json; from mon.checks.c17 import batch; print("RESULT" + json.dumps(batch(%r, %d)))' % ('%s' % i, n)
    out = subprocess.run([sys.executable, '-W', 'ignore', '-c', code], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
    t.check(b'RESULT' in out.stdout, 'hashing fails in another process', stderr=out.stderr.decode('utf8', 'replace')[-1500:])
    others = json.loads(out.stdout.decode('utf8').split('RESULT', 1)[1])
    for (h, spec), (other, other_spec) in zip(hashes, others):
        t.event('other process')
        t.check(h == other, 'hashes depend on the process', spec=spec, other=other_spec)
        t.seen(h)


PHASES = [('larger sizes', sizes.hashes, {'quick': 2, 'thorough': 24}),
          ('long integers', long_ints, {'quick': 40, 'thorough': 2000}),
          ('twins', twins, {'quick': 30, 'thorough': 600}),
          ('objects', objects, {'quick': 600, 'thorough': 12000}),
          ('mixed', mixed, {'quick': 30, 'thorough': 900}),
          ('crowd', crowd, {'quick': 1, 'thorough': 1}),
          ('pairs', pairs, {'quick': 6, 'thorough': 60}),
          ('large', large, {'quick': 50, 'thorough': 600}),
          ('huge', huge, {'quick': 6, 'thorough': 60}),
          ('shared', shared, {'quick': 40, 'thorough': 400}),
          ('processes', processes, {'quick': 4, 'thorough': 24})]
