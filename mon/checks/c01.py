# coding=utf-8
"""C01: equal configurations always produce the same id."""
import functools
import json
import os
import random
import subprocess
import sys
import types

from .. import gen, ref, sizes
from ..core import VERIF, unsharded

PROPERTY = 'C01'
TECHNIQUE = "runtime monitoring: metamorphic monitors of ids over permuted rebuilds, histories and fresh processes"
RULE = ('random configurations over all the supported kinds of values, rebuilt with shuffled insertion orders of '
        'parameters, dictionaries and sets at all depths; ids asked repeatedly, interleaved with other operations and '
        'in fresh processes; non-trivial: at least two permutable elements')
REQUIRE = {'large sizes': 1, 'What.id': 5000, 'permuted': 3000, 'fresh process ids': 60, 'permuted large': 40, 'repeated': 60}
O = gen.Options(nonids=True, nan=True, classes=True)


def fingerprint(obj, depth=0):
    """Everything that could change in an object, order and identity included."""
    if depth > 8:
        return id(obj)
    t = type(obj)
    if t.__name__ == 'What':
        return ('What', id(obj), obj.name, obj.out_name, sorted(map(str, obj.non_id_keys)), id(obj.conf),
                fingerprint(obj.conf, depth + 1))
    if isinstance(obj, dict):
        return ('dict', id(obj), [(fingerprint(k, depth + 1), fingerprint(v, depth + 1)) for k, v in obj.items()])
    if isinstance(obj, (list, tuple)):
        return (t.__name__, id(obj) if obj else 0, [fingerprint(o, depth + 1) for o in obj])
    if isinstance(obj, (set, frozenset)):
        return (t.__name__, id(obj) if obj else 0, [fingerprint(o, depth + 1) for o in obj])
    if obj is None or isinstance(obj, (bool, int, float, str)):
        return repr(obj)
    if isinstance(obj, type):
        return (t.__name__, id(obj))
    if isinstance(obj, functools.partial):
        return ('partial', id(obj), fingerprint(obj.func, depth + 1), [fingerprint(a, depth + 1) for a in obj.args],
                [(k, fingerprint(v, depth + 1)) for k, v in obj.keywords.items()])
    if isinstance(obj, types.FunctionType):
        return ('function', id(obj), [fingerprint(a, depth + 1) for a in obj.__defaults__ or ()],
                [(k, fingerprint(v, depth + 1)) for k, v in (obj.__kwdefaults__ or {}).items()], sorted(obj.__dict__))
    attributes = [(k, fingerprint(v, depth + 1) if k != 'what' else None)
                  for k, v in sorted(getattr(obj, '__dict__', {}).items())]
    for c in t.__mro__:
        slots = c.__dict__.get('__slots__', ())
        for k in [slots] if isinstance(slots, str) else slots:
            attributes.append((k, fingerprint(getattr(obj, k, None), depth + 1)))
    return (t.__name__, id(obj), attributes)


def permutations(t, rng, i):
    spec = gen.what(rng, O, 3)
    w = gen.build(spec)
    before = fingerprint(w)
    first = t.ok('What.id', w.id)
    shown = t.ok('str(What)', str, w)
    t.same(t.ok('What.id', w.id), first, 'asking twice gives different ids', spec=spec)
    t.same(fingerprint(w), before, 'asking for the id changed the configuration', spec=spec)
    for _ in range(3):
        shuffled = gen.build(spec, random.Random(rng.random()))
        t.event('permuted')
        t.same(t.ok('What.id', shuffled.id), first, 'equal configurations with different ids', spec=spec)
        t.same(t.ok('str(What)', str, shuffled), shown, 'equal configurations shown differently', spec=spec)
    t.same(t.ok('What.id', w.id), first, 'the id changed after building equal configurations', spec=spec)
    if gen.size(spec) > 2:
        t.seen(ref.render(spec))
        t.sample(first)


def histories(t, rng, i):
    """Ids are stable while other things happen."""
    import whatami as wm
    from whatami.plugins import WhatamiPluginManager
    pool = []
    for _ in range(4):
        spec = gen.what(rng, O, 2)
        w = gen.build(spec, rng)
        pool.append((spec, w, t.ok('What.id', w.id), fingerprint(w)))
    for _ in range(12):
        spec, w, first, before = rng.choice(pool)
        op = rng.randrange(9)
        if op == 0:
            t.call('parse_whatid', wm.parse_whatid, first)
        elif op == 1:
            t.ok('build_string', WhatamiPluginManager.build_string, w)
        elif op == 2:
            t.call('What.flatten', w.flatten, collections_too=rng.random() < 0.5)
        elif op == 3:
            t.ok('What.id', w.id, maxlength=rng.randrange(0, 30))
        elif op == 4:
            t.ok('What.positional_id', w.positional_id, non_ids_too=rng.random() < 0.5)
        elif op == 5:
            t.ok('repr', repr, w)
        elif op == 6:
            t.ok('copy', w.copy)
        elif op == 7:
            t.ok('whatadd', wm.whatadd, w, 'brand_new_key', [1, 'a'])
        else:
            t.call('to_dict', w.to_dict)
        for spec, w, first, before in pool:
            t.same(t.ok('What.id', w.id), first, 'the id changed along the history', spec=spec)
            t.same(fingerprint(w), before, 'the configuration changed along the history', spec=spec)
    t.seen(('history',) + tuple(p[2] for p in pool))


def batch(seed, n):
    ids = []
    for i in range(n):
        rng = random.Random('%s:fresh:%d' % (seed, i))
        spec = gen.what(rng, O, 3)
        ids.append((spec, rng))
    return ids


def child(seed, n):
    print(json.dumps([gen.build(spec, random.Random('other:%s' % os.environ['PYTHONHASHSEED'])).id()
                      for spec, _ in batch(seed, n)]))


@unsharded
def fresh_processes(t, rng, i):
    n = 60
    seed = '%s-%d' % (t.seed, i)
    here = [gen.build(spec).id() for spec, _ in batch(seed, n)]
    env = dict(os.environ, PYTHONHASHSEED=str(rng.randrange(1, 10000)))
    if i % 2:  # other import orders should not matter either
        pre = 'import whatami.registry, numpy, whatami.plugins; '
    else:
        pre = ''
    proc = subprocess.run([sys.executable, '-W', 'ignore', '-c',
                           pre + 'from mon.checks import c01; c01.child(%r, %d)' % (seed, n)],
                          env=env, cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if proc.returncode != 0:
        t.fail('generating ids in a fresh process failed', stderr=proc.stderr.decode('utf-8', 'replace')[-1500:])
    there = json.loads(proc.stdout.decode('utf-8').strip().splitlines()[-1])
    for (spec, _), a, b in zip(batch(seed, n), here, there):
        t.event('fresh process ids')
        t.same(b, a, 'the id is different in another process', spec=spec)
        t.seen(('fresh', a))


def family(rng):
    """Values so related that some ways of ordering them do not tell them apart."""
    kind = rng.choice([0, 0, 1, 1, 1, 2, 3, 4, 5, 6, 7, 8, 8])
    if kind == 0:     # only partially ordered
        return [('fset', [('int', n) for n in ns]) for ns in
                rng.sample([[1], [2], [3], [1, 2], [4], [2, 3], [], [5], [10], [1, 10]], rng.randrange(2, 6))]
    if kind == 1:     # the same up to some character
        sep = rng.choice([':', ':', ':', ',', ',', '=', '=', "'", "'", '"', ' ', '(', ')', '.', '_', '-', '\n', '\\\\', '#', '{', ';', '\x00'])
        first = rng.choice(['a', '', 'key', 'A b', u'\xe9'])
        return [('str', first + sep + x) for x in rng.sample(['1', '2', 'x', 'X', 'y', '', '10', ' ', sep + sep], rng.randrange(2, 6))]
    if kind == 2:     # the same up to the case, spaces, accents...
        first = rng.choice(['ab', 'stra\xdfe', 'x y'])
        return [('str', x) for x in sorted({first, first.upper(), first.title(), first + ' ', ' ' + first, first + 'e', first + u'\xe9',
                                            first + u'e\u0301', first.casefold(), first.replace(' ', '\t')})]
    if kind == 3:     # the same length, the same beginning, the same end...
        return [('str', x) for x in rng.sample(['aab', 'aba', 'baa', 'abb', 'bab', 'bba', 'aaa' * 40 + 'a', 'aaa' * 40 + 'b'], 5)]
    if kind == 4:     # of many types
        return [('none',), ('bool', True), ('int', 0), ('int', 10), ('int', 9), ('int', -1), ('float', 0.5), ('float', 9.5), ('str', '9'),
                ('str', 'None'), ('tuple', []), ('tuple', [('int', 9)]), ('fset', []), ('str', '')]
    if kind == 5:     # the same but for a part
        inner = [('int', 1), ('int', 2), ('str', '1'), ('none',), ('int', 10), ('float', 1.5)]
        return [('tuple', [('str', 'a'), x, ('int', 0)]) for x in rng.sample(inner, rng.randrange(2, 6))]
    if kind == 6:
        inner = [('int', 1), ('int', 2), ('str', '1'), ('none',), ('int', 10), ('float', 1.5)]
        return [('what', 'f', None, [('a', ('int', 0)), ('b', x)], []) for x in rng.sample(inner, rng.randrange(2, 6))]
    if kind == 8:     # numbers, among which some not ordered at all
        return [('float', float('nan'))] + [('float', n) for n in rng.sample([-2.5, 0.25, 1.5, 2.5, 10.5, float('inf'), -float('inf')],
                                                                               rng.randrange(0, 4))] + [
            ('int', n) for n in rng.sample([-1, 0, 1, 2, 3, 10, 20], rng.randrange(1, 4))]
    return [('what', 'f', o, [('a', ('int', 0))], []) for o in rng.sample(['o', 'O', 'o1', 'o2', 'p'], rng.randrange(2, 5))] + [
        ('what', rng.choice(['F', 'f1']), None, [('a', ('int', 0))], [])]


def related(t, rng, i):
    members = gen.unique(family(rng))
    kind = rng.choice(['set', 'fset', 'dict', 'dict', 'keys'])
    if kind == 'dict':
        values = [('int', j) for j in range(len(members))]
        if rng.random() < 0.3:
            rng.shuffle(values)
        if rng.random() < 0.2:
            values = [('int', 7)] * len(members)
        v = ('dict', list(zip(members, values)))
    elif kind == 'keys':
        first = rng.choice(['a', 'x1', '_', 'Key'])
        keys = sorted({first, first + '1', first + '10', first + '2', first.upper(), first + '_', first + 'A', first + first})
        v = ('what', 'f', None, [(k, rng.choice(members)) for k in keys], [])
    else:
        v = (kind, members)
    spec = ('what', 'f', None, [('x', rng.choice([v, ('list', [v]), ('what', 'g', None, [('y', v)], [])]))], [])
    first = t.ok('What.id', gen.build(spec).id)
    for _ in range(6):
        t.event('permuted')
        t.same(t.ok('What.id', gen.build(spec, random.Random(rng.random())).id), first, 'equal configurations with different ids', spec=spec)
    t.seen(('related', first))


def large(t, rng, i):
    """Collections with many elements, filled in several orders."""
    n = rng.choice([50, 100, 129, 257, 513, 1030, 2100][:7 if i % 5 == 0 else 5])
    element = rng.choice([lambda k: ('int', k), lambda k: ('str', rng.choice([str(k), 'k%d' % k])), lambda k: ('float', k / 2.),
                          lambda k: ('tuple', [('int', k % 17), ('str', str(k))]), lambda k: gen.atom(rng, O, True)])
    elements = [element(k) for k in range(n)]
    kind = ['set', 'fset', 'dict', 'what'][i % 4]
    if kind == 'dict':
        v = (kind, [(k, ('int', m % 10)) for m, k in enumerate(gen.unique(elements))])
    elif kind == 'what':
        v = (kind, 'g', None, [('p%d' % m, e) for m, e in enumerate(elements)], [])
    else:
        v = (kind, gen.unique(elements))
    spec = rng.choice([v, ('list', [v]), ('what', 'g', None, [('y', v)], [])])
    spec = ('what', 'f', None, [('x', spec)], [])
    first = t.ok('What.id', gen.build(spec).id)
    for _ in range(2):
        t.event('permuted large')
        t.same(t.ok('What.id', gen.build(spec, random.Random(rng.random())).id), first, 'equal configurations with different ids', n=n, kind=kind)
    t.seen(('large', first))


def repeated(t, rng, i):
    """The same object at several places stays the same object."""
    from whatami import What
    inner = gen.build(rng.choice([('list', [('int', 1)]), ('dict', [(('str', 'a'), ('int', 1))]), ('set', [('int', 1), ('int', 2)]), ('list', []),
                                  ('what', 'g', None, [('x', ('int', 1))], []), ('list', [('list', [('int', 3)])])]), rng)
    others = [gen.build(gen.value(rng, O, 1), rng) for _ in range(rng.randrange(3))]
    n = rng.choice([2, 2, 3])
    items = [inner] * n + others
    if rng.random() < 0.4:
        rng.shuffle(items)
    outer = rng.choice([lambda: items, lambda: tuple(items), lambda: dict(enumerate(items)), lambda: {'a': items, 'b': items},
                        lambda: [items, items], lambda: What('h', {'p%d' % k: v for k, v in enumerate(items)})])()
    w = What('f', {'x': outer, 'y': inner})
    before = fingerprint(w)
    first = t.ok('What.id', w.id)
    t.same(fingerprint(w), before, 'asking for the id changed the configuration', id=first)
    t.ok('positional_id', w.positional_id)
    t.call('flatten', w.flatten)
    t.same(fingerprint(w), before, 'asking changed the configuration', id=first)
    t.same(t.ok('What.id', w.id), first, 'asking twice gives different ids')
    t.event('repeated')
    t.seen(('repeated', first))


PHASES = [('larger sizes', sizes.ids, {'quick': 2, 'thorough': 24}),
          ('repeated', repeated, {'quick': 100, 'thorough': 5000}),
          ('large', large, {'quick': 32, 'thorough': 1500}),
          ('related', related, {'quick': 700, 'thorough': 40000}),
          ('permutations', permutations, {'quick': 700, 'thorough': 40000}),
          ('histories', histories, {'quick': 60, 'thorough': 3000}),
          ('fresh', fresh_processes, {'quick': 1, 'thorough': 12})]
