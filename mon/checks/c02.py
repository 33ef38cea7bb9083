# coding=utf-8
"""C02: ids follow the documented canonical syntax."""
import datetime
import decimal
import fractions

import numpy as np

from .. import gen, ref, sizes
from ..core import unsharded

PROPERTY = 'C02'
TECHNIQUE = "runtime monitoring: every id produced is compared online with an independent reference renderer"
RULE = ('random configurations over all the supported kinds of values and nestings, compared with an independent '
        'renderer written from the documentation; non-trivial: size over 1; distinct by id')
REQUIRE = {'large sizes': 1, 'large': 35, 'dictionary': 300, 'subclass': 90, 'What.id': 800, 'build_string': 800, 'kind:set': 40, 'kind:fset': 40, 'kind:dict': 40, 'kind:func': 40,
           'kind:partial': 40, 'kind:whatable': 40, 'kind:what': 40, 'kind:class': 20}
O = gen.Options(nonids=True, nan=True, classes=True, trailing=True)


def configurations(t, rng, i):
    spec = gen.what(rng, O, 3)
    if rng.random() < 0.12:    # the same names everywhere
        kvs = rng.choice([[], [], spec[3][:1], [(spec[1], ('int', 1))], [(spec[1], ('what', spec[1], spec[1], [], []))]])
        spec = ('what', spec[1], spec[1], kvs, rng.choice([[], [k for k, _ in kvs]]))
    w = gen.build(spec, rng)
    for k in gen.kinds(spec):
        t.event('kind:' + k)
    t.same(t.ok('What.id', w.id), ref.render(spec), 'the id is not the canonical one', spec=spec)
    expected_all = ref.render(spec, nonids_too=True)
    t.same(t.ok('What.id', w.id, nonids_too=True), expected_all, 'wrong id with non-id parameters', spec=spec)
    t.same(t.ok('str(What)', str, w), expected_all, 'wrong printed configuration', spec=spec)
    if gen.size(spec) > 1:
        t.seen(ref.render(spec))
        t.sample(ref.render(spec))


def values(t, rng, i):
    from whatami.plugins import WhatamiPluginManager
    from whatami import What, what2id
    spec = gen.value(rng, O, 3)
    for k in gen.kinds(spec):
        t.event('kind:' + k)
    v = gen.build(spec, rng)
    expected = ref.render(spec)
    t.same(t.ok('build_string', WhatamiPluginManager.build_string, v), expected, 'wrong value in ids', spec=spec)
    t.same(t.ok('What.id', What('f', {'x': v}).id), 'f(x=%s)' % expected, 'wrong value as a parameter', spec=spec)
    t.same(t.ok('What.id', What('f', {'x': [v], 'k': {'d': v}}, out_name='o').id),
           "o=f(k={'d':%s},x=[%s])" % (expected, expected), 'wrong value inside collections', spec=spec)
    if spec[0] in ('what', 'whatable'):
        t.same(t.ok('what2id', what2id, v), expected, 'wrong id from what2id', spec=spec)
    elif spec[0] in ('func', 'partial'):  # these are inspected, so by default private parameters are not considered
        name = spec[1] if spec[0] == 'func' else spec[1][1]
        trimmed = ('what', name, None, [(k, x) for k, x in ref.bound(spec) if gen.visible(k)], [])
        t.same(t.ok('what2id', what2id, v), ref.render(trimmed), 'wrong id from what2id', spec=spec)
    t.seen(expected)


class MyInt(int):
    """Only the types of numbers themselves are shown in another way."""


class MyFloat(float):
    pass


class MyComplex(complex):
    pass


class Plain(object):
    def __init__(self, x=None):
        self.x = x

    def method(self):
        pass


class WithStr(object):
    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text


def opaque(t, rng, i):
    """Objects without proper representation never leak addresses."""
    from whatami import What
    makers = [lambda: object(), lambda: Plain(rng.random()), lambda: Plain().method, lambda: (x for x in ()),
              lambda: type('Dyn%d' % rng.randrange(9), (object,), {})()]
    make = rng.choice(makers)
    nest = rng.choice([lambda v: v, lambda v: [v], lambda v: (1, v), lambda v: {'k': v}, lambda v: What('g', {'v': v}),
                       lambda v: [{'a': (v, v)}]])
    state = rng.getstate()
    one = t.ok('What.id', What('f', {'x': nest(make())}).id)
    rng.setstate(state)
    keep = [Plain() for _ in range(5)]
    two = t.ok('What.id', What('f', {'x': nest(make())}).id)
    t.same(one, two, 'the identity of an object leaks into the id', keep=len(keep))
    t.check('0x' not in one, 'a memory address leaks into the id', id=one)
    text = rng.choice(['hey', '3.5kg', 'WithStr(3)', u'\xe9'])
    t.same(t.ok('What.id', What('f', {'x': WithStr(text)}).id), 'f(x=%s)' % text, 'objects with text are shown with it')
    t.same(t.ok('What.id', What('f', {'x': [int, float, complex]}).id), 'f(x=[int(),float(),complex()])',
           'wrong numeric types')
    c = rng.choice([bool, MyInt, MyFloat, MyComplex, datetime.datetime, fractions.Fraction, type, object, str, bytes, type(None), Plain, Warning, decimal.Decimal, np.float64, np.int32, np.complex128, np.bool_, np.ndarray])
    shown = "<class '%s'>" % (c.__qualname__ if c.__module__ == 'builtins' else '%s.%s' % (c.__module__, c.__qualname__))
    t.same(t.ok('What.id', What('f', {'x': nest(c)}).id), What('f', {'x': nest(WithStr(shown))}).id(), 'wrong class as a value', c=c)
    t.seen(('opaque', one, shown))


def unsupported(t, rng, i):
    """Values documented as impossible to identify fail loudly, at any depth."""
    from whatami import What
    v = rng.choice([len, sorted, max, property(lambda self: 0)])
    nest = rng.choice([lambda v: v, lambda v: [v], lambda v: (1, v), lambda v: {'k': v}, lambda v: What('g', {'v': v})])
    t.raises('What.id', Exception, What('f', {'x': nest(v)}).id)
    t.seen(('unsupported', repr(type(v)), rng.random()))


@unsharded
def dictionary(t, rng, i):
    """Every literal in the code under test as a value, and every size close to its numbers."""
    for spec in gen.dictionary(trailing=True):
        w = gen.build(spec, rng)
        t.same(t.ok('What.id', w.id), ref.render(spec), 'the id is not the canonical one', spec=spec)
        t.event('dictionary')
        t.seen(ref.render(spec))


def large(t, rng, i):
    """Collections with many elements."""
    from whatami import What
    n = rng.choice([100, 129, 200, 257, 513, 1025, 2000, 4100][:8 if i % 4 == 0 else 5])
    element = rng.choice([lambda k: ('int', rng.choice([k, -k, k * 7919 % 100003])), lambda k: ('str', rng.choice([str(k), 'k%d' % k, 'x' * (k % 40)])),
                          lambda k: ('float', rng.choice([k / 2., -k * 1e10])), lambda k: ('tuple', [('int', k % 17), ('str', str(k))]),
                          lambda k: gen.atom(rng, O, True)])
    elements = [element(k) for k in range(n)]
    rng.shuffle(elements)
    kind = rng.choice(['set', 'set', 'fset', 'dict', 'dict', 'list', 'tuple', 'what'])
    if kind in ('set', 'fset'):
        spec = (kind, gen.unique(elements))
    elif kind == 'dict':
        spec = (kind, [(k, ('int', m % 10)) for m, k in enumerate(gen.unique(elements))])
    elif kind == 'what':
        spec = (kind, 'g', None, [('p%d' % m, e) for m, e in enumerate(elements)], [])
    else:
        spec = (kind, elements)
    expected = ref.render(spec)
    t.same(t.ok('What.id', What('f', {'x': gen.build(spec, rng)}).id), 'f(x=%s)' % expected, 'wrong value as a parameter')
    t.event('large')
    t.seen(expected)


def subclasses(t, rng, i):
    """Classes of containers are shown with their own names."""
    from whatami import What
    base = rng.choice([list, tuple, set, frozenset, dict])
    name = base.__name__ if rng.random() < 0.2 else rng.choice(['_T', 'T_', '__T', '_', 'T', 'list', 'tuple', 'OrderedDict', 'seq', 'T1', 'lambda', u'\xc9', 'What', 'T_t', 'None'])
    cls = type(name, (base,), {'__module__': rng.choice(['m', 'builtins', '__main__'])})
    elements = gen.unique([gen.atom(rng, O, True) for _ in range(rng.choice([0, 1, 2, 9]))])
    if base is dict:
        spec = ('dict', [(k, ('int', n)) for n, k in enumerate(elements)])
    else:
        spec = ({list: 'list', tuple: 'tuple', set: 'set', frozenset: 'set'}[base], elements)
    shown = '%s(seq=%s)' % (name, ref.render(spec))
    obj = cls(gen.build(spec, rng))
    t.same(t.ok('What.id', What('f', {'x': obj}).id), 'f(x=%s)' % shown, 'wrong instance of a subclass of a container')
    t.same(t.ok('What.id', What('f', {'x': [What('g', {'y': (obj,)})]}).id), 'f(x=[g(y=(%s))])' % shown,
           'wrong instance of a subclass of a container')
    t.event('subclass')
    t.seen(shown)


PHASES = [('larger sizes', sizes.ids, {'quick': 2, 'thorough': 24}),
          ('subclasses', subclasses, {'quick': 150, 'thorough': 5000}),
          ('large', large, {'quick': 60, 'thorough': 2000}),
          ('dictionary', dictionary, {'quick': 1, 'thorough': 5}),
          ('configurations', configurations, {'quick': 900, 'thorough': 60000}),
          ('values', values, {'quick': 900, 'thorough': 60000}),
          ('opaque', opaque, {'quick': 60, 'thorough': 1000}),
          ('unsupported', unsupported, {'quick': 30, 'thorough': 300})]
