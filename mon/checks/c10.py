# coding=utf-8
"""C10: flattened keys enumerate every parameter and address exactly its value."""
import array
import collections
import types

import numpy

from .. import gen, ref, sizes

PROPERTY = 'C10'
TECHNIQUE = ('runtime monitoring: flattened addresses and every retrieval compared online with a reference model of the '
             'configuration tree, and between configurations filled in other orders')
RULE = ('random configurations nesting configurations, whatables, sequences (also long ones) and dictionaries with keys '
        'of several families, flattened with all the combinations of options; every listed address and random invalid '
        'ones (unknown keys, out of range, into leaves, of wrong type) retrieved; distinct by id; non-trivial: there is '
        'at least one nested address')
gen.SUBCLASSES = False
REQUIRE = {'large sizes': 1, 'flatten': 1000, 'getitem': 3000, 'get': 4000, 'invalid': 1000, 'address in a dictionary': 200,
           'address in a sequence': 300, 'address in a configuration': 300, 'falsy value': 150, 'hidden': 50,
           'address in a whatable': 20, 'uncomparable keys': 15, 'shared': 12,
           'address of a subclass': 60, 'partly ordered': 400, 'no collection': 150}
O = gen.Options(nonids=True, outs=True, dict_keys='str')

FAMILIES = [
    lambda rng: ('str', gen.text(rng)),
    lambda rng: ('int', rng.randrange(-50, 200)),
    lambda rng: rng.choice([('int', rng.randrange(-9, 9)), ('float', rng.uniform(-9, 9)), ('bool', True)]),
    lambda rng: rng.choice([('none',), ('int', rng.randrange(9)), ('str', gen.text(rng)), ('bool', False)]),
    lambda rng: ('tuple', [('int', rng.randrange(4)), ('str', gen.text(rng))]),
    lambda rng: rng.choice([('tuple', [('int', rng.randrange(4)), ('int', 7)]), ('none',), ('str', 'x')]),
]


def rekey(rng, spec, memo=None):
    """Dictionaries get keys of one of the families (and what is shared remains shared)."""
    memo = {} if memo is None else memo
    if id(spec) not in memo:
        memo[id(spec)] = spec, _rekey(rng, spec, memo)
    return memo[id(spec)][1]


def _rekey(rng, spec, memo):
    spec = gen.with_children(spec, [rekey(rng, c, memo) for c in gen.children(spec)])
    if spec[0] == 'dict':
        family = rng.choice(FAMILIES)
        keys = gen.unique([family(rng) for _ in spec[1]])
        spec = ('dict', list(zip(keys, [v for _, v in spec[1]])))
    if spec[0] in ('list', 'tuple') and rng.random() < 0.03:
        spec = (spec[0], (list(spec[1]) + [('int', n) for n in range(rng.choice([11, 25, 101]))]))
    return spec


def model(spec, address, non_ids, in_collections, recursive, out, t=None):
    """Expected [(address, spec of the value)]."""
    kind = spec[0]
    if kind == 'what':
        kvs = sorted([(k, v) for k, v in spec[3] if non_ids or k not in spec[4]], key=lambda kv: kv[0])
        if address and t is not None and kvs:
            t.event('address in a configuration', len(kvs))
    elif kind in ('list', 'tuple') and in_collections:
        kvs = list(enumerate(spec[1]))
        if t is not None and kvs:
            t.event('address in a sequence', len(kvs))
    elif kind == 'dict' and in_collections:
        kvs = [(gen.build(k), v, k) for k, v in spec[1]]
        try:
            kvs = sorted(kvs, key=lambda kv: kv[0])
        except TypeError:
            kvs = sorted(kvs, key=lambda kv: ref.render(kv[2]))
            if t is not None:
                t.event('uncomparable keys')
        kvs = [kv[:2] for kv in kvs]
        if t is not None and kvs:
            t.event('address in a dictionary', len(kvs))
    else:
        kvs = []
    for k, v in kvs:
        out.append((address + (k,), v))
        if recursive:
            model(v, address + (k,), non_ids, in_collections, recursive, out, t)
    return out


def listed(address):
    return address if len(address) > 1 else address[0]


def typed(key):
    return tuple([(type(k).__name__, k) for k in key]) if isinstance(key, tuple) else (type(key).__name__, key)


def make(rng):
    spec = rekey(rng, gen.what(rng, O, rng.choice([2, 3, 4])))
    inner = [gen.at(spec, p) for p in gen.paths(spec) if p]
    inner = [s for s in inner if s[0] in ('what', 'list', 'tuple', 'dict', 'whatable') and gen.children(s)]
    if inner and rng.random() < 0.25 and 'again' not in dict(spec[3]):   # the very same object at several addresses
        again = rng.choice(inner)
        spec = spec[:3] + (spec[3] + [('again', rng.choice([again, ('list', [again, again]), ('dict', [(('str', 'k'), again)])]))],) + spec[4:]
    if rng.random() < 0.1:   # a deep one
        for n in range(rng.choice([5, 12])):
            wrap = rng.randrange(4)
            spec = ('what', 'deep', None, [('k%d' % n, spec if wrap == 0 else ('list', [('none',), spec]) if wrap == 1 else
                                           ('dict', [(('str', 'in'), spec)]) if wrap == 2 else ('tuple', [spec])), ('a', ('int', n))],
                    ['a'] if rng.random() < 0.3 else [])
    return flavours(rng, spec, {}) if rng.random() < 0.4 else spec


def flavours(rng, spec, memo):
    """Some collections are of classes that inherit from the usual ones."""
    if spec[0] in ('whatable', 'func', 'partial'):
        return spec
    if id(spec) not in memo:
        if spec[0] == 'dict':
            new = ('dict', [(k, flavours(rng, v, memo)) for k, v in spec[1]])
        else:
            new = gen.with_children(spec, [flavours(rng, c, memo) for c in gen.children(spec)])
        if new[0] in gen.FLAVOURS and rng.random() < 0.5:
            new += (rng.choice(gen.FLAVOURS[new[0]]),)
        elif new[0] == 'what' and rng.random() < 0.4:
            new += ('MyWhat',)
        memo[id(spec)] = spec, new
    return memo[id(spec)][1]


def flavour(spec):
    return spec[2] if spec[0] in gen.FLAVOURS and len(spec) > 2 else spec[5] if spec[0] == 'what' and len(spec) > 5 else None


def plain(spec):
    return gen.with_children(spec, [plain(c) for c in gen.children(spec)])[:None if not flavour(spec) else 5 if spec[0] == 'what' else 2]


def addresses(t, rng, i):
    spec = make(rng)
    w = gen.build(spec)
    everything = model(spec, (), True, True, True, [])
    for non_ids in (False, True):
        for in_collections in (False, True):
            for recursive in (False, True):
                kw = {}
                for k, v, default in (('non_ids_too', non_ids, False), ('collections_too', in_collections, False),
                                      ('recursive', recursive, True)):
                    if v != default or rng.random() < 0.5:
                        kw[k] = v
                expected = model(spec, (), non_ids, in_collections, recursive, [], t)
                keys, values = t.ok('flatten', w.flatten, **kw)
                t.same([typed(k) for k in keys], [typed(listed(a)) for a, _ in expected], 'wrong flattened keys',
                       spec=spec, options=kw)
                t.same(len(values), len(keys), 'keys and values do not correspond', spec=spec, options=kw)
                for v, (a, s) in zip(values, expected):
                    t.check(equal(v, s), 'the value listed is not that of the parameter', address=a, got=v, expected=s,
                            spec=spec)
                t.same([typed(k) for k in t.ok('keys', w.keys, **kw)], [typed(k) for k in keys],
                       'keys do not agree with flatten', options=kw)
                for a, b in zip(t.ok('values', w.values, **kw), values):
                    t.check(same(a, b), 'values do not agree with flatten', options=kw)
                del keys[:], values[:]     # what is returned belongs to the caller
                if len(expected) < len(everything):
                    t.event('hidden')
    containers = [id(s) for _, s in everything if s[0] in ('what', 'list', 'tuple', 'dict') and gen.children(s)]
    if len(set(containers)) < len(containers):
        t.event('shared')
    before = t.ok('id', w.id)
    for a, s in everything:
        if flavour(s):
            t.event('address of a subclass')
        retrieve(t, rng, w, spec, listed(a), s)
        if len(a) == 1:
            retrieve(t, rng, w, spec, a, s)
        if s[0] == 'whatable':
            for k, v in s[3]:
                if gen.visible(k):
                    retrieve(t, rng, w, spec, a + (k,), v)
                    t.event('address in a whatable')
    for _ in range(12):
        invalid(t, rng, w, spec, everything)
    t.same(t.ok('id', w.id), before, 'asking for addresses changes the configuration', spec=spec)
    if any(len(a) > 1 for a, _ in everything):
        shown = ref.render(plain(spec), True)
        t.seen(shown)
        t.sample('%s: %s' % (shown[:300], [listed(a) for a, _ in everything][:6]))


def equal(v, s):
    if any(flavour(gen.at(s, p)) for p in gen.paths(s)):
        if s[0] in gen.FLAVOURS and type(v).__name__ != {None: s[0], 'namedtuple': 'Named'}.get(flavour(s), flavour(s)):
            return False
        if s[0] == 'what' and flavour(s) and type(v).__name__ != flavour(s):
            return False
        if s[0] == 'dict':
            return len(v) == len(s[1]) and all(gen.build(k) in v and equal(v[gen.build(k)], sv) for k, sv in s[1])
        if s[0] == 'what':
            return (v.name, v.out_name, v.non_id_keys, set(v.conf)) == (s[1], s[2], set(s[4]), {k for k, _ in s[3]}) and \
                all(equal(v.conf[k], sv) for k, sv in s[3])
        return len(v) == len(s[1]) and all(equal(a, b) for a, b in zip(v, s[1]))
    if s[0] in ('whatable', 'func', 'partial'):
        from whatami.plugins import WhatamiPluginManager
        return WhatamiPluginManager.build_string(v) == ref.render(s)
    if s[0] == 'what':
        return v.id() == ref.render(s) and str(v) == ref.render(s, True)
    return loose(v, s)


def loose(v, s):
    """Same value and type (nested things that cannot be compared structurally are compared by id)."""
    from whatami.plugins import WhatamiPluginManager
    return type(v).__name__ == {'none': 'NoneType', 'fset': 'frozenset'}.get(s[0], s[0]) and \
        WhatamiPluginManager.build_string(v) == ref.render(s)


def same(a, b):
    return a is b or (type(a) is type(b) and a == b)


def retrieve(t, rng, w, spec, address, s):
    v = t.ok('getitem', lambda: w[address])
    t.check(equal(v, s), 'the address retrieves another value', address=address, got=v, expected=s, spec=spec)
    default = rng.choice([None, 'default', 33])
    got = t.ok('get', w.get, address, default) if rng.random() < 0.6 else t.ok('get', w.get, address)
    t.check(same(got, v), 'get and item access do not agree', address=address, got=got, expected=v, spec=spec)
    if s[0] in ('none',) or (s[0] in ('bool', 'int', 'float', 'str', 'list', 'tuple', 'dict') and not s[1]):
        t.event('falsy value')


MISSING = object()


def invalid(t, rng, w, spec, everything):
    bogus = rng.choice(['not_there', 'zzz', 'x ', 'X', 10 ** 6, None, 3.25, ('not', 'there'), 'conf', 'name', '__class__'])
    if not everything or rng.random() < 0.2:
        address = rng.choice([bogus, (bogus,), (bogus, bogus), (bogus, 0)])
    else:
        a, s = rng.choice(everything)
        r = rng.random()
        if r < 0.4:
            if s[0] == 'str' and not isinstance(bogus, (str, tuple, float, type(None))):
                return
            address = a + (bogus,)
        elif r < 0.6:
            if s[0] not in ('list', 'tuple'):
                return
            address = a + (rng.choice([len(s[1]), len(s[1]) + 1, 10 ** 20 if False else 10 ** 9, '0', 0.5]),)
        elif r < 0.8:
            if len(a) < 2:
                return
            address = a[1:]
        else:
            address = a + tuple([bogus]) + a
    # does the address name something?
    if names_something(spec, address):
        return
    t.event('invalid')
    out = t.call('getitem', lambda: w[address])
    t.check(out.failed and isinstance(out.exc, KeyError), 'an address that names nothing should be a missing key',
            address=address, outcome=out, spec=spec)
    t.check(t.ok('get', w.get, address, MISSING) is MISSING, 'get of an address that names nothing should give the default',
            address=address, spec=spec)
    t.check(t.ok('get', w.get, address) is None, 'get of an address that names nothing should give none by default',
            address=address)


def names_something(spec, address):
    if not isinstance(address, tuple):
        return spec[0] == 'what' and address in dict(spec[3])
    for k in address:
        kind = spec[0]
        if kind == 'what':
            found = [v for n, v in spec[3] if n == k]
        elif kind == 'whatable':
            found = [v for n, v in spec[3] if n == k and gen.visible(n)]
        elif kind in ('list', 'tuple'):
            if isinstance(k, (int, bool)):
                if k < 0:
                    return True   # python semantics, not decided
                found = [spec[1][k]] if k < len(spec[1]) else []
            else:
                found = []
        elif kind == 'dict':
            found = [v for n, v in spec[1] if gen.build(n) == k]
        elif kind == 'str':
            return not isinstance(k, str)   # characters of strings are not decided
        elif kind in ('class', 'func', 'partial'):
            return True
        else:
            found = []
        if not found:
            return False
        spec = found[0]
    return True


def partly_ordered_key(rng, depth=0):
    """Keys that are equal, comparable, not comparable or neither smaller nor larger than the others."""
    r = rng.random()
    if r < 0.55 or depth > 1:
        return ('fset', gen.unique([rng.choice([('int', rng.randrange(6)), ('str', rng.choice('abc'))]) for _ in range(rng.randrange(3))]))
    if r < 0.8:
        return ('tuple', [partly_ordered_key(rng, depth + 1), ('int', rng.randrange(3))])
    return rng.choice([('int', rng.randrange(5)), ('str', rng.choice('xy')), ('none',)])


def partly_ordered(t, rng, i):
    """Equal configurations list the same addresses in the same order, whatever the order of insertion."""
    keys = gen.unique([partly_ordered_key(rng) for _ in range(rng.randrange(2, 7))])
    if rng.random() < 0.5:
        keys = [k for k in keys if k[0] == 'fset'] or keys
    items = [(k, rng.choice([('int', n), ('list', [('int', n), ('dict', [(('fset', [('int', n)]), ('none',))])])])) for n, k in enumerate(keys)]
    nest = rng.choice([lambda d: d, lambda d: ('list', [('int', 0), d]), lambda d: ('what', 'in', None, [('d', d)], []),
                       lambda d: ('dict', [(('str', 'k'), d)])])
    listings = []
    for n in range(4):
        shuffled = list(items)
        if n:
            rng.shuffle(shuffled)
        spec = ('what', 'f', None, [('x', nest(('dict', shuffled))), ('y', ('int', 1))], [])
        w = gen.build(spec)
        listed_keys, values = t.ok('flatten', w.flatten, collections_too=True)
        everything = model(spec, (), False, True, True, [])
        t.same(len(listed_keys), len(everything), 'wrong flattened keys', spec=spec)
        t.same(set(listed_keys), {listed(a) for a, _ in everything}, 'wrong flattened keys', spec=spec)
        expected = {listed(a): s for a, s in everything}
        for k, v in zip(listed_keys, values):
            t.check(equal(v, expected[k]), 'the value listed is not that of the parameter', address=k, got=v, spec=spec)
            retrieve(t, rng, w, spec, k, expected[k])
        t.same(t.ok('keys', w.keys, collections_too=True), listed_keys, 'keys do not agree with flatten')
        listings.append(listed_keys)
        t.same(listed_keys, listings[0], 'equal configurations list their addresses in another order', spec=spec)
        t.event('partly ordered')
    t.seen(repr(listings[0]))


class Indexable(object):
    """Something with elements, that is none of the collections."""

    def __init__(self, n):
        self.elements = list(range(n))

    def __getitem__(self, n):
        return self.elements[n]

    def __len__(self):
        return len(self.elements)

    def keys(self):
        return list(range(len(self.elements)))

    def items(self):
        return list(enumerate(self.elements))


def others(t, rng, i):
    """Things with elements that are neither lists, tuples nor dictionaries have no addresses inside."""
    from whatami import What
    n = rng.randrange(0, 5)
    v = rng.choice([lambda: range(n), lambda: collections.deque(range(n)), lambda: set(range(n)), lambda: frozenset(range(n)), lambda: 'x' * n,
                    lambda: b'x' * n, lambda: bytearray(n), lambda: {k: k for k in range(n)}.items(), lambda: {k: k for k in range(n)}.keys(),
                    lambda: iter(range(n)), lambda: array.array('i', range(n)), lambda: numpy.arange(n), lambda: Indexable(n),
                    lambda: types.MappingProxyType({'k': n}), lambda: collections.UserList(range(n)), lambda: collections.ChainMap({'k': n}),
                    lambda: collections.UserDict(k=n), lambda: slice(n), lambda: memoryview(b'x' * n), lambda: list, lambda: What, lambda: enumerate([n])])()
    nest, prefix = rng.choice([(lambda v: v, ()), (lambda v: [0, v], (1,)), (lambda v: (v,), (0,)), (lambda v: {'k': v}, ('k',)), (lambda v: What('g', {'y': v}), ('y',))])
    w = What('f', {'x': nest(v), 'a': 1})
    keys, values = t.ok('flatten', w.flatten, collections_too=True)
    wanted = ['a', 'x'] + ([('x', 0)] if prefix == (1,) else []) + ([('x',) + prefix] if prefix else [])
    t.same(keys, wanted, 'wrong flattened keys', value=repr(v))
    t.check(values[-1] is v and values[0] == 1, 'the value listed is not that of the parameter', value=repr(v))
    t.check(w[keys[-1]] is v and w.get(keys[-1]) is v, 'the address retrieves another value', value=repr(v))
    t.same(t.ok('keys', w.keys, collections_too=True), wanted, 'keys do not agree with flatten', value=repr(v))
    t.check(t.ok('values', w.values, collections_too=True)[-1] is v, 'values do not agree with flatten', value=repr(v))
    t.same(t.ok('keys', w.keys), ['a', 'x'] + ([('x', 'y')] if prefix == ('y',) else []), 'wrong flattened keys', value=repr(v))
    t.same(t.ok('keys', w.keys, collections_too=True, recursive=False), ['a', 'x'], 'wrong flattened keys', value=repr(v))
    t.event('no collection')
    t.seen(('no collection', type(v).__name__, prefix))


PHASES = [('larger sizes', sizes.flat, {'quick': 2, 'thorough': 24}),
          ('others', others, {'quick': 250, 'thorough': 3000}),
          ('addresses', addresses, {'quick': 400, 'thorough': 8000}),
          ('partly ordered', partly_ordered, {'quick': 150, 'thorough': 3000})]
