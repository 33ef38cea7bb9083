# coding=utf-8
"""C36: configuration equality is a consistent value equality."""
import copy
import pickle
from collections import OrderedDict
from types import SimpleNamespace

from whatami import What
from .. import gen, ref, sizes

PROPERTY = 'C36'
TECHNIQUE = ('runtime monitoring: online monitor of the comparisons, hashes and memberships of generated configurations '
             'against a value equality model, with near-equal configurations and hostile objects')
RULE = ('pairs of configurations which are the same, the same built in another order or with other keys out of the id, '
        'slightly edited, or unrelated; each compared both ways, hashed and looked up in sets and dictionaries; '
        'non-trivial: pairs that differ in one edit')
REQUIRE = {'large sizes': 1, 'equal': 300, 'different': 300, 'hash': 300, 'member': 200, 'other object': 800, 'copy': 300, 'non ids': 100, 'another class': 60,
           'history': 60, 'changed': 100, 'large': 20}
O = gen.Options(whatables=False, funcs=False, nonids=True)
OH = gen.Options(whatables=False, funcs=False, nonids=True, maxkeys=3, maxlen=3)


def model(spec):
    """Python equality of what a spec builds, as a hashable value."""
    kind = spec[0]
    if kind in ('bool', 'int', 'float'):
        return ('number', spec[1])
    if kind == 'none':
        return ('none',)
    if kind in ('str', 'class'):
        return (kind, spec[1])
    if kind in ('list', 'tuple'):
        return (kind, tuple([model(s) for s in spec[1]]))
    if kind in ('set', 'fset'):
        return ('set', frozenset([model(s) for s in spec[1]]))
    if kind == 'dict':
        return ('dict', frozenset([(model(k), model(v)) for k, v in spec[1]]))
    if kind == 'what':
        return ('what', spec[1], spec[2], frozenset([(k, model(v)) for k, v in spec[3]]))
    raise ValueError(kind)


def compare(t, one, two, equal, **detail):
    for a, b in ((one, two), (two, one)):
        t.event('equal' if equal else 'different')
        got = t.ok('==', lambda: a == b)
        t.check(got is True or got is False, 'the comparison does not answer True or False', got=got, a=a, b=b, **detail)
        t.check(got is equal, 'should be equal' if equal else 'should be different', a=a, b=b, **detail)
        t.check(t.ok('!=', lambda: a != b) is (not equal), '!= is not the opposite of ==', a=a, b=b, **detail)
    if equal:
        t.event('hash')
        t.check(t.ok('hash', hash, one) == t.ok('hash', hash, two), 'equal configurations with different hashes',
                a=one, b=two, **detail)


def membership(t, one, two, equal):
    t.event('member')
    t.same(len(t.ok('set', lambda: {one, two})), 1 if equal else 2, 'wrong number of members in a set', a=one, b=two)
    t.check((two in {one}) is equal and (one in {two: 1}) is equal and (one in [two]) is equal and
            (two in frozenset([1, one])) is equal, 'wrong membership', a=one, b=two, equal=equal)
    d = {one: 'one'}
    d[two] = 'two'
    t.same((len(d), d[one], d[two]), (1, 'two', 'two') if equal else (2, 'one', 'two'), 'wrong dictionary keys',
           a=one, b=two)
    t.check((({one} == {two}) is equal) and (([one, (two,)] == [two, (one,)]) is equal) and
            (({'x': one} == {'x': two}) is equal), 'wrong comparison inside collections', a=one, b=two)


def without_non_ids(spec, rng):
    """The same parameters, some other of them out of the id."""
    if spec[0] == 'what':
        spec = spec[:4] + ([k for k, _ in spec[3] if rng.random() < 0.5],)
    return gen.with_children(spec, [without_non_ids(c, rng) for c in gen.children(spec)])


class Relative(What):
    pass


def pairs(t, rng, i):
    spec = gen.what(rng, O, rng.randrange(0, 4))
    what = gen.build(spec)
    compare(t, what, what, True)
    compare(t, what, gen.build(spec, rng), True, how='other order')
    membership(t, what, gen.build(spec, rng), True)
    t.event('another class')
    relative = gen.build(spec, rng)
    relative = Relative(relative.name, relative.conf, relative.non_id_keys, relative.out_name)
    compare(t, what, relative, True, how='of a subclass')
    membership(t, what, relative, True)
    relative.conf = dict(relative.conf, one_more=1)
    compare(t, what, relative, False, how='of a subclass')
    t.event('non ids')
    compare(t, what, gen.build(without_non_ids(spec, rng), rng), True, how='other keys out of the id')

    for _ in range(4):
        other = spec
        for _ in range(rng.choice([1, 1, 1, 2])):
            other = gen.edit(rng, other)
        if not gen.valid(other) or other[0] != 'what':
            continue
        equal = model(other) == model(spec)
        two = gen.build(other, rng)
        compare(t, what, two, equal, spec=spec, other=other)
        membership(t, what, two, equal)
        if not equal:
            t.seen((spec, other))
            t.sample('%r != %r' % (what, two))
    unrelated = gen.what(rng, O, 1)
    compare(t, what, gen.build(unrelated, rng), model(unrelated) == model(spec))


def parameters(t, rng, i):
    """A single change in any of the parameters, also the non-id ones, makes configurations different."""
    from whatami import What
    spec = gen.what(rng, O, 2)
    what = gen.build(spec)
    conf = dict(what.conf)
    nonids = set(what.non_id_keys)
    k = rng.choice(list(conf) + ['new_key'])
    for mine in (nonids, nonids | {k}, set(conf)):
        for value in (object(), 'another-%d' % i):
            two = What(what.name, dict(conf, **{k: value}), non_id_keys=mine, out_name=what.out_name)
            compare(t, what, two, False, key=k)
        if k in conf:
            two = What(what.name, {key: v for key, v in conf.items() if key != k}, mine, what.out_name)
            compare(t, what, two, False, key=k)
            two = What(what.name, {(key + 'q' if key == k else key): v for key, v in conf.items()}, mine, what.out_name)
            compare(t, what, two, False, key=k)
        compare(t, what, What(what.name + 'x', conf, mine, what.out_name), False)
        for name in ('x' + what.name, what.name.swapcase(), what.name + '_', what.name + ' ', '_' + what.name, what.name * 2):
            compare(t, what, What(name, conf, mine, what.out_name), name == what.name)
        for key in list(conf)[:2]:
            if key.swapcase() not in conf:
                two = What(what.name, {(k2.swapcase() if k2 == key else k2): v for k2, v in conf.items()}, mine, what.out_name)
                compare(t, what, two, False, key=key)
        compare(t, what, What(what.name, conf, mine, (what.out_name or '') + 'x'), False)
        compare(t, what, What(what.name, OrderedDict(reversed(list(conf.items()))), mine, what.out_name), True)
    outs = [None, '', 'x', 'f', what.name]
    for o1 in outs:
        for o2 in outs:
            compare(t, What('f', conf, out_name=o1), What('f', dict(conf), out_name=o2), o1 == o2, outs=(o1, o2))
    t.seen(('parameters', spec, k))


def large(t, rng, i):
    """Many parameters, long names, texts and collections: one difference anywhere makes configurations different."""
    t.event('large')
    size = rng.randrange(9, 30)
    conf = {'p%d' % n: rng.choice([n, 'text-%d' % n, [n] * rng.randrange(1, 30), {'k%d' % n: n}, 'x' * 300, 10 ** 30 + n,
                                   What('in', {'q': list(range(20))})]) for n in range(size)}
    nonids = rng.sample(sorted(conf), rng.randrange(0, 4))
    name = 'n' * rng.choice([1, 40, 300])
    what = What(name, conf, nonids)
    keys = list(conf)
    rng.shuffle(keys)
    same = What(name, {k: copy.deepcopy(conf[k]) for k in keys}, rng.sample(keys, 2))
    compare(t, what, same, True)
    membership(t, what, same, True)
    for key in keys:
        v = conf[key]
        if isinstance(v, list):
            v = v[:-1] + [-1]
        elif isinstance(v, str):
            v = v[:-1] + '!'
        elif isinstance(v, int):
            v = v + 1
        elif isinstance(v, dict):
            v = {k: -1 for k in v}
        else:
            v = What('in', {'q': list(range(19)) + [0]})
        compare(t, what, What(name, dict(conf, **{key: v}), nonids), False, key=key)
    key = rng.choice(keys)
    compare(t, what, What(name, {k: v for k, v in conf.items() if k != key}, nonids), False, key=key)
    compare(t, what, What(name[:-1] + 'm', conf, nonids), False)
    t.seen(('large', size, name, tuple(keys)))


def copies(t, rng, i):
    import whatami as wm
    spec = gen.what(rng, O, 3)
    what = gen.build(spec, rng)
    expected = model(spec)
    for how, fn in (('copy', what.copy), ('deep copy', lambda: what.copy(deep=True)),
                    ('copy.copy', lambda: copy.copy(what)), ('copy.deepcopy', lambda: copy.deepcopy(what)),
                    ('pickle', lambda: pickle.loads(pickle.dumps(what, -1)))):
        t.event('copy')
        other = t.ok(how, fn)
        compare(t, what, other, True, how=how)
        membership(t, what, other, True)
        # from then on each one has its own value
        t.event('changed')
        k = rng.choice(list(other.conf) + ['k'])
        other.conf = dict(other.conf)
        other.conf[k] = object()
        compare(t, what, other, False, how=how)
        other.conf = dict(what.conf)
        compare(t, what, other, True, how=how)
        if rng.random() < 0.5:
            other.name += 'x'
        else:
            other.out_name = (other.out_name or '') + 'x'
        compare(t, what, other, False, how=how)
    # parsed ones, when there is nothing that parsing does not give back as it was
    clean = gen.what(rng, gen.Options(whatables=False, funcs=False), 2)
    if not any("'" in s or '\\' in s for s in gen.strings(clean)):
        one = gen.build(clean, rng)
        compare(t, one, t.ok('parse_whatid', wm.parse_whatid, one.id()), True, how='parsed')
        membership(t, one, wm.parse_whatid(one.id()), True)
    t.same(model(spec), expected, 'the monitor is wrong')
    t.seen(('copies', spec))


class Bare(object):
    """Nothing in common with a configuration."""


class Slotted(object):
    __slots__ = ('name', 'conf')


class Permissive(object):
    """Has any attribute."""

    def __getattr__(self, item):
        if item.startswith('__'):
            raise AttributeError(item)
        return 'anything'


class Unhashable(object):
    __hash__ = None

    def __eq__(self, other):
        return self is other


def others(t, rng, i):
    """Comparing with anything else does not fail, and only what is equal is equal."""
    import pandas as pd
    import whatami as wm
    spec = gen.what(rng, O, 2)
    what = gen.build(spec)
    slotted, slotted2 = Slotted(), Slotted()
    slotted2.name = what.name
    objects = [None, True, 0, 1.5, float('nan'), '', what.name, what.id(), str(what), b'bytes', (), [], {}, set(), what.conf,
               dict(what.conf, extra=object()), (what.name, what.conf), [what], {'name': what.name, 'conf': what.conf}, object(),
               type, wm.What, wm, what.id, lambda x: 1, NotImplemented, Ellipsis, Bare(), Bare, slotted, slotted2,
               Permissive(), Unhashable(), SimpleNamespace(name=what.name), SimpleNamespace(conf=what.conf),
               SimpleNamespace(name=what.name, conf=what.conf), SimpleNamespace(out_name=what.out_name, name=what.name),
               SimpleNamespace(name=what.name, conf=None, out_name=None), SimpleNamespace(name=[], conf=[], out_name=[]),
               pd.Timestamp('2020'), Exception('x'), iter([]), range(3), memoryview(b'x'),
               SimpleNamespace(name=what.name, conf=dict(what.conf, extra=1), out_name=what.out_name),
               SimpleNamespace(name=what.name + 'x', conf=what.conf, out_name=what.out_name),
               SimpleNamespace(name=what.name, conf=what.conf, out_name='not ' + (what.out_name or ''))]
    for other in objects:
        t.event('other object')
        if not isinstance(other, SimpleNamespace):
            compare(t, what, other, False)
        else:
            t.check(t.ok('==', lambda: what == other) is False, 'equal to an incomplete object', other=other)
            t.check(t.ok('!=', lambda: what != other) is True, '!= is not the opposite of ==', other=other)
    hashables = []
    for other in objects:
        try:
            hash(other)
        except TypeError:
            continue
        if other == other:
            hashables.append(other)
    t.check(t.ok('in', lambda: what in objects) is False, 'found where it is not')
    t.check(t.ok('in', lambda: what in set(hashables)) is False, 'found where it is not')
    mixed = t.ok('set', lambda: set(hashables) | {what})
    t.check(what in mixed and gen.build(spec, rng) in mixed, 'not found among other objects')
    t.check(objects.index(what) == len(objects) - 1 if objects.append(gen.build(spec, rng)) is None else False,
            'found as another object')
    # inside other values
    compare(t, wm.What('f', {'x': what}), wm.What('f', {'x': gen.build(spec, rng)}), True)
    for other in rng.sample(objects[:-1], 6):
        compare(t, wm.What('f', {'x': what}), wm.What('f', {'x': other}), False)
    t.seen(('others', spec))


def history(t, rng, i):
    """A set and a dictionary of configurations, against the same with the model values."""
    pool = []
    for _ in range(4):
        spec = gen.what(rng, OH, rng.randrange(0, 3))
        pool.append(spec)
        for _ in range(3):
            other = gen.edit(rng, spec)
            if other[0] == 'what' and gen.valid(other):
                pool.append(other)
    members, keys = set(), {}
    mmembers, mkeys = set(), {}
    for step in range(30):
        spec = rng.choice(pool)
        what, m = gen.build(spec, rng), model(spec)
        t.event('history')
        op = rng.choice(['add', 'discard', 'set', 'pop', 'in', 'union', 'sub'])
        if op == 'add':
            t.ok('add', members.add, what)
            mmembers.add(m)
        elif op == 'discard':
            t.ok('discard', members.discard, what)
            mmembers.discard(m)
        elif op == 'set':
            t.ok('setitem', keys.__setitem__, what, step)
            mkeys[m] = step
        elif op == 'pop':
            t.same(t.ok('pop', keys.pop, what, None), mkeys.pop(m, None), 'wrong value under a configuration', what=what)
        elif op == 'union':
            members |= {what}
            mmembers |= {m}
        elif op == 'sub':
            members = members - {what}
            mmembers = mmembers - {m}
        t.same((len(members), len(keys)), (len(mmembers), len(mkeys)), 'wrong number of members', what=what, op=op)
        t.same((what in members, keys.get(what)), (m in mmembers, mkeys.get(m)), 'wrong member', what=what, op=op)
    for spec in pool:
        what, m = gen.build(spec, rng), model(spec)
        t.same((what in members, keys.get(what)), (m in mmembers, mkeys.get(m)), 'wrong member', what=what)
    t.seen(('history', i))


def equivalence(t, rng, i):
    """Transitivity over families of variations."""
    specs = [gen.what(rng, OH, 2)]
    for _ in range(7):
        other = gen.edit(rng, rng.choice(specs))
        if other[0] == 'what' and gen.valid(other):
            specs.append(other)
    whats = [gen.build(s, rng) for s in specs]
    models = [model(s) for s in specs]
    for a, ma in zip(whats, models):
        for b, mb in zip(whats, models):
            compare(t, a, b, ma == mb)
    t.same(len(set(whats)), len(set(models)), 'wrong number of different configurations', whats=whats)
    t.seen(('family', tuple(ref.render(s) for s in specs)))


PHASES = [('larger sizes', sizes.equals, {'quick': 2, 'thorough': 24}),
          ('pairs', pairs, {'quick': 120, 'thorough': 12000}),
          ('parameters', parameters, {'quick': 40, 'thorough': 2500}),
          ('large', large, {'quick': 40, 'thorough': 3000}),
          ('copies', copies, {'quick': 80, 'thorough': 8000}),
          ('others', others, {'quick': 40, 'thorough': 2500}),
          ('history', history, {'quick': 25, 'thorough': 3000}),
          ('equivalence', equivalence, {'quick': 25, 'thorough': 3000})]
