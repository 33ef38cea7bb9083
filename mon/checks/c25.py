# coding=utf-8
"""C25: sorting configurations by parameters is a stable, consistent permutation."""
import functools

from .. import gen, ref, sizes

PROPERTY = 'C25'
TECHNIQUE = ('runtime monitoring: permutation, order, stability, pairing and agreement monitors over the results of sorting ids and '
             'configurations, against an independent model of the values')
RULE = ('lists of ids and configurations (with repetitions, non-canonical strings, many ties, nested and non-id keys) sorted by zero or '
        'more keys with values of several comparable families; distinct by keys and ids; non-trivial: at least two different values')
REQUIRE = {'large sizes': 1, 'sort whats': 500, 'sort ids': 500, 'ties': 200, 'repeated item': 150, 'nested key': 100, 'several keys': 150, 'no keys': 15, 'digits': 40,
           'non-id key': 40, 'numbers of several types': 35, 'large numbers': 30, 'missing key': 30, 'repeated key': 40, 'long': 10, 'whatvalues': 600}
O = gen.Options(whatables=False, funcs=False, nonids=False)

FAMILIES = {
    'int': lambda rng: ('int', rng.choice([-2, -1, 0, 1, 2, 10, 9, 100])),
    'numbers': lambda rng: rng.choice([('int', 1), ('bool', True), ('float', 1.0), ('int', 0), ('bool', False), ('float', 0.0),
                                       ('float', -0.5), ('int', 2), ('float', float('inf')), ('int', 10 ** 30)]),
    'str': lambda rng: ('str', rng.choice(['a', 'b', 'B', '10', '9', '', ' a', 'a b', "it's", u'\xe9'])),
    'digits': lambda rng: ('str', rng.choice(['9', '10', '2', '07', '100', '1', '-3', '1.5', '1e3'])),
    'case': lambda rng: ('str', rng.choice(['a', 'B', 'b', 'A', 'aa', 'AB', u'\xe9', u'\xc9', 'z', '_', ' '])),
    'tuple': lambda rng: ('tuple', [('int', rng.randrange(3)) for _ in range(rng.randrange(3))]),
    'list': lambda rng: ('list', [('int', rng.randrange(3)) for _ in range(rng.randrange(3))]),
    'large': lambda rng: rng.choice([('int', 2 ** 53 + rng.randrange(4)), ('int', -2 ** 60 + rng.randrange(3)), ('float', 2. ** 53), ('int', 10 ** 400)]),
    'close': lambda rng: ('float', rng.choice([1.0, 1.0000000000000002, 0.9999999999999999, 1.0000000001, 1.00001])),
    'tiny': lambda rng: ('float', rng.choice([1e-20, 2e-20, -1e-20, 5e-324, 1e-13, 0.0])),
    'long': lambda rng: ('str', rng.choice(['x' * 40, 'x' * 41, 'x' * 300 + 'a', 'x' * 300 + 'b'])),
    'constant': lambda rng: ('int', 7),
    'float': lambda rng: ('float', rng.choice([0.5, 1e22, -3.25, 1e-5, 2.0])),
}


def compare(a, b):
    """Python order of tuples of values given by their specs."""
    x, y = tuple([gen.build(s) for s in a]), tuple([gen.build(s) for s in b])
    return -1 if x < y else 1 if y < x else 0


def exact(value):
    return ref.norm_obj(value)


def sorts(t, rng, i):
    from whatami import What, id2what, sort_whatids, sort_whats
    from whatami.whatutils import whatvalues
    long = rng.random() < 0.04
    repeated = rng.choice([0.25, 0.6, 0.97]) if long else 0.25
    n = rng.choice([60, 200]) if long else rng.choice([1, 2, 3, 5, 8, 15])
    keys = rng.sample(['k1', 'k2', 'lag', 'a', 'z'], rng.choice([0, 1, 1, 1, 2, 2, 3]))
    families = {k: rng.choice(sorted(FAMILIES)) for k in keys}
    nested = {k for k in keys if rng.random() < 0.3}
    nonid = {k for k in keys if k not in nested and rng.random() < 0.15}
    where = rng.choice([(), (), (1,), ('d',)])     # directly, in a list or in a dictionary
    specs = []
    for _ in range(n):
        if specs and rng.random() < repeated:
            t.event('repeated item')
            specs.append(rng.choice(specs))
            continue
        kvs = [kv for kv in gen.params(rng, O, 1) if kv[0] not in keys]
        inner = []
        for k in keys:
            v = FAMILIES[families[k]](rng)
            if k in nested:
                inner.append((k, v))
            else:
                kvs.append((k, v))
        if nested:
            # nested in a configuration, that can be in a list
            kvs = [kv for kv in kvs if kv[0] != 'inner']
            inside = ('what', 'In', None, inner, [])
            kvs.append(('inner', {(): inside, (1,): ('list', [('none',), inside]), ('d',): ('dict', [(('str', 'd'), inside)])}[where]))
        specs.append(('what', gen.name(rng), gen.ident(rng) if rng.random() < 0.2 else None, kvs, []))
    if keys and rng.random() < 0.2:
        keys.insert(rng.randrange(len(keys) + 1), rng.choice(keys))
        t.event('repeated key')
    addresses = tuple([('inner',) + where + (k,) if k in nested else k for k in keys])
    by_ids = not nonid and rng.random() < 0.5
    if nonid:
        specs = [s[:4] + (sorted(nonid),) for s in specs]

    def keyvalues(spec):
        d = dict(spec[3])
        if nested:
            d.update(dict({(): lambda v: v, (1,): lambda v: v[1][1], ('d',): lambda v: v[1][0][1]}[where](d['inner'])[3]))
        return tuple([d[k] for k in keys])

    expected = sorted(range(n), key=functools.cmp_to_key(lambda a, b: compare(keyvalues(specs[a]), keyvalues(specs[b]))))
    if len(set(ref.render(('list', list(keyvalues(s)))) for s in specs)) > 1:
        t.seen((keys, [ref.render(s, True) for s in specs]))
    if any(compare(keyvalues(specs[a]), keyvalues(specs[b])) == 0 for a, b in zip(expected, expected[1:])):
        t.event('ties')
    for happened, event in ((nested, 'nested key'), (len(keys) > 1, 'several keys'), (not keys, 'no keys'), (nonid, 'non-id key'),
                            ('digits' in families.values(), 'digits'),
                            ('numbers' in families.values(), 'numbers of several types'), ('large' in families.values(), 'large numbers'), (long, 'long')):
        if happened:
            t.event(event)

    shuffled_ids = []
    for s in specs:
        kvs = list(s[3])
        rng.shuffle(kvs)
        shuffled_ids.append(('%s=' % s[2] if s[2] else '') + '%s(%s)' % (
            s[1], ','.join('%s=%s' % (k, ref.render(v)) for k, v in kvs if k not in s[4])))
    container = rng.choice([list, tuple])
    # the same object can be several times
    built = {}
    whats = container([built.setdefault(id(s), gen.build(s, rng)) if rng.random() < .5 else gen.build(s, rng) for s in specs])
    ids = container(shuffled_ids)
    result = t.ok('sort whats', lambda: sort_whats(whats, *addresses))
    t.check(len(result) == 2, 'it does not give items and values', result=result)
    got, values = result
    t.check(len(got) == n and all(g is whats[e] for g, e in zip(got, expected)), 'configurations are not sorted as expected',
            keys=addresses, got=[g.id(nonids_too=True) for g in got], expected=[ref.render(specs[e], True) for e in expected])
    t.same([exact(tuple(v)) for v in values], [exact(tuple([gen.build(s) for s in keyvalues(specs[e])])) for e in expected],
           'configurations are not paired with their values', keys=addresses)
    t.same([w.id(nonids_too=True) for w in whats], [ref.render(s, True) for s in specs], 'the configurations change')
    if not nonid:
        before = container(ids)
        result = t.ok('sort ids', lambda: sort_whatids(ids, *addresses))
        got, values = result
        t.same(list(got), [ids[e] for e in expected], 'ids are not sorted as expected', keys=addresses)
        t.same([exact(tuple(v)) for v in values], [exact(tuple([gen.build(s) for s in keyvalues(specs[e])])) for e in expected],
               'ids are not paired with their values', keys=addresses)
        t.same(ids, before, 'the ids change')
        # ids and their configurations agree
        got2, _ = t.ok('sort whats', lambda: sort_whats([id2what(x) for x in ids], *addresses))
        t.same([ref.norm_obj(w) for w in got2], [ref.norm_obj(id2what(x)) for x in got], 'sorting ids and configurations disagree')
        if by_ids:
            # sorting what is sorted
            again, _ = t.ok('sort ids', lambda: sort_whatids(list(got), *addresses))
            t.same(list(again), list(got), 'sorting what is sorted changes the order')
    if rng.random() < 0.3:
        # configurations that tie as values of several keys
        t.event('configurations as values')
        inner = gen.what(rng, O, 1)
        numbers = [rng.randrange(5) for _ in range(rng.randrange(1, 6))]
        some = ['Z(w=%s,n=%d)' % (ref.render(inner), x) for x in numbers]
        expected = sorted(range(len(some)), key=lambda k: numbers[k])
        for by in (('w', 'n'), ('n', 'w'), ('w', 'n', 'w')):
            if 'n' == by[0] and len(set(numbers)) < len(numbers):
                continue
            for items, sort in ((some, sort_whatids), ([id2what(x) for x in some], sort_whats)):
                out = t.call('sort', lambda: sort(items, *by))
                if out.failed:
                    continue    # configurations might have no order
                got, values = out.value
                t.event('sorted configurations')
                t.same([x if isinstance(x, str) else x.id() for x in got], [id2what(some[k]).id() if sort is sort_whats else some[k] for k in expected],
                       'not sorted as expected', keys=by)
                t.same([exact(tuple(v)) for v in values], [exact(tuple(id2what(ref.render(inner)) if k == 'w' else numbers[e] for k in by)) for e in expected],
                       'not paired with their values', keys=by)
    # the values on their own
    k = rng.randrange(n)
    t.event('whatvalues')
    wanted = [exact(gen.build(s)) for s in keyvalues(specs[k])]
    for given in ([tuple(addresses)] if not nested or rng.random() < 0.5 else []) + [None]:
        got = t.ok('whatvalues', lambda: whatvalues(whats[k], given) if given is not None else whatvalues(whats[k]))
        t.check(isinstance(got, tuple), 'the values are not in a tuple', got=got)
        t.same([exact(v) for v in got], wanted if given is not None else [], 'wrong values', keys=given)
    for key, value in zip(keys, wanted):
        if key not in nested:
            t.event('whatvalues')
            got = t.ok('whatvalues', whatvalues, whats[k], key)
            t.same([exact(v) for v in got], [value], 'wrong values', keys=key)
    if rng.random() < 0.1 or (nested and rng.random() < 0.3):
        t.event('missing key')
        t.raises('whatvalues', KeyError, whatvalues, whats[k], 'not_there_')
        t.raises('whatvalues', KeyError, whatvalues, whats[k], addresses + ('not_there_',))
        # nor the names of nested parameters
        for path in [p for p in addresses if isinstance(p, tuple)] + [('x', 'y')]:
            for sep in ('_', '.', '__', '/', ' ', ','):
                name = sep.join(map(str, path))
                if not any(name in w.conf for w in whats):
                    t.raises('whatvalues', KeyError, whatvalues, whats[k], name)
        for op, sort, items in (('sort whats', sort_whats, whats), ('sort ids', sort_whatids, ids)):
            out = t.call(op, lambda: sort(items, *(addresses + ('not_there_',))))
            t.check(out.failed or len(out.value[0]) == n, 'items without the key are silently lost')
    t.sample('%r %r' % (addresses, shuffled_ids[:4]), 4)


PHASES = [('larger sizes', sizes.sorts, {'quick': 2, 'thorough': 24}),
          ('sorts', sorts, {'quick': 600, 'thorough': 30000})]
