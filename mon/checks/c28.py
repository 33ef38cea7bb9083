# coding=utf-8
"""C28: dictionary exports are plain, complete data equal to the id."""
import json

from .. import gen, ref, sizes

PROPERTY = 'C28'
TECHNIQUE = ('runtime monitoring: a monitor walks every exported dictionary (types, contents against a model of the configuration), '
             'rebuilds the configuration from it and compares ids, and watches for exports sharing state')
RULE = ('random configurations of all kinds of values with a plain representation, deep, wide and long ones too, exported from the '
        'configuration (with and without non-id parameters), its copies and its ids; distinct by id; non-trivial: some nested '
        'configuration')
REQUIRE = {'large sizes': 1, 'to_dict': 900, 'id2dict': 400, 'non-ids too': 100, 'rebuilt': 400, 'nested configuration': 130, 'in collection': 65,
           'output name': 80, 'json': 60, 'mutated': 200, 'long id': 20, 'set': 50, 'tuple': 100}
O = gen.Options(nonids=True, hashable_whats=False, classes=False)
PLAIN = (type(None), bool, int, float, str, list, tuple, dict, set, frozenset)


def text(s):
    """How parsing leaves a string."""
    return ref.quote(s)[1:-1]


def expected(spec, nonids_too=False):
    kind = spec[0]
    if kind == 'none':
        return None
    if kind == 'str':
        return text(spec[1])
    if kind in ('bool', 'int', 'float'):
        return spec[1]
    if kind in ('list', 'tuple'):
        return {'list': list, 'tuple': tuple}[kind]([expected(s) for s in spec[1]])
    if kind in ('set', 'fset'):
        return {'set': set, 'fset': frozenset}[kind]([expected(s) for s in spec[1]])
    if kind == 'dict':
        return {expected(k): expected(v) for k, v in spec[1]}
    if kind == 'what':
        _, name, out, kvs, nonids = spec
        return exported(name, out, {k: expected(v) for k, v in kvs if nonids_too or k not in nonids})
    if kind == 'whatable':
        return exported(spec[2], None, {k: expected(v) for k, v in spec[3] if gen.visible(k)})
    if kind in ('func', 'partial'):
        return exported(spec[1] if kind == 'func' else spec[1][1], None, {k: expected(v) for k, v in ref.bound(spec)})
    raise ValueError(kind)


def exported(name, out, conf):
    return {'whatami_name': name, 'whatami_out_name': out, 'whatami_conf': conf}


def exact(x):
    """Comparable form, with the types."""
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [exact(e) for e in x])
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, sorted([repr(exact(e)) for e in x]))
    if isinstance(x, dict):
        return (type(x).__name__, sorted([(repr(exact(k)), exact(v)) for k, v in x.items()], key=lambda kv: kv[0]))
    return (type(x).__name__, repr(x))


def rebuild(t, What, d):
    """The configuration that a dictionary tells about."""
    if isinstance(d, dict):
        if set(d) == {'whatami_name', 'whatami_out_name', 'whatami_conf'}:
            return What(d['whatami_name'], {k: rebuild(t, What, v) for k, v in d['whatami_conf'].items()}, out_name=d['whatami_out_name'])
        return {k: rebuild(t, What, v) for k, v in d.items()}
    if isinstance(d, (list, tuple)):
        return type(d)([rebuild(t, What, x) for x in d])
    return d


def walk(t, d, path=()):
    t.check(type(d) in PLAIN, 'the export is not plain data', path=path, value=d, type=type(d))
    if isinstance(d, dict):
        for k, v in d.items():
            walk(t, k, path + ('key',))
            walk(t, v, path + (k,))
    elif isinstance(d, (list, tuple, set, frozenset)):
        for n, x in enumerate(d):
            walk(t, x, path + (n,))


def spoil(d):
    """Changes all that can be changed."""
    if isinstance(d, dict):
        for v in list(d.values()):
            spoil(v)
        d.clear()
        d['spoiled'] = 1
    elif isinstance(d, list):
        for v in d:
            spoil(v)
        d.append('spoiled')
    elif isinstance(d, tuple):
        for v in d:
            spoil(v)
    elif isinstance(d, set):
        d.add('spoiled')


def jsonable(d):
    if isinstance(d, dict):
        return all(isinstance(k, str) and jsonable(v) for k, v in d.items())
    if isinstance(d, list):
        return all(jsonable(v) for v in d)
    return d is None or isinstance(d, (bool, int, str)) or (isinstance(d, float) and d == d and abs(d) != float('inf'))


def has_in_collection(spec):
    for c in gen.children(spec):
        if spec[0] in ('list', 'tuple', 'dict') and c[0] in ('what', 'whatable', 'func', 'partial'):
            return True
        if has_in_collection(c):
            return True
    return False


def make(rng):
    spec = gen.what(rng, O, rng.choice([1, 2, 3, 3]))
    r = rng.random()
    if r < 0.05:
        spec = ('what', 'Long', None, [('l', ('list', [gen.what(rng, O, 1) for _ in range(rng.choice([11, 30]))])),
                                       ('s', ('str', 'x' * rng.choice([300, 2000])))], [])
    elif r < 0.1:
        for n in range(rng.choice([4, 10])):
            spec = ('what', 'Deep', None, [('in_', rng.choice([spec, ('list', [spec]), ('dict', [(('str', 'in'), spec)]), ('tuple', [spec])]))], [])
    elif r < 0.12:
        n = rng.choice([257, 1001, 1500])
        spec = ('what', 'Large', None, [('x', rng.choice([lambda: ('dict', [(('str', 'k%d' % k), ('int', k)) for k in range(n)]),
                                                          lambda: ('dict', [(('int', k), ('str', 'v')) for k in range(n)]),
                                                          lambda: ('list', [('int', k) for k in range(n)]),
                                                          lambda: ('what', 'g', None, [('p%d' % k, ('int', k)) for k in range(n)], []),
                                                          lambda: ('set', [('int', k) for k in range(n)])])())], [])
    elif r < 0.16:
        spec = ('what', 'Wide', None, [('p%d' % n, gen.value(rng, O, 1)) for n in range(rng.choice([12, 40]))], [])
    return spec


def exports(t, rng, i):
    from whatami import What, id2dict, id2what
    spec = make(rng)
    w = gen.build(spec, rng)
    an_id = ref.render(spec)
    if len(an_id) > 300:
        t.event('long id')
    kinds = gen.kinds(spec)
    nested = sum(1 for k in ('what', 'whatable', 'func', 'partial') if kinds.get(k)) if hasattr(kinds, 'get') else 0
    if any(c[0] in ('what', 'whatable', 'func', 'partial') for c in gen.children(spec)) or nested:
        t.event('nested configuration')
        t.seen(an_id)
    if has_in_collection(spec):
        t.event('in collection')
    if spec[2] is not None:
        t.event('output name')
    if 'set' in kinds or 'fset' in kinds:
        t.event('set')
    if 'tuple' in kinds:
        t.event('tuple')
    want = expected(spec)
    out = t.ok('to_dict', w.to_dict)
    walk(t, out)
    t.same(exact(out), exact(want), 'the export is not the configuration', id=an_id)
    t.same(exact(t.ok('id2dict', lambda: id2dict(an_id))), exact(want), 'the export of the id is not the configuration', id=an_id)
    t.same(exact(t.ok('to_dict', lambda: id2what(an_id).to_dict())), exact(want), 'the export of the parsed id is not the configuration')
    t.event('rebuilt')
    again = t.ok('What', lambda: rebuild(t, What, out))
    t.same(again.id(), an_id, 'the id of the configuration rebuilt from the export is different', export=out)
    if jsonable(out):
        t.event('json')
        t.same(exact(json.loads(json.dumps(out))), exact(want), 'the export does not survive json')
    if spec[4] or rng.random() < 0.3:
        t.event('non-ids too')
        more = t.ok('to_dict', lambda: w.to_dict(nonids_too=True))
        walk(t, more)
        t.same(exact(more), exact(expected(spec, True)), 'the export with non-id parameters is not the configuration', id=ref.render(spec, True))
        t.same(exact(t.ok('to_dict', lambda: w.to_dict(nonids_too=False))), exact(want), 'exporting non-id parameters changes other exports')
    t.event('mutated')
    spoil(out)
    t.same(exact(t.ok('to_dict', w.to_dict)), exact(want), 'exports share state with the configuration or among them')
    t.same(exact(t.ok('id2dict', lambda: id2dict(an_id))), exact(want), 'exports of ids share state')
    t.same(w.id(), an_id, 'exporting changes the configuration')
    t.same(exact(t.ok('to_dict', lambda: w.copy().to_dict())), exact(want), 'the export of a copy is different')
    t.sample(an_id[:300], 4)


PHASES = [('larger sizes', sizes.parsed, {'quick': 2, 'thorough': 24}),
          ('exports', exports, {'quick': 500, 'thorough': 16000})]
