# coding=utf-8
"""C03: a change in any id-relevant value changes the id."""
from .. import gen, ref, sizes
from ..core import unsharded

PROPERTY = 'C03'
TECHNIQUE = ('runtime monitoring: differential monitor of id pairs from minimally edited configurations, plus a '
             'collision monitor over all the ids of the run')
RULE = ('random configurations with one or two minimal edits anywhere (a leaf, its type, an order, a nesting, a key, a '
        'name) that change their type-distinguishing normal form; all the ids of each process are also kept in a '
        'collision table; groups of strings that differ in one edit (case, blanks, line ends, unicode form, one character, '
        'escapes) at several places; non-trivial: the edited pair differs; distinct by the pair of ids')
REQUIRE = {'large sizes': 1, 'levels': 1500, 'changed': 250, 'other type': 1500, 'pair': 1000, 'edited:str': 50, 'edited:what': 100, 'edited:list': 30, 'edited:tuple': 30, 'edited:dict': 50,
           'edited:set': 20, 'text': 5000, 'text variants': 3000}
O = gen.Options(classes=True)
SEEN = {}


def collisions(t, spec, whatid):
    norm = ref.norm_spec(spec)
    if whatid in SEEN and SEEN[whatid] != norm:
        t.fail('different configurations with the same id', id=whatid, one=SEEN[whatid], other=norm)
    if len(SEEN) < 200000:
        SEEN[whatid] = norm


def edits(t, rng, i):
    spec = gen.what(rng, O, 3)
    one = t.ok('What.id', gen.build(spec, rng).id)
    norm = ref.norm_spec(spec)
    collisions(t, spec, one)
    for _ in range(6):
        other = gen.edit(rng, spec)
        if rng.random() < 0.15 and gen.valid(other):
            other = gen.edit(rng, other)
        if not gen.valid(other) or ref.norm_spec(other) == norm:
            continue
        t.event('pair')
        for k in gen.kinds(other):
            t.event('edited:' + k)
        two = t.ok('What.id', gen.build(other, rng).id)
        t.check(one != two, 'different configurations with the same id', id=one, one=spec, other=other)
        collisions(t, other, two)
        t.seen((one, two))
    t.sample(one)


def texts(t, rng, i):
    """Strings that differ in little, at any place where a string can be."""
    def at_place(how, s):
        v = [('str', s), ('list', [('int', 1), ('str', s)]), ('dict', [(('str', s), ('int', 1))]), ('fset', [('str', s)]),
             ('what', 'g', None, [('y', ('str', s))], []), ('dict', [(('int', 1), ('tuple', [('str', s)]))])][how]
        return ('what', 'f', None, [('x', v)], [])
    for _ in range(6):
        s, how = gen.text(rng), rng.randrange(6)
        same = {}
        for other in [s] + [gen._edit_text(rng, s) for _ in range(12)]:
            t.event('text')
            whatid = t.ok('What.id', gen.build(at_place(how, other)).id)
            t.check(ref.quote(same.setdefault(whatid, other)) == ref.quote(other), 'different strings with the same id', id=whatid,
                    one=same[whatid], other=other)
        t.event('text variants', len(same) - 1)
        t.seen(sorted(same))


SMALL = [('float', 1e16), ('int', 10 ** 16), ('float', 1e22), ('int', 10 ** 22), ('float', -1e17), ('int', -10 ** 17), ('none',), ('bool', True), ('bool', False), ('int', 0), ('int', 1), ('float', 0.0), ('float', 1.0), ('str', ''),
         ('str', 'a'), ('str', '0'), ('str', 'None'), ('str', '{}'), ('str', ' '), ('str', "a','b"), ('str', 'a,b'),
         ('str', "f(x='a')"), ('str', '[]'), ('str', '()')]


def small(t, rng, i):
    """Tiny configurations, densely: many of them are near collisions."""
    def grow(depth):
        if depth == 0 or rng.random() < 0.4:
            return rng.choice(SMALL)
        kind = rng.choice(['list', 'tuple', 'dict', 'set', 'fset', 'what'])
        n = rng.randrange(0, 3)
        if kind == 'what':
            return ('what', rng.choice(['f', 'set', 'a']) if n else 'f', rng.choice([None, 'a', 'f']),
                    [('ab'[j], grow(depth - 1)) for j in range(n)], [])
        if kind == 'dict':
            return (kind, [(rng.choice(SMALL), grow(depth - 1)) for _ in range(n)])
        return (kind, [grow(depth - 1) for _ in range(n)])
    for _ in range(20):
        spec = ('what', 'f', rng.choice([None, None, 'o']), [(k, grow(2)) for k in rng.sample(['a', 'b', 'f'], rng.randrange(0, 3))], [])
        if not gen.valid(spec):
            continue
        t.event('small')
        whatid = t.ok('What.id', gen.build(spec, rng).id)
        collisions(t, spec, whatid)
        t.seen(whatid)


def changed(t, rng, i):
    """The id always tells the current values, whatever was asked before."""
    spec = gen.what(rng, O, 2)
    kvs = [('list', ('list', [('int', 1), ('str', 'a')])), ('dict', ('dict', [(('str', 'k'), ('int', 1))])), ('nest', ('what', 'g', None, [('y', ('int', 1))], [])),
           ('num', rng.choice([('int', 1), ('bool', True), ('float', 1.0)])), ('zero', rng.choice([('int', 0), ('bool', False), ('float', 0.0)]))]
    spec = spec[:3] + ([kv for kv in spec[3] if kv[0] not in dict(kvs)] + rng.sample(kvs, rng.randrange(1, 6)),) + spec[4:]
    kvs = dict(spec[3])
    w = gen.build(spec, rng)
    before = t.ok('What.id', w.id)
    t.same(before, ref.render(spec), 'wrong id')
    if rng.random() < 0.5:
        t.ok('What.id', w.id, nonids_too=True)
    for _ in range(3):
        k = rng.choice(sorted(set(kvs) & {'list', 'dict', 'nest', 'num', 'zero'}))
        if k == 'list':
            w[k].append(7)
            kvs[k] = ('list', kvs[k][1] + [('int', 7)])
        elif k == 'dict':
            key = 'k%d' % len(kvs[k][1])
            w[k][key] = 2
            kvs[k] = ('dict', kvs[k][1] + [(('str', key), ('int', 2))])
        elif k == 'nest':
            other = rng.choice([s for s in [('int', 1), ('bool', True), ('float', 1.0), ('str', '1')] if s != kvs[k][3][0][1]])
            w[k].conf['y'] = gen.build(other)
            kvs[k] = ('what', 'g', None, [('y', other)], [])
        else:
            groups = [('int', 1), ('bool', True), ('float', 1.0)], [('int', 0), ('bool', False), ('float', 0.0)]
            kvs[k] = rng.choice([s for s in groups[k == 'zero'] if s != kvs[k]])
            w.conf[k] = gen.build(kvs[k])
        spec = spec[:3] + ([(name, kvs[name]) for name, _ in spec[3]],) + spec[4:]
        after = t.ok('What.id', w.id)
        t.event('changed')
        t.check(after != before, 'a change in a value does not change the id', id=before, spec=spec, changed=k)
        t.same(after, ref.render(spec), 'wrong id after changing a value', changed=k)
        before = after
    t.seen(before)


class Shown(object):
    """Objects that are shown as some text."""

    def __init__(self, text):
        self.text = text

    def __str__(self):
        return 'Shown<%s>' % self.text

    __repr__ = __str__


def others(t, rng, i):
    """Values of other types: text-like ones and objects with their own text."""
    from whatami import What
    s = gen.text(rng, True)
    pool = [s] + [gen._edit_text(rng, s) for _ in range(3)]
    pool += [s + rng.choice([' ', '  ', '\n', '\t', ' \n']) for _ in range(2)] + [s[:1] + ' ' + s[1:], s[:1] + '  ' + s[1:], s[:1] + '\n' + s[1:]]
    pool = [p for p in pool if ' at 0x' not in p]
    whatids = {}
    nest = rng.choice([lambda v: v, lambda v: [v], lambda v: {'k': v}, lambda v: (1, v), lambda v: What('g', {'y': v})])
    for p in pool:
        raw = p.encode('utf8', 'surrogatepass')
        for kind, v in (('text', p), ('bytes', raw), ('bytearray', bytearray(raw)), ('object', Shown(p))):
            t.event('other type')
            whatid = t.ok('What.id', What('f', {'x': nest(v)}).id)
            # an escaped and an unescaped quote are the same only in texts
            mine = (kind, ref.quote(p) if kind == 'text' else p)
            t.same(whatids.setdefault(whatid, mine), mine, 'different values with the same id', id=whatid)
    # numbers of all the types
    whatids = {}
    x = rng.choice([0, 1, 2, -3, 7, 10 ** 6])
    for v in (x, float(x), complex(x), complex(x, 1), str(x), str(float(x)), str(complex(x)), [complex(x)], [float(x)], {complex(x)}, {x}, {float(x)}, (complex(x),)):
        t.event('number')
        whatid = t.ok('What.id', What('f', {'x': nest(v)}).id)
        t.check(whatid not in whatids, 'different values with the same id', id=whatid, one=v, other=whatids.get(whatid))
        whatids[whatid] = v
    # the very same objects at several places
    pool = [(s, gen.build(s)) for s in [gen.value(rng, O, 1) for _ in range(3)] + [('list', [('int', 1)]), ('tuple', []), ('none',), ('str', 'a')]]
    for _ in range(6):
        some = [rng.choice(pool) for _ in range(rng.randrange(1, 6))]
        if rng.random() < 0.5:
            some[-1] = some[0]
        for kind, cls in (('list', list), ('tuple', tuple)):
            spec = ('what', 'f', None, [('x', (kind, [s for s, _ in some])), ('y', some[0][0])], [])
            if gen.valid(spec):
                t.event('same object')
                collisions(t, spec, t.ok('What.id', What('f', {'x': cls([v for _, v in some]), 'y': some[0][1]}).id))
    t.seen(sorted(map(str, whatids)))


@unsharded
def levels(t, rng, i):
    """Values that differ only under many levels, or in how many levels there are."""
    for kind in gen.NESTS:
        for n in range(1, 101):
            for v in (('int', 1), ('str', '1'), ('list', []), ('what', 'h', None, [], [])):
                spec = gen.nested(n, v, kind)
                t.event('levels')
                collisions(t, spec, t.ok('What.id', gen.build(spec).id))
    t.seen('levels')


PHASES = [('larger sizes', sizes.similar, {'quick': 2, 'thorough': 24}),
          ('levels', levels, {'quick': 1, 'thorough': 1}),
          ('others', others, {'quick': 80, 'thorough': 4000}),
          ('changed', changed, {'quick': 150, 'thorough': 5000}),
          ('texts', texts, {'quick': 150, 'thorough': 8000}),
          ('edits', edits, {'quick': 700, 'thorough': 40000}),
          ('small', small, {'quick': 250, 'thorough': 15000})]
