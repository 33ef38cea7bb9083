# coding=utf-8
"""C05: every generated id parses back to an equal configuration."""
import importlib
import os
import shutil
import struct
import sys
import tempfile

from .. import gen, ref, sizes
from ..core import unsharded

PROPERTY = 'C05'
TECHNIQUE = 'runtime monitoring: round trip monitor with a type-distinguishing structural oracle'
RULE = ('random configurations over all the supported kinds of values, their ids parsed back and compared, types '
        'included, with what was meant; the parsed configuration must have the same id; non-trivial: size over 1')
REQUIRE = {'large sizes': 1, 'parse_whatid': 900, 'kind:set': 40, 'kind:fset': 40, 'kind:dict': 40, 'kind:func': 40,
           'kind:partial': 40, 'kind:whatable': 40, 'kind:what': 40, 'kind:class': 20, 'elsewhere': 15, 'numbers': 150, 'dictionary': 300}
O = gen.Options(nan=True, classes=True, nonids=True)
OT = gen.Options(nan=True, trailing=True)
PLAIN = gen.Options(whatables=False, funcs=False)
FINDING = 'odd-trailing-backslash'


def norm(t, rng, spec, trailing=False):
    import whatami as wm
    from arpeggio import NoMatch
    w = gen.build(spec, rng)
    whatid = t.ok('What.id', w.id)
    out = t.call('parse_whatid', rng.choice([wm.parse_whatid, wm.id2what]), whatid)
    if out.failed and trailing and isinstance(out.exc, NoMatch) and any(map(gen.odd_trailing, gen.strings(spec))):
        t.fail('the id of a string ending in an odd number of backslashes cannot be parsed', finding=FINDING, id=whatid)
    if out.failed:
        t.fail('a generated id cannot be parsed: %r' % out.exc, id=whatid)
    parsed = out.value
    t.same(ref.norm_obj(parsed), ref.norm_spec(spec), 'the id does not parse back to the configuration', id=whatid, spec=spec)
    t.same(t.ok('What.id', parsed.id), whatid, 'the parsed configuration has a different id', spec=spec)
    return w, whatid, parsed


def round_trip(t, rng, i):
    spec = gen.what(rng, O, 3)
    _, whatid, parsed = norm(t, rng, spec)
    t.same(len(parsed.non_id_keys), 0, 'parsed configurations declare no non-id keys')
    for k in gen.kinds(spec):
        t.event('kind:' + k)
    if gen.size(spec) > 1:
        t.seen(whatid)
        t.sample(whatid)


def equality(t, rng, i):
    """Without quotes to escape, whatables nor functions, the parsed configuration is equal to the original."""
    spec = gen.what(rng, PLAIN, 3)
    w, whatid, parsed = norm(t, rng, spec)
    if not any("'" in s for s in gen.strings(spec)):
        t.event('equal')
        t.check(parsed == w and w == parsed and not parsed != w, 'the parsed configuration is not equal', id=whatid)
        t.seen(('eq', whatid))


def backslashes(t, rng, i):
    """All kinds of strings."""
    def s():
        text = ''.join(rng.choice(["'", '\\', 'a', ' ', '"', '\n', u'\xe9', ',', ')', '='])
                       for _ in range(rng.randrange(0, 9)))
        if rng.random() < 0.3:     # long runs
            k = rng.randrange(len(text) + 1)
            text = text[:k] + '\\' * rng.choice([5, 6, 7, 8, 9, 12, 15, 16, 31, 32, 33, 64]) + rng.choice(["'", '"', "''", 'a', '']) + text[k:]
        return ('str', text)
    spec = rng.choice([lambda: ('what', 'f', None, [('x', s())], []),
                       lambda: ('what', 'f', None, [('x', s()), ('y', s())], []),
                       lambda: ('what', 'f', 'o', [('x', ('list', [s(), s(), ('int', 1)]))], []),
                       lambda: ('what', 'f', None, [('x', ('dict', [(s(), s())]))], []),
                       lambda: ('what', 'f', None, [('x', ('tuple', [s(), ('what', 'g', None, [('z', s())], [])]))], []),
                       lambda: gen.what(rng, OT, 2)])()
    _, whatid, _ = norm(t, rng, spec, trailing=True)
    t.seen(('s', whatid))


def members(t, rng, i):
    """Sets of tuples, and tuples of sets."""
    def member(depth):
        r = rng.random()
        if depth == 0 or r < 0.2:
            return gen.atom(rng, OT)
        if r < 0.75:
            return ('tuple', [member(depth - 1) for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 6]))])
        return ('fset', [member(depth - 1) for _ in range(rng.choice([0, 1, 2, 4]))])
    for _ in range(20):
        spec = ('what', 'f', None, [('x', (rng.choice(['set', 'fset', 'tuple', 'list']), [member(2) for _ in range(rng.choice([1, 1, 2, 3]))]))], [])
        if gen.valid(spec):
            t.event('members')
            _, whatid, _ = norm(t, rng, spec, trailing=True)
            t.seen(('m', whatid))
            return


def numbers(t, rng, i):
    """Any number, anywhere."""
    def number():
        r = rng.random()
        if r < 0.3:
            return ('float', rng.choice([0.0, -0.0, 5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, float('inf'),
                                         float('-inf'), float('nan'), 1e16, 1e22, 1e-5, 1e-4, -1e15, 123456789012345680.0]))
        if r < 0.6:
            return ('float', struct.unpack('<d', struct.pack('<Q', rng.getrandbits(64)))[0])
        if r < 0.8:
            return ('int', rng.choice([1, -1]) * rng.getrandbits(rng.choice([1, 8, 31, 32, 63, 64, 65, 200, 2000])))
        return rng.choice([('int', 0), ('int', 10 ** 18), ('float', float(rng.randrange(-10 ** 6, 10 ** 6))), ('bool', rng.random() < .5)])
    n = number
    spec = rng.choice([lambda: ('what', 'f', None, [('x', n()), ('y', n())], []), lambda: ('what', 'f', 'o', [('x', ('list', [n(), n()]))], []),
                       lambda: ('what', 'f', None, [('x', ('tuple', [n(), ('tuple', [n()])]))], []),
                       lambda: ('what', 'f', None, [('x', ('dict', [(n(), n())]))], []), lambda: ('what', 'f', None, [('x', ('set', [n()]))], []),
                       lambda: ('what', 'f', None, [('x', ('what', 'g', 'o', [('y', n())], []))], [])])()
    _, whatid, _ = norm(t, rng, spec)
    t.event('numbers')
    t.seen(whatid)


@unsharded
def dictionary(t, rng, i):
    """Every literal in the code under test as a value, and every size close to its numbers."""
    for spec in gen.dictionary():
        _, whatid, _ = norm(t, rng, spec)
        t.event('dictionary')
        t.seen(whatid)


@unsharded
def elsewhere(t, rng, i):
    """Ids of classes generated in another process: their modules might be not imported yet."""
    import whatami as wm
    folder = tempfile.mkdtemp()
    sys.path.insert(0, folder)
    before = set(sys.modules)
    try:
        parts = ['whatami_mon_c05_%d' % i] + ['sub_%d' % n for n in range(rng.randrange(0, 3))]
        parts = [rng.choice([p, p, p + '_', '_' + p, p.upper(), p + '__', '__%s__' % p]) for p in parts]
        path = folder
        for part in parts[:-1]:
            path = os.path.join(path, part)
            os.mkdir(path)
            with open(os.path.join(path, '__init__.py'), 'w') as writer:
                writer.write(rng.choice(['', 'K = 33\n', 'class K(object):\n    pass\n']))
        with open(os.path.join(path, parts[-1] + '.py'), 'w') as writer:
            writer.write(rng.choice(['class K(object):\n    pass\n', 'class K(ValueError):\n    x = 3\n',
                                     'import collections\nK = type("K", (dict,), {})\n']))
        importlib.invalidate_caches()
        module = '.'.join(parts)
        whatid = rng.choice(["f(x=<class '%s.K'>)", "f(x=[1,<class '%s.K'>],y='K')", "o=f(a={'k':<class '%s.K'>})",
                             "f(x=g(y=<class '%s.K'>))"]) % module
        imported = rng.random() < 0.3
        if imported:
            importlib.import_module(module)
        parsed = t.ok('parse_whatid', rng.choice([wm.parse_whatid, wm.id2what]), whatid)
        t.same(t.ok('What.id', parsed.id), whatid, 'the parsed configuration has a different id', id=whatid)
        K = importlib.import_module(module).K
        found = []
        parsed.conf = visit(parsed.conf, found)
        t.check(found == [K], 'the class does not come back', id=whatid, got=found, expected=K)
        t.event('elsewhere')
        t.seen(('elsewhere', whatid))
    finally:
        sys.path.remove(folder)
        for name in set(sys.modules) - before:
            del sys.modules[name]
        shutil.rmtree(folder)


def visit(v, found):
    if isinstance(v, type):
        found.append(v)
    elif isinstance(v, dict):
        for x in v.values():
            visit(x, found)
    elif isinstance(v, (list, tuple)):
        for x in v:
            visit(x, found)
    elif hasattr(v, 'conf'):
        visit(v.conf, found)
    return v


@unsharded
def listed_finding(t, rng, i):
    """The probe of the known finding."""
    norm(t, rng, ('what', 'f', None, [('x', ('str', 'C:\\temp\\'))], []), trailing=True)
    t.seen('probe')


PHASES = [('larger sizes', sizes.parsed, {'quick': 2, 'thorough': 24}),
          ('round trip', round_trip, {'quick': 700, 'thorough': 25000}),
          ('equality', equality, {'quick': 300, 'thorough': 10000}),
          ('backslashes', backslashes, {'quick': 500, 'thorough': 20000}),
          ('members', members, {'quick': 150, 'thorough': 8000}),
          ('numbers', numbers, {'quick': 250, 'thorough': 20000}),
          ('dictionary', dictionary, {'quick': 1, 'thorough': 5}),
          ('elsewhere', elsewhere, {'quick': 25, 'thorough': 300}),
          ('listed finding', listed_finding, {'quick': 1, 'thorough': 1})]
