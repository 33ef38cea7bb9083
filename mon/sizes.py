# coding=utf-8
"""Monitors over much larger inputs than those of the rest of the workloads, by property.

The oracles are the texts and values from which the inputs are made. Each function is a phase of the check of its property."""
import functools
import importlib
import os
import shutil
import sys
import tempfile

SIZES = (12, 24, 40, 70, 110, 150, 270, 300, 520, 1050)
LARGER = SIZES + (2100, 4200, 9000)


def up_to(rng, limit, sizes=LARGER, some=3):
    """Some of the sizes, always with the largest, in random order."""
    sizes = [n for n in sizes if n <= limit]
    chosen = rng.sample(sizes[:-1], min(some - 1, len(sizes) - 1)) + [sizes[-1]]
    rng.shuffle(chosen)
    return [n + rng.randrange(3) for n in chosen]


def keys(n, rng):
    """Names, in another order, and how they are sorted."""
    names = ['p%05d' % k for k in range(n)]
    mixed = list(names)
    rng.shuffle(mixed)
    return names, mixed


def done(t, what, n):
    t.event('large sizes')
    t.seen(('sizes', what, n))


def ids(t, rng, i):
    """Ids with many parameters, elements or characters; C01, C02, C03."""
    from whatami import What
    for n in up_to(rng, 9000, some=4):
        names, mixed = keys(n, rng)
        shown = 'f(%s)' % ','.join(['%s=%d' % (k, j) for j, k in enumerate(names)])
        for order in (names, mixed):
            t.same(t.ok('id', What('f', {k: int(k[1:]) for k in order}).id), shown, 'wrong id with many parameters', n=n)
        numbers = list(range(n))
        texts = sorted(["'%d'" % j for j in range(n)])
        kvs = sorted(['%d:%d' % (j, j) for j in numbers])
        strange = ''.join([rng.choice(['x', ' ', u'\xe9', '"', ',']) for _ in range(12)]) * n
        elements = sorted(map(str, numbers))
        for value, text in ((numbers, '[%s]' % ','.join(map(str, numbers))), (tuple(numbers), '(%s)' % ','.join(map(str, numbers))),
                            ({'%d' % j for j in numbers}, '{%s}' % ','.join(texts)), (frozenset(numbers), 'frozenset({%s})' % ','.join(elements)),
                            ({j: j for j in reversed(numbers)}, '{%s}' % ','.join(kvs)), (strange, "'%s'" % strange),
                            ("it's" * n, "'%s'" % ("it\\'s" * n)), ([[j] for j in numbers], '[%s]' % ','.join(['[%d]' % j for j in numbers]))):
            t.same(t.ok('id', What('f', {'a': value}).id), 'f(a=%s)' % text, 'wrong id of a large value', n=n, type=type(value))
        name = 'n' * n
        t.same(t.ok('id', What(name, {name: 1}, out_name=name).id), '%s=%s(%s=1)' % (name, name, name), 'wrong id with long names', n=n)
        done(t, 'ids', n)
    for depth in (5, 14, 33, 60):
        w, text = 1, '1'
        for j in range(depth):
            how = rng.choice(['what', 'list', 'tuple', 'dict'])
            w, text = {'what': lambda: (What('f', {'x': w}), 'f(x=%s)' % text), 'list': lambda: ([w], '[%s]' % text),
                       'tuple': lambda: ((w,), '(%s)' % text), 'dict': lambda: ({'k': w}, "{'k':%s}" % text)}[how]()
        t.same(t.ok('id', What('top', {'x': w}).id), 'top(x=%s)' % text, 'wrong id of a deep value', depth=depth)


def similar(t, rng, i):
    """Large values that differ in one place; C03."""
    from whatami import What
    for n in up_to(rng, 70000, LARGER + (20000, 70000)):
        numbers = [7] * n
        where = rng.choice([0, n // 2, n - 1, rng.randrange(n)])
        other = list(numbers)
        other[where] = 8
        for make in (list, tuple, lambda x: {j: v for j, v in enumerate(x)}, lambda x: {(j, v) for j, v in enumerate(x)},
                     lambda x: ''.join(map(str, x)), lambda x: {'p%d' % j: v for j, v in enumerate(x)}):
            a, b, c = [t.ok('id', What('f', {'a': make(x)}).id) for x in (numbers, other, list(numbers))]
            t.check(a != b, 'different values with the same id', n=n, where=where, type=type(make(numbers)))
            t.check(a == c, 'equal values with different ids', n=n)
        done(t, 'similar', n)


def nonids(t, rng, i):
    """Many parameters, many of them non-id; C04, C35."""
    from whatami import What
    for n in up_to(rng, 2100):
        names, mixed = keys(n, rng)
        hidden = set(rng.sample(names, n // 2))
        w = What('f', {k: int(k[1:]) for k in mixed}, non_id_keys=hidden)
        own = [k for k in names if k not in hidden]
        t.same(t.ok('id', w.id), 'f(%s)' % ','.join(['%s=%d' % (k, int(k[1:])) for k in own]), 'wrong id', n=n)
        t.same(t.ok('id', w.id, nonids_too=True), 'f(%s)' % ','.join(['%s=%d' % (k, int(k[1:])) for k in names]), 'wrong id', n=n)
        t.same(t.ok('positional_id', w.positional_id), 'f(%s)' % ','.join(['%d' % int(k[1:]) for k in own]), 'wrong positional id', n=n)
        t.same(t.ok('positional_id', w.positional_id, non_ids_too=True), 'f(%s)' % ','.join(['%d' % j for j in range(n)]), 'wrong positional id', n=n)
        t.same(t.ok('keys', w.keys), own, 'wrong keys', n=n)
        t.same(t.ok('values', w.values, non_ids_too=True), list(range(n)), 'wrong values', n=n)
        done(t, 'nonids', n)


def parsed(t, rng, i):
    """Long texts to parse; C05, C06, C28."""
    from whatami import parse_whatid, id2dict
    for n in up_to(rng, 1100):
        names, mixed = keys(n, rng)
        numbers = list(range(n))
        texts = ','.join(map(str, numbers))
        for text, conf in (('f(%s)' % ','.join(['%s=%d' % (k, int(k[1:])) for k in mixed]), {k: j for j, k in enumerate(names)}),
                           ('f(a=[%s])' % texts, {'a': numbers}), ('f(a=(%s))' % texts, {'a': tuple(numbers)}),
                           ('f(a={%s})' % texts, {'a': set(numbers)}), ('f(a={%s})' % ','.join(['%d:[%d]' % (j, j) for j in numbers]), {'a': {j: [j] for j in numbers}}),
                           ("f(a='%s')" % (u"x\xe9, " * n), {'a': u"x\xe9, " * n}),
                           ('f(a=%s)' % ('1' * min(n, 3000)), {'a': int('1' * min(n, 3000))}), ('f(%s=1)' % ('k' * n), {'k' * n: 1})):
            got = t.ok('parse_whatid', parse_whatid, text)
            t.check(got.name == 'f' and got.out_name is None and got.conf == conf and
                    all(type(v) is type(conf[k]) for k, v in got.conf.items()), 'wrong parse of a long text', n=n, text=text[:200])
            t.same(t.ok('id2dict', id2dict, text), {'whatami_name': 'f', 'whatami_out_name': None, 'whatami_conf': conf}, 'wrong export', n=n)
        done(t, 'parsed', n)
    for depth in (4, 9, 14, 20):
        text = 'f(a=' * depth + '1' + ')' * depth
        got = t.ok('parse_whatid', parse_whatid, text)
        t.same(t.ok('id', got.id), text, 'wrong parse of a deep text', depth=depth)
        t.raises('parse_whatid', Exception, parse_whatid, text[:-1])
        exported = t.ok('to_dict', got.to_dict)
        for _ in range(depth):
            t.same(sorted(exported), ['whatami_conf', 'whatami_name', 'whatami_out_name'], 'not exported at all levels', depth=depth)
            exported = exported['whatami_conf']['a']
        t.same(exported, 1, 'wrong export', depth=depth)


def flat(t, rng, i):
    """Many addresses; C10."""
    from whatami import What
    for n in up_to(rng, 2100):
        names, mixed = keys(n, rng)
        w = What('f', {'a': list(range(n)), 'b': {k: int(k[1:]) for k in mixed}, 'c': What('g', {k: int(k[1:]) for k in mixed})})
        t.same(t.ok('flatten', w.flatten), (['a', 'b', 'c'] + [('c', k) for k in names], [w.conf['a'], w.conf['b'], w.conf['c']] + list(range(n))),
               'wrong addresses', n=n)
        t.same(t.ok('keys', w.keys, collections_too=True), ['a'] + [('a', j) for j in range(n)] + ['b'] + [('b', k) for k in names] +
               ['c'] + [('c', k) for k in names], 'wrong addresses', n=n)
        done(t, 'flat', n)
    for depth in (6, 13, 20, 45):
        w, level = What('f', {'a': 1}), ('a',)
        for j in range(depth):
            kind = rng.choice(['what', 'what', 'list', 'dict'])
            if kind == 'what':
                w, level = What('f', {'a': w}), ('a',) + level
            elif kind == 'list':
                w, level = What('f', {'a': [w]}), ('a', 0) + level
            else:
                w, level = What('f', {'a': {'k': w}}), ('a', 'k') + level
        addresses = [level[0]] + [level[:n] for n in range(2, len(level) + 1)]
        t.same(t.ok('keys', w.keys, collections_too=True), addresses, 'wrong addresses', depth=depth)
        t.same(t.ok('getitem', lambda: w[level]), 1, 'wrong value', depth=depth)


def attributes(t, rng, i):
    """Many attributes; C12."""
    import whatami as wm
    for n in up_to(rng, 2100):
        names, mixed = keys(n, rng)
        expected = {k: int(k[1:]) for k in names}
        slots = type('Slots', (object,), {'__slots__': mixed})
        dicts = type('Dicts', (object,), {})
        props = type('Props', (object,), {k: property(lambda self, v=int(k[1:]): v) for k in mixed[:300]})
        for cls, wanted in ((slots, expected), (dicts, expected), (props, {k: expected[k] for k in mixed[:300]})):
            obj = wm.whatable(cls)()
            if cls is not props:
                for k in mixed:
                    setattr(obj, k, int(k[1:]))
            t.same(dict(t.ok('what', obj.what).conf), wanted, 'wrong attributes', n=n, cls=cls)
            gone = set(rng.sample(names, n // 2))
            t.same(dict(t.ok('whatareyou', wm.whatareyou, obj, excludes=tuple(gone) + ('what',)).conf), {k: v for k, v in wanted.items() if k not in gone},
                   'wrong attributes', n=n, cls=cls)
        done(t, 'attributes', n)


def calls(t, rng, i):
    """Many arguments; C13, C14, C30."""
    import whatami as wm
    from whatami.misc import callable2call, call_dict
    for n in up_to(rng, 240, SIZES + (240,), some=4):
        names, _ = keys(n, rng)
        env = {}
        exec('def f(%s, *args, **kwargs):\n    return dict(locals())' % ', '.join([k + '=None' if j > n // 2 else k for j, k in enumerate(names)]), env)
        exec('def g(%s):\n    return dict(locals())' % ', '.join([k + '=None' if j > n // 2 else k for j, k in enumerate(names)]), env)
        exec('def h(%s):\n%s\n    return call2what(), call_dict()' % (', '.join(names), '\n'.join(['    v_%d = %d' % (j, j) for j in range(n)])),
             dict(call2what=wm.call2what, call_dict=call_dict), env)
        f, g = env['f'], env['g']
        values, extra = list(range(n)), tuple(range(n * 2))
        keywords = {'k%d' % j: j for j in range(n)}
        for wrapped in (wm.whatable(f), wm.whatable(functools.partial(f, *values[:3]))):
            bound = 0 if wrapped.what().name == 'f' and 'p00000' not in wrapped.what().conf else 3
            t.same(t.ok('call', wrapped, *(tuple(values[bound:]) + extra), **keywords), f(*(tuple(values) + extra), **keywords),
                   'the decorated function receives other arguments', n=n)
        defaults = {k: None for j, k in enumerate(names) if j > n // 2}
        t.same(dict(wm.whatable(g).what().conf), defaults, 'wrong parameters', n=n)
        c, given = g, 0
        while given < n:
            step = rng.randrange(1, n - given + 1)
            p = type('P', (functools.partial,), {}) if rng.random() < 0.5 else functools.partial
            c = p(c, *values[given:given + step])
            given += step
            t.same(t.ok('callable2call', callable2call, c), ('g', dict(defaults, **dict(zip(names, values[:given])))), 'wrong parameters', n=n, given=given)
        t.raises('callable2call', Exception, callable2call, functools.partial(c, 1))
        t.same(t.ok('callable2call', callable2call, functools.partial(g, **{k: int(k[1:]) for k in names})), ('g', {k: j for j, k in enumerate(names)}),
               'wrong parameters', n=n)
        what, snapshot = t.ok('call2what', env['h'], *values)
        t.same(snapshot, dict(zip(names, values)), 'wrong snapshot', n=n)
        t.same(dict(what.conf), dict(snapshot, **{'v_%d' % j: j for j in range(n)}), 'wrong captured variables', n=n)
        done(t, 'calls', n)


def hashes(t, rng, i):
    """Large collections that differ in one place; C17."""
    from whatami.minijoblib.hashing import hasher
    for n in (2500, 12000, 25000):
        numbers = list(range(0, 4 * n, 2))
        where = rng.choice([n // 2, n, rng.randrange(2 * n)])
        other = list(numbers)
        other[where] += 1
        for make in (set, frozenset, lambda x: {j: 0 for j in x}, lambda x: {'%d' % j: 0 for j in x}):
            a, b, c = [t.ok('hash', hasher, make(x)) for x in (numbers, other, numbers[::-1])]
            t.check(a != b, 'different objects with the same hash', n=n, where=where)
            t.same(a, c, 'equal objects with different hashes', n=n)
        done(t, 'hashes', n)


def chains(t, rng, i):
    """Many plugins; C18."""
    from whatami import What
    from whatami.plugins import WhatamiPluginManager as Manager, anyobject0x_plugin

    class Any(object):
        pass
    Manager.reset()
    try:
        for n in (5, 12, 40, 90):
            Manager.reset()
            before = list(Manager.plugins())
            classes = [type('Any%d' % k, (object,), {}) for k in range(n)]
            added = [lambda v, cls=cls, k=k: 'plugged(n=%d)' % k if type(v) is cls else None for k, cls in enumerate(classes)]
            for plugin in added:
                t.ok('insert', Manager.insert, plugin)
            at = before.index(anyobject0x_plugin)
            t.same(list(Manager.plugins()), before[:at] + added + before[at:], 'wrong chain', n=n)
            for k, cls in enumerate(classes):
                t.same(t.ok('id', What('f', {'a': cls()}).id), 'f(a=plugged(n=%d))' % k, 'the plugin is not used', n=n)
            t.same(t.ok('id', What('f', {'a': Any()}).id), 'f(a=Any())', 'the last plugins are not used', n=n)
            for plugin in rng.sample(added, n):
                t.ok('drop', Manager.drop, plugin)
            t.same(list(Manager.plugins()), before, 'wrong chain', n=n)
            done(t, 'chains', n)
    finally:
        Manager.reset()


def nicknames(t, rng, i):
    """Many nicknames; C19."""
    from whatami.registry import WhatamiRegistry
    registry, expected = WhatamiRegistry(), {}
    for n in range(rng.choice([2500, 5000])):
        t.ok('register', registry.register, 'f(a=%d)' % n, 'nick%d' % n)
        expected['nick%d' % n] = 'f(a=%d)' % n
    for nick in rng.sample(sorted(expected), 100):
        t.ok('remove', registry.remove, nickname=nick)
        t.same(registry.id2nick(expected.pop(nick)), None, 'it is still there')
    t.same(t.ok('list', registry.list), sorted(expected.items()), 'wrong list')
    for nick, whatid in expected.items():
        t.check(registry.nick2id(nick) == whatid and registry.id2nick(whatid) == nick and registry.nick_or_id(whatid) == nick, 'wrong nickname', nick=nick)
    done(t, 'nicknames', i)


def records(t, rng, i):
    """Many columns, postprocessors, defaults, adders and refinements; C21, C22."""
    from whatami.registry import Recorder
    for n in up_to(rng, 300):
        defaults = {'d%d' % k: k for k in range(n)}
        own = [lambda an_id, record, recorder, k=k: dict(record, **{'p': record.get('p', ()) + (k,)}) for k in range(n)]
        given = [lambda an_id, record, recorder, k=k: dict(record, **{'p': record.get('p', ()) + (-k,)}) for k in range(n)]
        rec = Recorder(record_postprocessors=own, **defaults)
        add, frozen = rec.add, {}
        for k in range(n):
            add = rec.padd(add, **{'c%d' % k: k})
            frozen['c%d' % k] = k
            if k % 29 == 0:
                got = t.ok('add', add, 'at%d' % k)
                t.same(list(got.values()), [dict(defaults, id='at%d' % k, p=tuple(range(n)), **frozen)], 'wrong record', n=n)
        columns = {'x%d' % k: [k, -k] for k in range(n)}
        got = t.ok('add', rec.add, ['a', 'b'], record_postprocessors=given, **columns)
        order = tuple(range(n)) + tuple([-k for k in range(n)])
        t.same([got['a'], got['b']], [dict(defaults, id='a', p=order, **{k: v[0] for k, v in columns.items()}),
                                      dict(defaults, id='b', p=order, **{k: v[1] for k, v in columns.items()})], 'wrong records', n=n)
        t.same(t.ok('add', rec.add, 'c', record_postprocessors=given, override_postprocessors=True)['c'],
               dict(defaults, id='c', p=order[n:]), 'wrong record', n=n)
        t.same((rec.column_defaults, list(rec.record_postprocessors())), (defaults, own), 'wrong defaults', n=n)
        done(t, 'records', n)


def sorts(t, rng, i):
    """Many ids to sort; C25."""
    from whatami import id2what
    from whatami.whatutils import sort_whatids, sort_whats
    for n in up_to(rng, 520):
        ties = [(rng.randrange(3), rng.choice([-1.5, 2, 10]), rng.randrange(10 ** 6)) for _ in range(n)]
        ids_ = ['f(a=%d,b=%r,c=%d)' % tie for tie in ties]
        for some, value in ((('a',), lambda tie: tie[:1]), (('b', 'a'), lambda tie: (tie[1], tie[0])), (('b',), lambda tie: (tie[1],))):
            order = sorted(range(n), key=lambda j: value(ties[j]))
            expected = (tuple([ids_[j] for j in order]), tuple([value(ties[j]) for j in order]))
            t.same(t.ok('sort_whatids', sort_whatids, ids_, *some), expected, 'wrong order', n=n, keys=some)
            whats, values = t.ok('sort_whats', sort_whats, [id2what(x) for x in ids_], *some)
            t.same((tuple([w.id() for w in whats]), values), expected, 'wrong order of configurations', n=n, keys=some)
        done(t, 'sorts', n)


def matches(t, rng, i):
    """Many ids to match; C26."""
    from whatami import match_whatids
    for n in up_to(rng, 520):
        population = ['f(a=%d,b=g(c=%d))' % (rng.randrange(3), rng.randrange(3)) for _ in range(n)]
        a, c = rng.randrange(3), rng.randrange(3)
        template = 'f(a=%d,b=g(c=%d))' % (a, c)
        for ignored, wanted in (((), [x for x in population if x == template]), (('a',), [x for x in population if x.endswith('c=%d))' % c)]),
                                ((('b', 'c'),), [x for x in population if x.startswith('f(a=%d,' % a)]), (('a', 'b'), population)):
            t.same(t.ok('match_whatids', match_whatids, population, template, ignored_keys=ignored), wanted, 'wrong ids are selected', n=n, ignored=ignored)
        done(t, 'matches', n)
    for n in up_to(rng, 300):
        names, mixed = keys(n, rng)
        text = 'f(%s)' % ','.join(['%s=1' % k for k in names])
        where = rng.choice(names)
        other = text.replace(where + '=1', where + '=2')
        ignored = rng.sample([k for k in names if k != where], n // 2)
        t.same(t.ok('match_whatids', match_whatids, [text, other], text), [text], 'wrong ids are selected', n=n)
        t.same(t.ok('match_whatids', match_whatids, [text, other], text, ignored_keys=ignored), [text], 'wrong ids are selected', n=n)
        t.same(t.ok('match_whatids', match_whatids, [text, other], text, ignored_keys=ignored + [where]), [text, other], 'wrong ids are selected', n=n)


def frames(t, rng, i):
    """Many rows and parameters; C27."""
    import pandas as pd
    from whatami import whatid2columns
    for n in up_to(rng, 1100):
        rows = ['f(a=%d)' % j for j in range(n)] + ['f(b=%d)' % n, 'f(a=7)']
        rng.shuffle(rows)
        got = t.ok('whatid2columns', whatid2columns, pd.DataFrame({'w': rows}), 'w')
        for k in 'ab':
            t.check(k in got.columns, 'a column is missing', n=n, column=k)
            t.check(all([(cell == int(row[4:-1])) if row.startswith('f(%s=' % k) else (cell is None or cell != cell) for row, cell in zip(rows, got[k])]),
                    'wrong values', n=n, column=k)
        done(t, 'frames', n)
    names, mixed = keys(200, rng)
    got = t.ok('whatid2columns', whatid2columns, pd.DataFrame({'w': ['f(%s)' % ','.join(['%s=%d' % (k, int(k[1:])) for k in mixed])] * 2}), 'w')
    t.check(all([list(got[k]) == [int(k[1:])] * 2 for k in names]), 'wrong values')


def migrated(t, rng, i):
    """Many parameters in the old syntax; C29."""
    from whatami import oldid2what
    for n in up_to(rng, 520):
        names, mixed = keys(n, rng)
        body = '#'.join(['%s=%d' % (k, int(k[1:])) for k in mixed])
        conf = {k: j for j, k in enumerate(names)}
        for text, expected in (('f#' + body, conf), ('out=o#f#' + body, dict(conf, out='o')), ('f#x="g#%s"' % body, None), ('f#x=[%s]' % ','.join(['%d' % j for j in range(n)]), {'x': list(range(n))})):
            got = t.ok('oldid2what', oldid2what, text)
            if expected is None:
                got, expected = got['x'], conf
            t.same(dict(got.conf), expected, 'wrong migration', n=n)
        done(t, 'migrated', n)


def imports(t, rng, i):
    """Many variants and submodules; C31."""
    from whatami.misc import maybe_import, import_submodules
    folder, tag = tempfile.mkdtemp(prefix='whatami-c31-'), 'wmsizes%d_%d' % (os.getpid(), i)
    sys.path.insert(0, folder)
    bytecode, sys.dont_write_bytecode = sys.dont_write_bytecode, True
    try:
        for n in (4, 8, 15, 45):
            root = '%s_%d' % (tag, n)
            os.makedirs(os.path.join(folder, root))
            names = ['m%02d' % k for k in range(n)]
            for name in ['__init__'] + names:
                with open(os.path.join(folder, root, name + '.py'), 'w') as writer:
                    writer.write('value = %r\n' % name)
            importlib.invalidate_caches()
            deep = root
            for _ in range(min(n, 10)):     # and levels
                deep += '.deep'
                os.makedirs(os.path.join(folder, *deep.split('.')))
                open(os.path.join(folder, *(deep.split('.') + ['__init__.py'])), 'w').close()
            levels = ['.'.join([root] + ['deep'] * k) for k in range(1, min(n, 10) + 1)]
            t.same(sorted(t.ok('import_submodules', import_submodules, root)), sorted([root] + levels + [root + '.' + name for name in names]),
                   'not the importable submodules', n=n)
            variants = ['%s_not_there_%d' % (tag, k) for k in range(n)]
            late = '%s.%s' % (root, rng.choice(names))
            t.check(t.ok('maybe_import', maybe_import, 'lib', None, *(variants + [late])) is sys.modules[late], 'the importable variant is not found', n=n)
            done(t, 'imports', n)
    finally:
        sys.dont_write_bytecode = bytecode
        sys.path.remove(folder)
        for name in [m for m in sys.modules if m.startswith(tag)]:
            del sys.modules[name]
        shutil.rmtree(folder, ignore_errors=True)


def decorated(t, rng, i):
    """Many decorators, members and levels; C32."""
    from whatami.misc import decorate_some
    for n in (5, 11, 30, 70):
        log = []

        def decorator(k):
            def decorate(f):
                log.append((k, f))
                return f
            return decorate
        members = {'m%d' % k: (lambda self, k=k: k) for k in range(n)}
        Meta = decorate_some(**{name: [decorator(k) for k in range(n)] for name in members})
        cls = t.ok('define', Meta, 'Base', (object,), dict(members))
        t.same({name: [k for k, f in log if f is members[name]] for name in members}, {name: list(range(n)) for name in members}, 'wrong decorations', n=n)
        t.same(len(log), n * n, 'wrong decorations', n=n)
        for level in range(n):
            del log[:]
            again = lambda self: level  # noqa
            cls = t.ok('define', Meta, 'Level%d' % level, (cls,), {'m0': again} if level % 2 else {})
            t.same([k for k, f in log if f is again], list(range(n)) if level % 2 else [], 'wrong decorations', n=n, level=level)
        done(t, 'decorated', n)


def described(t, rng, i):
    """Long sources, titles and comments; C37."""
    from whatami.misc import mlexp_info_helper
    from whatami import What
    folder, tag = tempfile.mkdtemp(prefix='whatami-mon-c37-'), 'wmsizes_c37_%d_%d' % (os.getpid(), i)
    sys.path.insert(0, folder)
    try:
        for n in up_to(rng, 1100):
            name = '%s_%d' % (tag, n)
            lines = ['def f(x):\n'] + ['    x += %d\n' % k if rng.random() < 0.9 else '\n' for k in range(n)] + ['    return x\n']
            with open(os.path.join(folder, name + '.py'), 'w') as writer:
                writer.write('\n' * n + ''.join(lines) + '\n\nx = 1\n')
            importlib.invalidate_caches()
            module = importlib.import_module(name)
            info = t.ok('mlexp_info_helper', mlexp_info_helper, 'title ' * n, exp_function=module.f, comments='words ' * n,
                        data_setup='setup ' * n, model_setup=What('f', {'x': 'long ' * n}))
            t.same((list(info['fsource'][0]), info['fsource'][1]), (lines, n + 1), 'wrong source', n=n)
            t.same((info['title'], info['comments'], info['data_setup'], info['model_setup']), ('title ' * n, 'words ' * n, 'setup ' * n, "f(x='%s')" % ('long ' * n)),
                   'wrong texts', n=n)
            done(t, 'described', n)
    finally:
        sys.path.remove(folder)
        for name in [m for m in sys.modules if m.startswith(tag)]:
            del sys.modules[name]
        shutil.rmtree(folder, ignore_errors=True)


def introspected(t, rng, i):
    """Many arguments and subclasses; C38."""
    from whatami.misc import required_args, init_argspec, all_subclasses, ensure_has_positional_args
    for n in up_to(rng, 240, SIZES + (240,)):
        names, _ = keys(n, rng)
        required = names[:rng.choice([n, n // 2, n - 1])]
        env = {}
        exec('def f(%s): pass\nclass C(object):\n    def __init__(self, %s): pass' % ((', '.join([k if k in required else k + '=1' for k in names]),) * 2), env)
        t.same(list(t.ok('required_args', required_args, env['f'])), required, 'wrong required arguments', n=n)
        t.same(list(t.ok('init_argspec', init_argspec, env['C'])[-1]), required, 'wrong required arguments', n=n)
        t.check(t.ok('ensure', ensure_has_positional_args, env['f'], tuple(required)) is env['f'], 'another function')
        if len(required) < n:
            t.raises('ensure', Exception, ensure_has_positional_args, env['f'], tuple(required[:3]) + (names[-1],))
        base = type('Base', (object,), {})
        wide = [type('W%d' % k, (base,), {}) for k in range(n)]
        deep = [rng.choice(wide)]
        for k in range(min(n, 70)):
            deep.append(type('D%d' % k, (deep[-1],), {}))
        last = type('Last', (wide[-1],), {})
        t.same(set(t.ok('all_subclasses', all_subclasses, base)), set(wide + deep + [last]), 'wrong subclasses', n=n)
        done(t, 'introspected', n)


def equals(t, rng, i):
    """Large configurations, equal or different in one place, and their copies; C11, C36."""
    from whatami import What
    for n in up_to(rng, 2100):
        names, mixed = keys(n, rng)
        one = What('f', {k: [int(k[1:])] for k in names})
        two = What('f', {k: [int(k[1:])] for k in mixed})
        where = rng.choice(names)
        copies = one.copy(), one.copy(deep=True)
        t.check(all([one == w and w == one and not one != w and hash(w) == hash(one) for w in (two,) + copies]), 'equal configurations are different', n=n)
        two.conf[where] = [-1]
        t.check(one != two and not one == two and two != one, 'different configurations are equal', n=n)
        copies[1].conf[where].append(3)
        t.same(one.conf[where], [int(where[1:])], 'changing a deep copy changes the original', n=n)
        copies[0].set(where, 'changed')
        t.same(one.conf, {k: [j] for j, k in enumerate(names)}, 'changing a copy changes the original', n=n)
        done(t, 'equals', n)
