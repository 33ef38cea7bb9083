# coding=utf-8
"""C21: each record holds exactly the values its specification defines."""
import collections

import numpy as np

from .. import recmodel as rm
from .. import sizes
from ..funcs import Value

PROPERTY = 'C21'
TECHNIQUE = ('runtime monitoring: an online monitor of a reference model of records over random histories of additions and changes of '
             'defaults and postprocessors, observing also each call to the postprocessors')
RULE = ('additions of one or several ids with columns of all kinds (objects, strings, lists, arrays, iterators, dictionaries by id), '
        'unboxing or not, to recorders whose defaults and chains of postprocessors change along the history, adding or overriding '
        'postprocessors at each addition; distinct by records; non-trivial: with columns')
REQUIRE = {'large sizes': 1, 'addition': 500, 'record': 900, 'explicit over default': 250, 'default used': 300, 'missing entry with default': 25,
           'missing entry without default': 100, 'unboxed': 250, 'not unboxed': 80, 'broadcast': 300, 'postprocessor call': 600,
           'overriding': 50, 'appending': 60, 'defaults changed': 60, 'postprocessors changed': 60, 'single': 100,
           'falsy over default': 60, 'unboxed': 500, 'postprocessors by an iterator': 15}

COLUMNS = ['a', 'b', 'c', 'who', 'name', 'record', 'columns', 'values', 'an_id', 'function', 'default', 'params', 'id_extractor',
           'not a name', 'item', 'column', 'cls', 'x']


class Sequence(object):
    """Iterable only by position."""

    def __init__(self, items):
        self.items = items

    def __getitem__(self, i):
        return self.items[i]


CONTAINERS = {'list': list, 'tuple': tuple, 'iterator': lambda v: rm.one_shot(v), 'deque': collections.deque,
              'named': lambda v: collections.namedtuple('Named', ['n%d' % n for n in range(len(v))])(*v), 'userlist': collections.UserList,
              'sequence': Sequence, 'odict': lambda v: collections.OrderedDict((x, None) for x in v).keys(), 'map': lambda v: map(lambda x: x, v)}


class Text(str):
    pass


class Column(object):
    def __init__(self, rng, ids):
        self.kind = rng.choice(['object', 'object', 'text', 'none', 'falsy', 'dict', 'dict', 'dict', 'array', 'range'] + sorted(CONTAINERS))
        if self.kind == 'object':
            self.given = Value()
        elif self.kind == 'text':
            self.given = rng.choice([str, str, Text, np.str_])(rng.choice(['', 'a', 'text', 'x' * len(ids)]))
        elif self.kind == 'none':
            self.given = None
        elif self.kind == 'falsy':
            self.given = rng.choice([0, False, 0.0, ''])
        elif self.kind == 'dict':
            cls = rng.choice([dict, collections.OrderedDict])
            self.given = cls([(i, rng.choice([Value(), None, 0, {'k': 1}, {}, [1, 2], 'text', ()])) for i in ids if rng.random() < 0.6])
            if rng.random() < 0.3:
                self.given['not here'] = 1
        elif self.kind == 'range':
            self.given = range(5, 5 + len(ids))
        elif self.kind == 'array':
            self.given = np.array([rng.randrange(100) for _ in ids])
        elif len(ids) == 1 and rng.random() < 0.3:    # without order, but with a single one
            self.kind = 'single'
            self.values = [Value()]
            self.given = rng.choice([set, frozenset])(self.values)
        else:
            self.values = [Value() if rng.random() < 0.7 or self.kind == 'odict' else rng.choice([None, 0, '', [1], {'x': 3}]) for _ in ids]
            self.given = CONTAINERS[self.kind](self.values)

    def of(self, position, an_id, unbox):
        if self.kind == 'dict':
            return (True, self.given[an_id]) if an_id in self.given else (False, None)
        if self.kind in ('object', 'text', 'none', 'falsy') or not unbox:
            return True, self.given
        if self.kind in ('range', 'array'):
            return True, self.given[position]
        return True, self.values[position]


def exactly(t, got, expected, message, **detail):
    """The same columns with the same objects."""
    if set(got) != set(expected):
        t.fail(message, got=got, expected=expected, **detail)
    for k, v in expected.items():
        x = got[k]
        same = x is v or (type(x) is type(v) and isinstance(x, (int, float, str, bool, np.integer)) and x == v) or \
            (type(x) is tuple and type(v) is tuple and repr(x) == repr(v))
        t.check(same, message, column=k, got=got, expected=expected, **detail)


def histories(t, rng, i):
    from whatami.registry import Recorder
    extractor = rng.choice([str, str, None, lambda o: 'id%s' % o, lambda o: 'm(%s)' % o, lambda o: (o, 'x')])
    id_column = rng.choice(['id', 'id', 'whatid', 'the name'])
    pool = [rm.Postprocessor(rng, n) for n in range(5)]
    defaults = {c: rng.choice([Value(), None, 0, 'default', [1, 2], {'x': 1}, int, Value, len, rm.value, lambda: 3, iter, '', b'x', range(3)]) for c in rng.sample(COLUMNS, rng.randrange(0, 5))
                if c not in ('name', 'id_extractor', 'cls')}
    if rng.random() < 0.15:
        defaults[id_column] = 'a default for the id'
    pps = [p for p in pool if rng.random() < 0.3]
    rec = t.ok('Recorder', lambda: Recorder(id_extractor=extractor, id_column_name=id_column,
                                            record_postprocessors=list(pps) if pps or rng.random() < .5 else None, **defaults))
    model = rm.Model(id_column, extractor, defaults, pps)
    counter = 0
    for step in range(rng.choice([3, 6, 10])):
        op = rng.random()
        if op < 0.15:
            new = {c: rng.choice([Value(), None, 'new default', list, len, lambda: 3]) for c in rng.sample(COLUMNS, 2)}
            t.event('defaults changed')
            t.ok('add_column_defaults', lambda: rec.add_column_defaults(**new))
            model.defaults.update(new)
        elif op < 0.25:
            gone = rng.sample(COLUMNS + ['not there'], 4)
            t.event('defaults changed')
            t.ok('remove_column_defaults', rec.remove_column_defaults, *gone)
            for c in gone:
                model.defaults.pop(c, None)
        elif op < 0.35:
            more = rng.sample(pool, rng.randrange(0, 3))
            t.event('postprocessors changed')
            t.ok('add_record_postprocessors', rec.add_record_postprocessors, *more)
            model.postprocessors += more
        elif op < 0.42:
            more = rng.sample(pool, rng.randrange(0, 3))
            t.event('postprocessors changed')
            t.ok('override_record_postprocessors', rec.override_record_postprocessors, *more)
            model.postprocessors = more
        exactly(t, t.ok('column_defaults', lambda: rec.column_defaults), model.defaults, 'wrong defaults')
        t.same(list(t.ok('record_postprocessors', rec.record_postprocessors)), model.postprocessors, 'wrong postprocessors')

        n = rng.choice([1, 1, 2, 3, 6])
        objs = list(range(counter, counter + n))
        counter += n
        ids = objs if extractor is None else [extractor(o) for o in objs]
        columns = {c: Column(rng, ids) for c in rng.sample(COLUMNS, rng.choice([0, 1, 2, 4]))}
        unbox = rng.random() < 0.75
        given = {c: v.given for c, v in columns.items()}
        if not unbox or rng.random() < 0.2:
            given['unbox_iterables'] = unbox
        custom = override = None
        if rng.random() < 0.3:
            custom = rng.sample(pool, rng.randrange(0, 3))
            container = rng.choice([list, tuple, rm.one_shot])
            if container is rm.one_shot and n > 1 and custom:
                t.event('postprocessors by an iterator')
            given['record_postprocessors'] = container(custom)
            if rng.random() < 0.5:
                override = given['override_postprocessors'] = rng.random() < 0.7
            t.event('overriding' if override else 'appending')
        elif rng.random() < 0.1:
            given['override_postprocessors'] = True    # nothing to override with
        for p in pool:
            del p.calls[:]
        t.event('addition')
        form = objs[0] if n == 1 and rng.random() < 0.5 else rng.choice([list, tuple, rm.one_shot])(objs)
        if form is objs[0]:
            t.event('single')
        expected = model.add(objs, columns, unbox, custom, override)
        got = t.ok('add', lambda: rec.add(form, **given))
        t.same(list(got), ids, 'wrong ids are returned')
        chain = list(model.postprocessors)
        if custom is not None:
            chain = custom if override else chain + custom
        # the calls to the postprocessors
        record_of = {}
        without = rm.Model(id_column, extractor, model.defaults)
        without.records = model.records
        for an_id, record in without.add(objs, columns, unbox).items():
            for p in chain:
                record_of.setdefault(p.n, []).append((an_id, record))
                record = p.effect(an_id, record)
        for p in pool:
            t.same(len(p.calls), len(record_of.get(p.n, [])), 'a postprocessor is not called once per record', chain=[q.n for q in chain])
            for (an_id, record, recorder), (expected_id, expected_record) in zip(p.calls, record_of.get(p.n, [])):
                t.event('postprocessor call')
                t.same(an_id, expected_id, 'a postprocessor is called with the wrong id')
                exactly(t, record, expected_record, 'a postprocessor is called with the wrong record', id=an_id)
                t.check(recorder is rec, 'a postprocessor is not given the recorder')
        # the records
        for position, (an_id, record) in enumerate(expected.items()):
            t.event('record')
            exactly(t, got[an_id], record, 'wrong record', id=an_id, given=given, defaults=model.defaults, unbox=unbox)
            stored = t.ok('get', rec.get, an_id)
            t.same(len(stored), 1, 'the record is not found', id=an_id)
            exactly(t, stored[0], record, 'wrong record', id=an_id, given=given, defaults=model.defaults, unbox=unbox)
            for c, v in columns.items():
                there, x = v.of(position, an_id, unbox)
                if not there:
                    t.event('missing entry with default' if c in model.defaults else 'missing entry without default')
                elif v.kind in ('object', 'text', 'none', 'falsy'):
                    t.event('broadcast')
                elif v.kind != 'dict':
                    t.event('unboxed' if unbox else 'not unboxed')
                if there and c in model.defaults:
                    t.event('explicit over default')
                    if v.kind in ('none', 'falsy'):
                        t.event('falsy over default')
            for c in model.defaults:
                if c not in columns:
                    t.event('default used')
        model.commit(expected)
        t.same(len(rec), len(model.records), 'wrong number of records')
        if columns:
            t.seen((i, step, [rm.plain(r) for r in expected.values()]))
            t.sample('%r unbox=%s -> %r' % (given, unbox, list(expected.values())))
    # what was recorded before is not affected by what changes later
    for an_id, record in model.records.items():
        exactly(t, rec.get(an_id)[0], record, 'a record changes afterwards', id=an_id)


def many(t, rng, i):
    """Many defaults and many columns, with any name."""
    from whatami.registry import Recorder
    n = rng.choice([1, 2, 10, 63, 64, 65, 80, 129, 300, 1100])
    names = ['%s%d' % (rng.choice(['c', 'z', '_', 'A']), k) for k in range(n)] + rng.sample(['defaults', 'columns', 'columns_defaults', 'records', 'record', 'default', 'column'], rng.randrange(3))
    defaults = {c: rng.choice([c, None, k, {'a': 1}, {}]) for k, c in enumerate(names)}
    how = rng.choice(['constructor', 'add', 'one by one'])
    rec = t.ok('Recorder', lambda: Recorder(**(defaults if how == 'constructor' else {})))
    if how == 'add':
        t.ok('add_column_defaults', lambda: rec.add_column_defaults(**defaults))
    elif how == 'one by one':
        for c, v in defaults.items():
            t.ok('add_column_defaults', lambda: rec.add_column_defaults(**{c: v}))
    t.same(t.ok('column_defaults', lambda: rec.column_defaults), defaults, 'wrong defaults', how=how)
    given = {c: 'given %s' % c for c in rng.sample(names, rng.randrange(len(names) + 1)) if c not in rm.RESERVED}
    added = t.ok('add', lambda: rec.add('an id', **given))
    expected = dict(defaults, id='an id')
    expected.update(given)
    got = t.ok('get', rec.get, 'an id')
    t.same(len(got), 1, 'wrong number of records')
    t.same(dict(got[0]), expected, 'wrong record', how=how, n=n)
    t.event('many columns')
    t.seen(('many', n, how, len(given)))


PHASES = [('larger sizes', sizes.records, {'quick': 2, 'thorough': 24}),
          ('many', many, {'quick': 40, 'thorough': 1000}),
          ('histories', histories, {'quick': 300, 'thorough': 15000})]
