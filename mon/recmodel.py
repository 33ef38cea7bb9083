# coding=utf-8
"""Reference model of the recorders: what each addition should record."""
import collections
import random

from . import gen

RESERVED = ('ids', 'unbox_iterables', 'record_postprocessors', 'override_postprocessors', 'self')


ABSENT = 'an id that is not there'


class Fails(Exception):
    """The addition should fail."""


def one_shot(items):
    """An iterator."""
    return (x for x in items)


class MyList(list):
    pass


class MyTuple(tuple):
    pass


class Column(object):
    """The value given to a column: what it is, and what each record gets."""

    def __init__(self, rng, ids, kinds=('scalar', 'text', 'list', 'tuple', 'iterator', 'dict', 'dict', 'none', 'other')):
        self.kind = rng.choice(kinds)
        self.values = [value(rng) for _ in ids]
        if self.kind == 'dict':
            self.items = {i: (value(rng) if rng.random() < 0.8 else rng.choice([{'k': 1}, [1, 2], (), 'x']))
                          for i in ids if rng.random() < 0.7}
            if rng.random() < 0.3:
                self.items['not an id here'] = 33
        if self.kind == 'scalar':
            self.values = [rng.choice([0, 1, -3, 2.5, True, 10 ** 20])]
        elif self.kind == 'text':
            self.values = [rng.choice(['', 'a', 'hello', 'abc'])]
        elif self.kind == 'none':
            self.values = [None]
        elif self.kind == 'other':
            self.form = rng.choice(['range', collections.deque, collections.UserList, MyList, MyTuple, 'named'])
            if self.form == 'range':
                self.form = lambda values: range(3, 3 + len(values))
                self.values = list(self.form(self.values))
            elif self.form == 'named':
                self.form = collections.namedtuple('Named', ['n%d' % n for n in range(len(self.values))])._make

    def make(self):
        if self.kind in ('scalar', 'text', 'none'):
            return self.values[0]
        if self.kind == 'list':
            return list(self.values)
        if self.kind == 'tuple':
            return tuple(self.values)
        if self.kind == 'iterator':
            return one_shot(self.values)
        if self.kind == 'other':
            return self.form(self.values)
        return dict(self.items)

    def of(self, position, an_id, unbox):
        """(is it there, the value) for a record."""
        if self.kind in ('scalar', 'text', 'none'):
            return True, self.values[0]
        if self.kind == 'dict':
            return (True, self.items[an_id]) if an_id in self.items else (False, None)
        if unbox:
            return True, self.values[position]
        return True, self.make()


def value(rng):
    return rng.choice([None, 0, 1, 2, 7, 'a', 'b', '', 0.5, True, False, (1, 2), 'long text'])


class Postprocessor(object):
    """Postprocessors of which the model knows the effects."""

    def __init__(self, rng, n, kinds=('add', 'rename', 'replace', 'copy', 'order') * 3 + ('empty',)):
        self.n = n
        self.kind = rng.choice(kinds)
        self.calls = []

    def effect(self, an_id, record):
        record = dict(record)
        if self.kind == 'empty':
            return {}
        if self.kind == 'add':
            record['pp%d' % self.n] = 'pp%d of %r' % (self.n, an_id)
        elif self.kind == 'rename' and 'a' in record:
            record['renamed%d' % self.n] = record.pop('a')
        elif self.kind == 'replace':
            record['b'] = (record.get('b'), self.n)
        elif self.kind == 'order':
            record['seen by'] = record.get('seen by', ()) + (self.n,)
        return record

    def __call__(self, an_id, record, recorder):
        self.calls.append((an_id, dict(record), recorder))
        new = self.effect(an_id, record)
        if self.kind in ('copy', 'order') or (self.kind == 'empty' and self.n % 2):
            return new
        record.clear()           # in place
        record.update(new)
        return record


class Model(object):
    def __init__(self, id_column='id', extractor=str, defaults=None, postprocessors=()):
        self.records = collections.OrderedDict()
        self.id_column = id_column
        self.extractor = extractor
        self.defaults = dict(defaults or {})
        self.postprocessors = list(postprocessors)

    def add(self, objs, columns, unbox=True, postprocessors=None, override=False):
        """The records to add (they are committed by the caller); raises Fails when it should not be possible."""
        ids = [self.extractor(o) for o in objs] if self.extractor is not None else list(objs)
        new = collections.OrderedDict()
        for position, an_id in enumerate(ids):
            if an_id in self.records or an_id in new:
                raise Fails('repeated id')
            record = {}
            for name, column in columns.items():
                there, v = column.of(position, an_id, unbox)
                if there:
                    record[name] = v
            if self.id_column in record:
                raise Fails('reserved column')
            record[self.id_column] = an_id
            for name, v in self.defaults.items():
                record.setdefault(name, v)
            chain = list(self.postprocessors)
            if postprocessors is not None:
                chain = list(postprocessors) if override else chain + list(postprocessors)
            for p in chain:
                record = p.effect(an_id, record)
            new[an_id] = record
        return new

    def commit(self, new):
        for an_id, record in new.items():
            self.records[an_id] = record


def plain(x):
    """Comparable and type aware."""
    if isinstance(x, dict):
        return ('dict', sorted([(repr(k), plain(v)) for k, v in x.items()], key=lambda kv: kv[0]))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [plain(v) for v in x])
    if isinstance(x, type(one_shot(()))):
        return ('iterator',)
    return (type(x).__name__, repr(x))


def audit(t, rec, model, others=(), frame=True, log=None):
    """All the queries agree with the model."""
    t.same(t.ok('len', len, rec), len(model.records), 'wrong number of records', log=log)
    ids = list(model.records)
    got = t.ok('get', rec.get, *ids)
    t.same([plain(r) for r in got], [plain(r) for r in model.records.values()], 'wrong records', log=log)
    if ids:     # in the order in which they are asked, as many times as they are
        rng = random.Random(len(ids))
        some = rng.choice([ids[::-1], ids * 2, [rng.choice(ids) for _ in range(len(ids) + 3)], rng.sample(ids, len(ids))])
        some.insert(rng.randrange(len(some)), ABSENT)
        got = t.ok('get', rec.get, *some)
        t.same([plain(r) for r in got], [plain(model.records[x]) for x in some if x != ABSENT], 'wrong records', asked=some, log=log)
    for i in ids[-3:]:
        t.same(plain(t.ok('getitem', rec.__getitem__, i)), plain([model.records[i]]), 'wrong record', id=i, log=log)
    for i in others:
        if i not in model.records:
            t.same(t.ok('get', rec.get, i), [], 'an id that was never added is found', id=i, log=log)
    columns = {c for r in model.records.values() for c in r}
    for column in sorted(columns) + ['never a column']:
        values = [r[column] for r in model.records.values() if column in r]
        if all(isinstance(v, (int, float, str, type(None), bool)) for v in values):
            got = t.ok('unique', rec.unique, column)
            t.check(isinstance(got, (set, frozenset)) and got == set(values), 'wrong unique values', column=column, got=got,
                    expected=values, log=log)
    if frame:
        df = t.ok('to_df', rec.to_df)
        t.event('tabular view')
        t.same(list(df.index), ids, 'wrong rows in the tabular view', log=log)
        t.same(set(df.columns), columns, 'wrong columns in the tabular view', log=log)
        for column in columns:
            for i, x in zip(ids, df[column].tolist()):
                r = model.records[i]
                if column not in r or r[column] is None:
                    t.check(x is None or x != x, 'a value that is not in the record is in the tabular view', id=i, column=column)
                elif 'iterator' not in repr(plain(r[column])):
                    t.check(x == r[column], 'wrong value in the tabular view', id=i, column=column, got=x, expected=r[column])
