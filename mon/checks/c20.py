# coding=utf-8
"""C20: adding records is all-or-nothing, unique and keeps insertion order."""
import collections

from .. import recmodel as rm
from ..core import Interruption

PROPERTY = 'C20'
TECHNIQUE = ('runtime monitoring with fault injection: an online monitor of a model of the recorder over random histories of '
             'additions, with failures injected at any record by ids, extractors, columns and postprocessors')
RULE = ('histories of additions of zero, one or several records to recorders with several extractors, id columns, defaults and '
        'postprocessors, failing (repeated ids, extractors, iterables, postprocessors, reserved columns, interruptions) at the first, middle '
        'or last record, with and without retry, all queries checked after each one; distinct by history; non-trivial: with '
        'failures and successes')
REQUIRE = {'history': 60, 'defaults changed': 100, 'add': 600, 'add:raised': 150, 'added records': 700, 'fault:repeated': 30, 'fault:known': 30,
           'fault:extractor': 20, 'fault:postprocessor': 30, 'fault:reserved': 20, 'fault:iterable': 15, 'fault:ids': 15,
           'fault:unhashable': 15, 'retry': 30, 'tabular view': 500, 'late fault': 60, 'fault:column': 15,
           'interruption': 15, 'emptied record': 10, 'none as id': 6, 'added while adding': 40, 'renamed': 18, 'lookalikes': 350}


FALSY = {1: '', 2: 'id', 3: ' ', 4: 'None', 5: 'nan', 6: '0', 7: '\n', 8: u'\xe9'}


RAW = {2: None, 3: '', 5: -1, 6: 'None', 7: 0.5, 9: 0}   # ids used as they are


class Fault(Exception):
    pass


class Injector(object):
    """Makes its k-th call fail."""

    def __init__(self):
        self.left = None
        self.error = None

    def arm(self, k, error):
        self.left, self.error = k, error

    def hit(self):
        if self.left is not None:
            if self.left == 0:
                self.left = None
                raise self.error
            self.left -= 1


def exploding(items, k, error):
    for j, x in enumerate(items):
        if j == k:
            raise error
        yield x
    if k >= len(items):
        raise error


def histories(t, rng, i):
    from whatami.registry import Recorder
    from toolz import curry
    t.event('history')
    injector, processing = Injector(), Injector()
    raw = rng.random() < 0.15     # the ids are used as they are
    base = (lambda o: o) if raw else rng.choice([str, lambda o: 'id-%s' % o, lambda o: o, lambda o: ('odd' if o % 2 else 'even', o) if isinstance(o, int) else o,
                                                        lambda o: FALSY.get(o, 'id-%s' % o) if isinstance(o, int) else o])
    frame = True

    def extractor(o):
        injector.hit()
        return base(o)

    def failing(an_id, record, recorder):
        record['half done'] = True
        processing.hit()
        del record['half done']
        return record
    failing.effect = lambda an_id, record: record
    id_column = rng.choice(['id', 'id', 'key', 'whatami id'])
    defaults = rng.choice([{}, {'who': 'me', 'a': 0}])
    pps = [failing] + [rm.Postprocessor(rng, n) for n in range(rng.randrange(0, 2))]
    cls = Recorder if rng.random() < 0.7 else type('MyRecorder', (Recorder,), {})
    rec = t.ok('Recorder', lambda: cls(name=rng.choice([None, 'n']), id_column_name=id_column, id_extractor=None if raw else extractor,
                                       record_postprocessors=list(pps), **defaults))
    model = rm.Model(id_column, base, defaults, pps)
    counter, log, tried, returned = [0], [], [], []
    faults = successes = 0
    for step in range(rng.choice([4, 8, 14])):
        if rng.random() < 0.2:     # other defaults, for what is added from now on
            t.event('defaults changed')
            if model.defaults and rng.random() < 0.4:
                gone = rng.choice(sorted(model.defaults))
                t.ok('remove_column_defaults', rec.remove_column_defaults, gone)
                del model.defaults[gone]
            else:
                new = rng.choice([{'late': step}, {'who': None}, {'late': 'x', 'b': -1}])
                t.ok('add_column_defaults', lambda: rec.add_column_defaults(**new))
                model.defaults.update(new)
            log.append(('defaults', dict(model.defaults)))
            rm.audit(t, rec, model, [], frame, log)
        n = rng.choice([0, 1, 1, 2, 3, 5, 8])
        objs = []
        for _ in range(n):
            counter[0] += 1
            objs.append(RAW.get(counter[0], counter[0]) if raw else counter[0])
            if objs[-1] is None:
                t.event('none as id')
        fault = rng.choice([None, None, 'repeated', 'known', 'extractor', 'postprocessor', 'reserved', 'iterable', 'ids', 'unhashable',
                            'column'])
        error = rng.choice([Fault, ValueError, KeyError, TypeError, Interruption, IndexError])('injected')
        columns = {c: rm.Column(rng, [base(o) for o in objs]) for c in rng.sample(['a', 'b', 'c d', 'e'], rng.randrange(0, 4))}
        where = rng.choice([0, n // 2, n - 1]) if n else 0
        unbox = rng.random() < 0.8
        pass_objs = list(objs)
        make_ids = rng.choice([list, tuple, rm.one_shot])
        injector.left = processing.left = None
        applicable = True
        if fault == 'repeated' and n > 1:
            other = rng.choice([j for j in range(n) if j != where])
            pass_objs[where] = pass_objs[other]
        elif fault == 'known' and n and model.records:
            known = [o for o in tried if base(o) in model.records]
            pass_objs[where] = rng.choice(known)
        elif fault == 'extractor' and n and not raw:
            injector.arm(where, error)
        elif fault == 'postprocessor' and n:
            processing.arm(where, error)
        elif fault == 'reserved' and n:
            columns[id_column] = rm.Column(rng, [base(o) for o in objs], ('scalar', 'text', 'list', 'none'))
        elif fault == 'iterable' and n and unbox:
            pass
        elif fault == 'ids':
            pass
        elif fault == 'unhashable' and n and base is not str and base(1) == 1:
            pass_objs[where] = [1]
        elif fault == 'column' and n:
            pass
        else:
            applicable, fault = False, None
        kwargs = {c: v.make() for c, v in columns.items()}
        if fault == 'iterable':
            kwargs['a'] = exploding([1] * n, where, error)
        elif fault == 'column':     # a postprocessor given for this addition only
            kwargs['record_postprocessors'] = [_Failing(where, error)]
        if not unbox:
            kwargs['unbox_iterables'] = False
        ids = exploding(pass_objs, where, error) if fault == 'ids' else make_ids(pass_objs)
        if fault is None and n == 1 and rng.random() < 0.5:
            ids = pass_objs[0]
        tried += objs
        others = [base(o) for o in tried]
        settings = (t.ok('column_defaults', lambda: rec.column_defaults), list(t.ok('record_postprocessors', rec.record_postprocessors)))
        before = [rm.plain(r) for r in rec.get(*model.records)]
        t.check(before == [rm.plain(r) for r in model.records.values()], 'records change between additions', log=log)
        how = rng.choice(['add', 'curried', 'padd'])
        if how == 'curried' and kwargs:
            out = t.call('add', lambda: rec.add(**kwargs)(ids))
        elif how == 'padd':
            out = t.call('add', lambda: rec.padd(**kwargs)(ids))
        else:
            out = t.call('add', lambda: rec.add(ids, **kwargs))
        log.append((how, pass_objs, sorted(kwargs), fault, where, type(error).__name__))
        if fault is not None:
            t.event('fault:' + fault)
            if isinstance(error, Interruption) and fault in ('extractor', 'postprocessor', 'iterable', 'ids', 'column'):
                t.event('interruption')
            faults += 1
            if where:
                t.event('late fault')
            t.check(out.failed, 'the addition should fail', log=log, out=out)
        else:
            expected = model.add(objs, columns, unbox)
            if out.failed:
                t.fail('a valid addition fails', log=log, out=out)
            t.check(isinstance(out.value, dict) and not isinstance(out.value, curry), 'wrong result of an addition', got=out.value, log=log)
            t.same([(k, rm.plain(v)) for k, v in out.value.items()], [(k, rm.plain(v)) for k, v in expected.items()],
                   'an addition does not return what it adds, in order', log=log)
            model.commit(expected)
            successes += 1
            if rng.random() < 0.3:     # what is returned is of the caller
                t.event('returned cleared')
                out.value.clear()
                expected = {}
            returned.append((out.value, list(expected)))
            t.event('added records', len(expected))
        rm.audit(t, rec, model, others, frame, log)
        t.same((rec.column_defaults, list(rec.record_postprocessors())), settings, 'adding changes the recorder', log=log)
        if fault is not None and rng.random() < 0.5:     # what failed can be done right afterwards
            t.event('retry')
            injector.left = processing.left = None
            good = {c: v for c, v in columns.items() if c != id_column}
            got = t.ok('add', lambda: rec.add(list(objs), unbox_iterables=unbox, **{c: v.make() for c, v in good.items()}))
            expected = model.add(objs, good, unbox)
            t.same([(k, rm.plain(v)) for k, v in got.items()], [(k, rm.plain(v)) for k, v in expected.items()],
                   'a failed addition affects the next one', log=log)
            model.commit(expected)
            t.event('added records', len(expected))
            rm.audit(t, rec, model, others, frame, log)
    for got, expected in returned:
        t.same(list(got), expected, 'what an addition returned changes afterwards', log=log)
    if faults and successes:
        t.seen(log)
        t.sample(repr(log)[:500])


class _Failing(object):
    def __init__(self, k, error):
        self.k, self.error = k, error

    def __call__(self, an_id, record, recorder):
        if self.k == 0:
            raise self.error
        self.k -= 1
        return record


def bulk(t, rng, i):
    """Many records, failing at one of the last ones."""
    from whatami.registry import Recorder
    rec, model = Recorder(who='me'), rm.Model(defaults={'who': 'me'})
    n = rng.choice([100, 300])
    rec.add(range(n), number=range(n))
    model.commit(model.add(range(n), {'number': _Numbers(n)}))
    rm.audit(t, rec, model)
    for bad in ([n + 1] * 2, list(range(n, 2 * n)) + [0], list(range(n, 2 * n)) + [n], list(range(n - 1, 2 * n))):
        t.event('add')
        t.raises('add', Exception, lambda: rec.add(bad, number=range(len(bad))))
        t.event('late fault')
        rm.audit(t, rec, model, ['%d' % x for x in bad])
    t.seen((n, i))


def uniques(t, rng, i):
    """Unique values over many records."""
    from whatami.registry import Recorder
    n = [10, 1001, 1200, 3000][i % 4]
    rec = Recorder()
    start = 0
    while start < n:
        m = rng.choice([1, 100, 500, 1000])
        m = min(m, n - start)
        t.ok('add', rec.add, ['r%d' % k for k in range(start, start + m)], number=list(range(start, start + m)),
             tenth=[k // (n // 10) for k in range(start, start + m)])
        start += m
    t.same(t.ok('unique', rec.unique, 'number'), set(range(n)), 'wrong unique values', n=n)
    t.same(t.ok('unique', rec.unique, 'tenth'), set(k // (n // 10) for k in range(n)), 'wrong unique values', n=n)
    t.same(t.ok('unique', rec.unique, 'id'), {'r%d' % k for k in range(n)}, 'wrong unique values', n=n)
    t.same([r['number'] for r in rec.get('r0', 'r%d' % (n - 1), 'r%d' % n)], [0, n - 1], 'wrong records', n=n)
    t.same((len(rec), list(rec.to_df()['number'])), (n, list(range(n))), 'wrong number of records')
    t.event('uniques')
    t.seen(('uniques', n, i))


class _Emptied(object):
    effect = staticmethod(lambda an_id, record: {} if int(an_id[1:]) % 2 else {'only': 0})

    def __call__(self, an_id, record, recorder):
        return self.effect(an_id, record)


def lookalikes(t, rng, i):
    """Ids that look the same are not the same, and equal ids of different types are."""
    from whatami.registry import Recorder
    ids = [1, '1', 1.5, '1.5', None, 'None', (1,), '(1,)', b'a', "b'a'", 'a', 'A', ' a', 'a ', '', ' ', u'\xe9', u'e\u0301', True, 'True', 0, '0',
           frozenset([1]), 2 ** 70, str(2 ** 70), '01', 'a\n', ('a',), 'id', (), '()']
    rng.shuffle(ids)
    rec = Recorder(id_extractor=None) if i % 2 else Recorder(id_extractor=lambda x: x)
    model = []
    while ids:
        some, ids = ids[:4], ids[4:]
        new = [x for n, x in enumerate(some) if x not in model and x not in some[:n]]
        out = t.call('add', rec.add, some, n=len(model))
        if len(new) < len(some):
            t.check(out.failed, 'repeated ids are recorded', ids=some)
            out = t.call('add', rec.add, new, n=len(model))
        if out.failed:
            t.fail('a valid addition fails', out=out, ids=new)
        model += new
        t.event('lookalikes', len(new))
        t.same([(type(r['id']), r['id']) for r in rec.get(*model)], [(type(x), x) for x in model], 'wrong records')
        t.same(len(rec), len(model), 'wrong number of records')
    # these are equal, until they become text
    equal = [True, 1, 1.0, 1 + 0j, False, 0, 0.0, -0.0]
    some = rng.sample(equal, rng.randrange(2, 6))
    rec = Recorder()
    if rng.random() < 0.4:
        for n, x in enumerate(some):
            t.ok('add', rec.add, [x], n=n)
    else:
        t.ok('add', rec.add, rng.choice([list, tuple, iter])(some), n=list(range(len(some))))
    t.same([(r['id'], r['n']) for r in rec.get(*map(str, some))], [(str(x), n) for n, x in enumerate(some)], 'wrong records of ids that become text')
    t.event('equal until text')
    t.seen(('lookalikes', [repr(x) for x in model]))


def emptied(t, rng, i):
    """Records that postprocessors leave with nothing are records too."""
    from whatami.registry import Recorder
    rec, model = Recorder(record_postprocessors=[_Emptied()]), rm.Model(postprocessors=[_Emptied()])
    ids = ['r%d' % n for n in range(rng.randrange(1, 6))]
    t.event('emptied record')
    t.ok('add', rec.add, ids, a=1)
    for an_id in ids:
        model.commit(collections.OrderedDict([(an_id, _Emptied.effect(an_id, {}))]))
    rm.audit(t, rec, model, ["never"])
    t.raises('add', Exception, rec.add, rng.choice(ids))
    rm.audit(t, rec, model, ["never"])
    t.seen(('emptied', ids))


def renamed(t, rng, i):
    """Records are known by the id they were added with, whatever the postprocessors write."""
    from whatami.registry import Recorder
    kind = rng.choice(['same', 'swapped', 'removed', 'other type'])
    column = rng.choice(['id', 'key'])
    ids = ['r%d' % n for n in range(rng.randrange(1, 6))]

    def postprocess(an_id, record, recorder=None):
        record = dict(record)
        if kind == 'removed':
            del record[column]
        else:
            record[column] = {'same': 'r0', 'swapped': ids[-1 - ids.index(an_id)] if an_id in ids else 'r1', 'other type': [an_id]}[kind]
        return record
    rec, model = Recorder(id_column_name=column, record_postprocessors=[postprocess]), rm.Model(column)
    t.event('renamed')
    t.ok('add', rec.add, ids, a=1)
    for an_id in ids:
        model.commit(collections.OrderedDict([(an_id, postprocess(an_id, {'a': 1, column: an_id}))]))
    rm.audit(t, rec, model, ['never'])
    t.raises('add', Exception, rec.add, rng.choice(ids))
    rm.audit(t, rec, model, ['never'])
    t.seen(('renamed', kind, ids))


def reentrant(t, rng, i):
    """Records added while adding (by a postprocessor, the extractor or an iterator) are never lost nor replaced."""
    from whatami.registry import Recorder
    n = rng.randrange(1, 5)
    ids = ['r%d' % k for k in range(n)]
    where = rng.choice(ids)
    inner = rng.choice(['other', where, rng.choice(ids)])
    by = rng.choice(['postprocessor', 'postprocessor', 'extractor', 'column', 'ids'])
    busy = []

    def add(recorder):
        if not busy:
            busy.append(True)
            t.event('added while adding')
            recorder.add(inner, kind='inner')

    def postprocess(an_id, record, recorder):
        if by == 'postprocessor' and an_id == where:
            add(recorder)
        return record

    def extract(obj):
        if by == 'extractor' and obj == where and not busy:
            add(rec)
        return obj

    def items(values, when):
        for v in values:
            if when and v == where:
                add(rec)
            yield v
    rec = Recorder(record_postprocessors=[postprocess], id_extractor=extract)
    out = t.call('add', lambda: rec.add(items(ids, by == 'ids'), kind='outer', column=items(ids, by == 'column')))
    model = rm.Model()
    record = collections.OrderedDict([('id', inner), ('kind', 'inner')])
    model.commit({inner: record})
    t.check(out.failed == (inner in ids), 'an addition replaces a record' if not out.failed else 'a valid addition fails', out=out, by=by)
    if not out.failed:
        for k in ids:
            model.commit({k: {'id': k, 'kind': 'outer', 'column': k}})
    rm.audit(t, rec, model, ids + ['other'])
    rec.add('last')
    model.commit({'last': {'id': 'last'}})
    rm.audit(t, rec, model, ids + ['other'])
    t.seen(('reentrant', n, where, inner, by))


class _Numbers(object):
    def __init__(self, n):
        self.n = n

    def of(self, position, an_id, unbox):
        return True, position


PHASES = [('histories', histories, {'quick': 120, 'thorough': 4000}),
          ('reentrant', reentrant, {'quick': 60, 'thorough': 1500}),
          ('renamed', renamed, {'quick': 30, 'thorough': 400}),
          ('lookalikes', lookalikes, {'quick': 20, 'thorough': 600}),
          ('emptied', emptied, {'quick': 20, 'thorough': 200}),
          ('uniques', uniques, {'quick': 4, 'thorough': 40}),
          ('bulk', bulk, {'quick': 2, 'thorough': 20})]
