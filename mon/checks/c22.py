# coding=utf-8
"""C22: derived adders and recorders never interfere with each other."""
import copy
import functools

from .. import recmodel as rm
from .. import sizes

PROPERTY = 'C22'
TECHNIQUE = ('runtime monitoring: an online monitor of a model of several recorders and trees of derived adders, over random '
             'interleavings of their use with changes to defaults, postprocessors and the collections passed in and given back')
RULE = ('programs over several recorders (also of subclasses that override the addition) sharing the collections of their creation, with '
        'adders derived by currying, partial application and padd to any depth, used and refined in any order, while the caller '
        'mutates what it passed and what it got; all recorders checked after each step; distinct by program; non-trivial: with '
        'derived adders')
REQUIRE = {'large sizes': 1, 'program': 60, 'derive:curry': 90, 'derive:padd': 150, 'derive:partial': 100, 'derived from derived': 150, 'use': 500,
           'failed use': 60, 'depth 3': 30, 'mutate passed': 60, 'mutate given': 150, 'change defaults': 60, 'change postprocessors': 60,
           'reuse': 200, 'tabular view': 500}


class Adder(object):
    """What a derived adder freezes, and over which recorder."""

    def __init__(self, which, fn, frozen, depth):
        self.which, self.fn, self.frozen, self.depth, self.uses = which, fn, frozen, depth, 0


def columns_for(rng, forced=()):
    return {c: rng.choice([1, 2, 'x', None, 'y', 0, (1, 2)]) for c in set(rng.sample(['a', 'b', 'c', 'who'], rng.randrange(0, 3))) | set(forced)}


class Const(object):
    """A column value given to all the records."""

    def __init__(self, v):
        self.v = v

    def of(self, position, an_id, unbox):
        return True, self.v


def subclass(rng, base):
    """Subclasses of the recorder whose additions do more things."""
    kind = rng.randrange(4)
    if kind == 0:
        return type('Sub', (base,), {}), {}
    if kind == 1:
        class Sub(base):
            def add(self, ids, extra='sub', **columns):
                return super(Sub, self).add(ids, extra=extra, **columns)
        return Sub, {'extra': 'sub'}
    if kind == 2:
        class Middle(base):
            def add(self, ids, level='middle', **columns):
                return super(Middle, self).add(ids, level=level, **columns)

        class Leaf(Middle):
            def add(self, ids, **columns):
                return super(Leaf, self).add(ids, **columns)
        return Leaf, {'level': 'middle'}
    return base, {}


def programs(t, rng, i):
    from whatami.registry import Recorder
    t.event('program')
    recs, models, always = [], [], []
    shared_pps = [rm.Postprocessor(rng, n, ('add', 'order')) for n in range(rng.randrange(0, 3))]
    shared_defaults = {'who': 'me', 'kept': 1}
    passed = list(shared_pps)          # the very same list for all
    for n in range(rng.choice([1, 2, 3])):
        cls, extra = subclass(rng, Recorder)
        if rng.random() < 0.7:
            recs.append(t.ok('Recorder', lambda: cls(record_postprocessors=passed, **shared_defaults)))
            models.append(rm.Model(defaults=shared_defaults, postprocessors=shared_pps))
        else:
            recs.append(t.ok('Recorder', cls))
            models.append(rm.Model())
        always.append(extra)
    adders, log = [], []
    counter = [0]

    def audit_all():
        for r, m in zip(recs, models):
            rm.audit(t, r, m, ['nope'], rng.random() < 0.3, log)
            t.same(t.ok('column_defaults', lambda: r.column_defaults), m.defaults, 'the defaults change', log=log)
            t.check(list(t.ok('record_postprocessors', r.record_postprocessors)) == m.postprocessors, 'the postprocessors change', log=log)

    def use(which, fn, frozen, extra_columns):
        t.event('use')
        n = rng.choice([1, 1, 2, 3])
        shared_ids = rng.random() < 0.1 and models[which].records
        objs = []
        for _ in range(n):
            counter[0] += 1
            # sometimes the same ids in different recorders
            objs.append('%d' % (counter[0] if rng.random() < .7 else counter[0] % 17 + 1000))
        if shared_ids:
            objs.append(list(models[which].records)[0])
        arguments = dict(always[which])
        arguments.update(frozen)
        arguments.update(extra_columns)
        options = {k: arguments.pop(k, None) for k in ('unbox_iterables', 'record_postprocessors', 'override_postprocessors')}
        unbox = True if options['unbox_iterables'] is None else options['unbox_iterables']
        columns = {c: Const(v) for c, v in arguments.items()}
        for c, v in arguments.items():
            if isinstance(v, tuple) and unbox:
                columns[c] = _Zipped(v)
        keys = dict(extra_columns)
        out = t.call('add', lambda: fn(objs[0] if len(objs) == 1 and rng.random() < .5 else objs, **keys))
        try:
            expected = models[which].add(objs, columns, unbox, options['record_postprocessors'], options['override_postprocessors'])
        except rm.Fails:
            t.event('failed use')
            t.check(out.failed, 'the addition should fail', log=log)
        else:
            if out.failed:
                t.fail('a valid addition fails', out=out, log=log, frozen=frozen, more=extra_columns)
            t.check(hasattr(out.value, 'items') and [(k, rm.plain(v)) for k, v in out.value.items()] == [
                (k, rm.plain(v)) for k, v in expected.items()], 'wrong records are added', got=out.value, expected=expected, log=log,
                frozen=frozen, more=extra_columns)
            models[which].commit(expected)

    for step in range(rng.choice([10, 20, 30])):
        op = rng.choice(['derive'] * 3 + ['use'] * 4 + ['direct', 'defaults', 'postprocessors', 'mutate', 'mutate'])
        which = rng.randrange(len(recs))
        if op == 'derive':
            parent = rng.choice(adders) if adders and rng.random() < 0.65 else None
            base = parent.fn if parent else recs[which].add
            which = parent.which if parent else which
            frozen = columns_for(rng, ['c'] if rng.random() < .5 else ['b'])
            if rng.random() < 0.2:
                frozen['unbox_iterables'] = False
            if rng.random() < 0.2:
                frozen['record_postprocessors'] = [rm.Postprocessor(rng, 10 + step, ('add', 'order'))]
                if rng.random() < 0.4:
                    frozen['override_postprocessors'] = True
            how = rng.choice(['curry', 'padd', 'partial'])
            if parent is not None and how == 'curry' and isinstance(parent.fn, functools.partial):
                how = 'padd'            # partials are called, not refined
            t.event('derive:' + how)
            if how == 'curry':
                fn = t.ok('add', lambda: base(**frozen))
            elif how == 'padd':
                owner = recs[which] if rng.random() < .8 else rng.choice(recs)   # padd only wraps what it is given
                fn = t.ok('padd', lambda: owner.padd(add=base, **frozen)) if parent or owner is not recs[which] or rng.random() < .5 else \
                    t.ok('padd', lambda: owner.padd(**frozen))
            else:
                fn = functools.partial(base, **frozen)
            t.check(callable(fn) and not isinstance(fn, dict), 'freezing parameters does not give an adder', got=fn)
            total = dict(parent.frozen if parent else {})
            total.update(frozen)
            adder = Adder(which, fn, total, 1 + (parent.depth if parent else 0))
            adders.append(adder)
            if parent:
                t.event('derived from derived')
            if adder.depth >= 3:
                t.event('depth 3')
            log.append((op, how, which, adders.index(parent) if parent else None, sorted(frozen)))
        elif op == 'use' and adders:
            adder = rng.choice(adders)
            if adder.uses:
                t.event('reuse')
            adder.uses += 1
            extra = columns_for(rng) if rng.random() < 0.5 else {}
            log.append((op, adders.index(adder), sorted(extra)))
            use(adder.which, adder.fn, adder.frozen, extra)
        elif op == 'direct':
            log.append((op, which))
            use(which, recs[which].add, {}, columns_for(rng))
        elif op == 'defaults':
            t.event('change defaults')
            if rng.random() < 0.6:
                new = columns_for(rng, ['d'])
                recs[which].add_column_defaults(**new)
                models[which].defaults.update(new)
            else:
                recs[which].remove_column_defaults('who', 'd')
                models[which].defaults.pop('who', None)
                models[which].defaults.pop('d', None)
            log.append((op, which))
        elif op == 'postprocessors':
            t.event('change postprocessors')
            more = [rm.Postprocessor(rng, 100 + step + k, ('add', 'order')) for k in rng.choice([(), (0,), (0,), (0, 1000)])]
            if rng.random() < 0.4:     # some can be there already
                more += rng.sample(list(models[which].postprocessors), min(2, len(models[which].postprocessors)))
                rng.shuffle(more)
            if rng.random() < 0.6:
                recs[which].add_record_postprocessors(*more)
                models[which].postprocessors = models[which].postprocessors + more
            else:
                recs[which].override_record_postprocessors(*more)
                models[which].postprocessors = more
            log.append((op, which))
        elif op == 'mutate':
            if rng.random() < 0.3:
                t.event('mutate passed')
                passed.append(rm.Postprocessor(rng, 1000 + step))
                shared_defaults['mutated%d' % step] = 1
                shared_defaults.pop('kept', None)
            else:
                t.event('mutate given')
                got = recs[which].column_defaults
                got['mutated'] = 1
                got.pop('who', None)
                chain = recs[which].record_postprocessors()
                if isinstance(chain, list):
                    chain.append(rm.Postprocessor(rng, 2000 + step))
                    del chain[:1]
                if adders:
                    copy.copy(rng.choice(adders).fn)
            log.append((op, which))
        audit_all()
    if adders:
        t.seen(log)
        t.sample(repr(log)[:500])


class _Zipped(object):
    def __init__(self, values):
        self.values = values

    def of(self, position, an_id, unbox):
        return True, self.values[position] if position < len(self.values) else None


def empty(t, rng, i):
    """Recorders without defaults that get them later, with any name, from values that the caller keeps."""
    from whatami.registry import Recorder
    recs = [t.ok('Recorder', Recorder) for _ in range(2)]
    models = [{}, {}]
    names = ['defaults', 'columns', 'columns_defaults', 'records', 'who', 'a', 'column_defaults']
    for step in range(rng.randrange(2, 9)):
        which = rng.randrange(2)
        if rng.random() < 0.6:
            new = {c: rng.choice([{'a': 1}, {}, {'who': 2, 'a': 3}, 1, None, 'x', [1]]) for c in rng.sample(names, rng.choice([1, 1, 2]))}
            if rng.random() < 0.3:
                recs[which] = t.ok('Recorder', lambda: Recorder(**new))
                models[which] = dict(new)
            else:
                t.ok('add_column_defaults', lambda: recs[which].add_column_defaults(**new))
                models[which].update(new)
            new['later'] = 1
        else:
            gone = rng.sample(names, rng.randrange(1, 4))
            t.ok('remove_column_defaults', recs[which].remove_column_defaults, *gone)
            for c in gone:
                models[which].pop(c, None)
        for rec, model in zip(recs, models):
            t.event('defaults from nothing')
            t.same(t.ok('column_defaults', lambda: rec.column_defaults), model, 'the defaults change', step=step)
    for rec, model in zip(recs, models):
        t.same(dict(t.ok('add', lambda: rec.add('an id'))['an id']), dict(model, id='an id'), 'wrong record')
    t.seen(('empty', i, [sorted(m) for m in models]))


PHASES = [('larger sizes', sizes.records, {'quick': 2, 'thorough': 24}),
          ('empty', empty, {'quick': 60, 'thorough': 3000}),
          ('programs', programs, {'quick': 160, 'thorough': 4000})]
