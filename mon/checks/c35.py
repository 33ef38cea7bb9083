# coding=utf-8
"""C35: positional ids list each id value once, in key order."""
import hashlib
import random

from .. import gen, ref, sizes

PROPERTY = 'C35'
TECHNIQUE = 'runtime monitoring: every positional id is compared online with an independent reference renderer'
RULE = ('random configurations, nested or not, with and without output names and non-id keys, built in shuffled orders; '
        'distinct by positional id; non-trivial: at least two parameters')
REQUIRE = {'large sizes': 1, 'positional_id': 1500, 'nested': 60, 'with non-ids': 80}
O = gen.Options(nonids=True, nan=True, classes=True)


def configurations(t, rng, i):
    spec = gen.what(rng, O, rng.choice([1, 2, 3]))
    w = gen.build(spec, rng)
    own, everything = ref.positional(spec), ref.positional(spec, nonids_too=True)
    t.same(t.ok('positional_id', w.positional_id), own, 'wrong positional id', spec=spec)
    t.same(t.ok('positional_id', w.positional_id, non_ids_too=True), everything, 'wrong positional id with non-ids',
           spec=spec)
    t.same(t.ok('positional_id', gen.build(spec, random.Random(rng.random())).positional_id), own,
           'the positional id depends on the order', spec=spec)
    t.same(t.ok('positional_id', w.positional_id, non_ids_too=False, maxlength=0), own, 'wrong positional id', spec=spec)
    for text, kw in ((own, {}), (everything, {'non_ids_too': True})):
        for limit in {len(text) + rng.choice([-2, -1, 0, 1]), rng.randrange(1, 60), len(text.partition('(')[0]), len(text) - len(spec[2] or '') - 1}:
            if limit > 0:
                t.event('limited')
                t.same(t.ok('positional_id', w.positional_id, maxlength=limit, **kw),
                       text if len(text) <= limit else hashlib.sha1(text.encode('utf-8', 'surrogatepass')).hexdigest(), 'wrong limited positional id', text=text, limit=limit)
    t.same(t.ok('id', w.id), ref.render(spec), 'the id changes after asking for the positional one', spec=spec)
    if any(v[0] == 'what' for _, v in spec[3]):
        t.event('nested')
    if own != everything:
        t.event('with non-ids')
    if len(spec[3]) > 1:
        t.seen(everything)
        t.sample(own)


def histories(t, rng, i):
    """After setting values the positional id is the one of the new values."""
    spec = gen.what(rng, O, 2)
    w = gen.build(spec, rng)
    for _ in range(4):
        key = rng.choice([k for k, _ in spec[3]] + ['fresh%d' % rng.randrange(5)])
        value = gen.value(rng, O, 1)
        kvs = [(k, value if k == key else v) for k, v in spec[3]]
        if key not in dict(kvs):
            kvs.append((key, value))
        spec = spec[:3] + (kvs,) + spec[4:]
        w.set(key, gen.build(value, rng))
        t.same(t.ok('positional_id', w.positional_id), ref.positional(spec), 'wrong positional id after setting', spec=spec)
        t.same(t.ok('positional_id', w.positional_id, non_ids_too=True), ref.positional(spec, nonids_too=True),
               'wrong positional id with non-ids after setting', spec=spec)
    t.seen(('history', ref.positional(spec, True)))


PHASES = [('larger sizes', sizes.nonids, {'quick': 2, 'thorough': 24}),
          ('configurations', configurations, {'quick': 600, 'thorough': 30000}),
          ('histories', histories, {'quick': 120, 'thorough': 5000})]
