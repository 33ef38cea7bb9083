# coding=utf-8
"""C29: old-style ids migrate without losing or changing information."""
from .. import gen, ref, sizes
from .c07 import old_spec, poison

PROPERTY = 'C29'
TECHNIQUE = ('runtime monitoring: the old-style ids of generated configurations are migrated and every result is compared with '
             'the configuration that was written and with its independently rendered new id')
RULE = ('random configurations (nested configurations, collections, strings with separators and quotes) written as old-style '
        'ids, with nested ids quoted or not, white space, an optional output prefix or an output twice; plus strings out of '
        'the old language; non-trivial: with nested ids or output prefix')
REQUIRE = {'large sizes': 1, 'oldid2what': 1200, 'id2whatami4': 900, 'output prefix': 200, 'output twice': 120, 'not old': 500,
           'nested': 150, 'nested last, quoted': 30, 'nested last, unquoted': 50, 'new id parsed': 600, 'in collection': 40, 'empty': 40, 'separators': 60}
OUTS = ['acc', 'acc_to_target', 'out', 'vel.x', 'a b', '0', '-1.5', "it's", 'None', 'f(x=1)', '=', '"quoted"', u'añ', '', '_acc', 'acc_', '_', '__a__', "'acc'", ' acc ', 'ACC']
LITTER = ["a#b", "#", "a='1'#b", '"', 'A#x=1', "out=x#A#", '(', ',', "'", 'x=1']


def migrate(t, rng, i):
    import whatami as wm
    spec = old_spec(rng, rng.choice([1, 2, 2, 3]))
    if rng.random() < 0.05:
        spec = ('what', spec[1], None, [], [])
    for kv in [n for n, (k, v) in enumerate(spec[3]) if v[0] == 'str' and rng.random() < 0.4]:
        spec[3][kv] = (spec[3][kv][0], ('str', rng.choice(LITTER)))
        t.event('separators')
    if rng.random() < 0.25:
        spec[3].append(('last_one', old_spec(rng, 1)))
    old = ref.render_old(spec, rng, ws=rng.random() < 0.4)
    nested = [p for p in gen.paths(spec) if p and gen.at(spec, p)[0] == 'what']
    whole = spec
    prefix = None
    if rng.random() < 0.45 and not any(k == 'out' for k, _ in spec[3]):
        prefix = rng.choice(OUTS)
        old = 'out=%s#%s' % (prefix, old)
        whole = ('what', spec[1], None, list(spec[3]) + [('out', ('str', prefix))], [])
        t.event('output prefix')
    if nested:
        t.event('nested')
        if spec[3][-1][1][0] == 'what':
            t.event('nested last, quoted' if old.endswith('"') else 'nested last, unquoted')
    if not spec[3]:
        t.event('empty')
    if any(v[0] in ('list', 'tuple', 'dict', 'set') for _, v in spec[3]):
        t.event('in collection')
    got = t.ok('oldid2what', wm.oldid2what, old)
    t.same(ref.norm_obj(got), ref.norm_spec(whole), 'the migration changes the configuration', old=old)
    new = t.ok('id', got.id)
    t.same(new, ref.render(whole), 'wrong new id', old=old)
    t.same(t.ok('id2whatami4', wm.id2whatami4, old), new, 'the migrations differ', old=old)
    t.event('new id parsed')
    parsed = t.ok('parse_whatid', wm.parse_whatid, new)
    t.same(ref.norm_obj(parsed), ref.norm_spec(whole), 'the new id does not parse back', old=old, new=new)
    t.same(t.ok('id', parsed.id), new, 'the new id does not parse back', old=old, new=new)
    t.same(t.ok('id2whatami4', wm.id2whatami4, new), new, 'a new id is migrated', old=old)
    # nothing is shared between migrations
    poison(got, rng)
    t.same(ref.norm_obj(t.ok('oldid2what', wm.oldid2what, old)), ref.norm_spec(whole), 'migrations share state', old=old)
    if nested or prefix is not None:
        t.seen(old)
    t.sample('%s -> %s' % (old, new))


def twice(t, rng, i):
    """The output both in the prefix and as a parameter."""
    import whatami as wm
    spec = old_spec(rng, 1)
    kvs = [kv for kv in spec[3] if kv[0] != 'out']
    value = rng.choice([('none',), ('str', ''), ('str', 'acc'), ('int', 0), ('bool', False), ('list', []), ('tuple', ()),
                        ('what', 'A', None, [], [])])
    kvs.insert(rng.randrange(len(kvs) + 1), ('out', value))
    spec = ('what', spec[1], None, kvs, [])
    body = ref.render_old(spec, rng)
    t.same(ref.norm_obj(t.ok('oldid2what', wm.oldid2what, body)), ref.norm_spec(spec), 'the output parameter is lost', old=body)
    t.event('output twice')
    out = rng.choice(OUTS + ['acc', ref.render(value).strip("'")])
    if '#' in out:
        return
    text = 'out=%s#%s' % (out, body)
    t.raises('oldid2what', ValueError, wm.oldid2what, text)
    t.raises('id2whatami4', ValueError, wm.id2whatami4, text)
    # an output in a nested configuration is something else
    nested = ('what', 'Outer', None, [('inner', spec)], [])
    got = t.ok('oldid2what', wm.oldid2what, 'out=%s#%s' % (out, ref.render_old(nested, rng)))
    t.same(ref.norm_obj(got), ref.norm_spec(('what', 'Outer', None, [('inner', spec), ('out', ('str', out))], [])),
           'wrong migration of nested outputs')
    t.seen(text)


def not_old(t, rng, i):
    import whatami as wm
    from arpeggio import NoMatch
    spec = old_spec(rng, 1)
    old = ref.render_old(spec, rng)
    new = ref.render(spec)
    name = spec[1]
    choices = ['', ' ', 'velocity', 'out', 'out=', 'out=acc', 'out=acc#', 'out=acc#velocity', name, '#', '#' + old, old + ')',
               name + '##x=1', name + '#=1', name + '#x', name + '#x=', name + '#x==1', name + '#1x=2', name + '#x=[1,2',
               name + "#x='a", '"' + name + '#x=1', name + '#x=1"', name + '#x=1,y=2', name + '#x=1 2', name + '#x=y',
               name + '#x=1#', name + '(x=1)', name + '()', 'o=' + name + '#x=1', new, new + '#', 'out=acc#' + new, 'OUT=acc#' + old, 'Out=acc#' + old, ' out=acc#' + old, 'out =acc#' + old, 'output=acc#' + old, 'out:acc#' + old, 'o=acc#' + old,
               name + '#x={1:2,3}', name + '#x=(1,)', name + '#x=A()', name + '#x=True1', name + '.y#x=1', '3#x=1',
               'a b#x=1', name + '#x=none', name + '#x=1.2.3', name + '#x=0x1', name + '#x="y"', name + "#x=''' "]
    for text in rng.sample(choices, 6):
        t.event('not old')
        t.same(t.ok('id2whatami4', wm.id2whatami4, text), text, 'a string that is not an old-style id is changed')
        t.raises('oldid2what', NoMatch, wm.oldid2what, text)
        t.seen(text)


PHASES = [('larger sizes', sizes.migrated, {'quick': 2, 'thorough': 24}),
          ('migrate', migrate, {'quick': 600, 'thorough': 30000}),
          ('twice', twice, {'quick': 220, 'thorough': 6000}),
          ('not old', not_old, {'quick': 180, 'thorough': 6000})]
