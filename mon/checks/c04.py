# coding=utf-8
"""C04: non-id keys never influence the id, and always show when asked for."""
import functools

from .. import gen, ref, sizes

PROPERTY = 'C04'
TECHNIQUE = 'runtime monitoring: non-interference monitor of ids over values of the declared non-id keys'
RULE = ('random configurations with keys declared as non-id in every supported way (configuration, direct inspection, '
        'decorated classes, instances and functions, coercion, call snapshots) whose values are changed, removed or '
        'made impossible to render; non-trivial: at least one non-id key is present')
REQUIRE = {'large sizes': 1, 'declared:What': 100, 'declared:whatareyou': 30, 'declared:class': 30, 'declared:instance': 30,
           'declared:function': 30, 'declared:obj2what': 30, 'declared:call2what': 30, 'declared:partial': 30, 'set later': 400, 'similar names': 300}
O = gen.Options(nonids=True, funcs=True)


class Unprintable(object):
    def __str__(self):
        raise RuntimeError('I cannot be shown')

    __repr__ = __str__


def awful(rng):
    """Values that cannot be part of an id."""
    return rng.choice([lambda: len, lambda: property(lambda self: 0), Unprintable, lambda: [Unprintable()],
                       lambda: {'a': len}])()


def as_iterable(rng, keys):
    keys = list(keys)
    rng.shuffle(keys)
    return rng.choice([list, tuple, set, frozenset, iter, lambda ks: (k for k in ks), lambda ks: dict.fromkeys(ks),
                       lambda ks: dict.fromkeys(ks).keys(), lambda ks: ks + ks])(keys)


def public(rng):
    while True:
        k = gen.pyident(rng)
        if gen.visible(k) and k not in ('conf', 'self', 'id'):
            return k


def declare(how, rng, name, conf, nonids):
    """A configuration with these parameters and non-id keys, declared in different ways."""
    from whatami import What, whatareyou, whatable, obj2what, call2what
    ids = as_iterable(rng, nonids)
    if how == 'What':
        return What(name, dict(conf), non_id_keys=ids)
    cls = type(name, (object,), {})
    if how == 'class':
        cls = whatable(cls, non_id_keys=ids) if rng.random() < 0.5 else whatable(non_id_keys=ids)(cls)
    if how in ('whatareyou', 'obj2what', 'class', 'instance'):
        obj = cls()
        for k, v in conf.items():
            setattr(obj, k, v)
        if how == 'whatareyou':
            return whatareyou(obj, non_id_keys=ids)
        if how == 'obj2what':
            return obj2what(obj, non_id_keys=ids)
        if how == 'instance':
            obj = whatable(obj, non_id_keys=ids)
        if how in ('class', 'instance') and rng.random() < 0.5:
            cls().what() if how == 'class' else obj.what()   # it may not be the first request
        return obj.what()
    env = {'_v_' + k: v for k, v in conf.items()}
    env['call2what'] = call2what
    env['ids'] = ids
    if how == 'call2what':
        exec('def %s(%s): return call2what(non_id_keys=ids)' % (name, ', '.join(conf)), env)
        return env[name](**conf)
    if how == 'function':
        exec('def %s(%s): pass' % (name, ', '.join('%s=_v_%s' % (k, k) for k in conf)), env)
        return whatable(env[name], non_id_keys=ids).what()
    exec('def %s(data_, %s): pass' % (name, ', '.join(conf)), env)
    return whatable(functools.partial(env[name], **conf), non_id_keys=ids).what()


WAYS = ['What', 'What', 'whatareyou', 'class', 'instance', 'function', 'partial', 'obj2what', 'call2what']


def interference(t, rng, i):
    from whatami import What
    how = WAYS[i % len(WAYS)]
    keys = []
    while len(keys) < 5:
        k = public(rng)
        if k not in keys and 'what' not in k:
            keys.append(k)
    n_id = rng.randrange(0, 5)
    specs = [(k, gen.value(rng, O, 2)) for k in keys]
    nonids = keys[n_id:]
    declared = nonids + (['not_there'] if rng.random() < 0.3 else [])
    name = rng.choice(['f', 'RFC', 'Model', 'normalize'])

    def make(values):
        t.event('declared:' + how)
        return t.ok('declare:' + how, declare, how, rng, name, values, declared)

    base = {k: gen.build(s) for k, s in specs}
    w = make(base)
    expected = ref.render(('what', name, None, specs[:n_id], []))
    everything = ref.render(('what', name, None, specs, []))
    t.same(t.ok('What.id', w.id), expected, 'a non-id parameter influences the id', how=how, nonids=nonids, conf=specs)
    t.same(t.ok('What.id', w.id, nonids_too=True), everything, 'wrong id with the non-id parameters', how=how, conf=specs)
    t.same(t.ok('str(What)', str, w), everything, 'wrong printed form with non-id parameters', how=how, conf=specs)
    for k in nonids:
        t.check(w[k] is base[k] or w[k] == base[k], 'non-id parameters must be accessible', key=k)
        t.check(w.get(k, Unprintable) is not Unprintable, 'non-id parameters must be accessible', key=k)

    # other values
    changed = dict(base)
    k = rng.choice(nonids)
    changed[k] = ('something', 'completely', 'different')
    other = make(changed)
    t.same(t.ok('What.id', other.id), expected, 'changing a non-id parameter changes the id', how=how, key=k, conf=specs)
    t.check(not (w == other) and w != other, 'equality must consider non-id parameters', how=how, key=k)
    t.check(t.ok('What.id', other.id, nonids_too=True) != everything, 'non-id parameters must show when asked for', key=k)

    # impossible values
    broken = dict(base)
    broken[k] = awful(rng)
    other = make(broken)
    t.same(t.ok('What.id', other.id), expected, 'a non-id parameter that cannot be shown breaks the id', how=how, key=k)
    t.check(other[k] is broken[k], 'non-id parameters must be accessible', key=k)
    t.same(t.ok('What.positional_id', other.positional_id), ref.positional(('what', name, None, specs[:n_id], [])),
           'a non-id parameter influences the positional id', how=how, key=k)
    for maxlength in (1, len(expected), len(expected) - 1):
        t.same(t.ok('What.id', other.id, maxlength=maxlength), t.ok('What.id', w.id, maxlength=maxlength),
               'a non-id parameter influences the digest', how=how)
    outer = {'xx': ('[%s]' % expected, [other]), 'yy': ("{'d':%s}" % expected, {'d': other}), k: ('1', 1)}
    t.same(t.ok('What.id', What('outer', {n: v for n, (_, v) in outer.items()}).id),
           'outer(%s)' % ','.join(['%s=%s' % (n, text) for n, (text, _) in sorted(outer.items())]),
           'wrong id of a nested configuration with non-id parameters', how=how)
    t.seen((how, expected, tuple(sorted(nonids))))
    t.sample('%s: %s / %s' % (how, expected, everything))


def nested(t, rng, i):
    """Nested configurations keep their own declarations, with those of the outer ones not propagating."""
    spec = gen.what(rng, O, 3)
    w = gen.build(spec, rng)
    t.same(t.ok('What.id', w.id), ref.render(spec), 'wrong id', spec=spec)
    t.same(t.ok('What.id', w.id, nonids_too=True), ref.render(spec, nonids_too=True), 'wrong id with non-ids', spec=spec)
    t.same(t.ok('What.positional_id', w.positional_id), ref.positional(spec), 'wrong positional id', spec=spec)
    t.same(t.ok('What.positional_id', w.positional_id, non_ids_too=True), ref.positional(spec, nonids_too=True),
           'wrong positional id with non-ids', spec=spec)
    # shared key names: the declaration is for one level only
    from whatami import What
    key = rng.choice(['x', 'n_jobs', 'verbose'])
    inner = What('inner', {key: 1, 'other': 2}, non_id_keys=rng.choice([None, ['other']]))
    same = rng.random() < 0.6     # also for those of the same name
    outer = What('inner' if same else 'outer', {key: 3, 'sub': inner, 'subs': [inner]}, non_id_keys=[key], out_name=rng.choice([None, None, key, 'sub']))
    shown = t.ok('What.id', inner.id)
    t.check('%s=1' % key in shown, 'lost parameter')
    named = ('%s=' % outer.out_name if outer.out_name else '') + outer.name
    t.same(t.ok('What.id', outer.id), '%s(sub=%s,subs=[%s])' % (named, shown, shown), 'declarations propagate to nested levels')
    t.same(t.ok('What.positional_id', outer.positional_id), '%s(%s,[%s])' % (named, shown, shown), 'declarations propagate to nested levels')
    own = [k for k in sorted(inner.conf) if k not in inner.non_id_keys]
    t.same(t.ok('What.keys', outer.keys), ['sub'] + [('sub', k) for k in own] + ['subs'], 'declarations propagate to nested levels')
    t.same(t.ok('What.keys', outer.keys, collections_too=True), ['sub'] + [('sub', k) for k in own] + ['subs', ('subs', 0)] + [('subs', 0, k) for k in own],
           'declarations propagate to nested levels')
    if spec[4]:
        t.seen(ref.render(spec, nonids_too=True))


def shown(value):
    return {'': "''", (): '()'}.get(value, str(value))


def later(t, rng, i):
    """What is declared counts for the parameters that are set afterwards, and only while it is declared."""
    from whatami import What
    keys = rng.sample(['a', 'b', 'c', 'x', 'n_jobs', 'verbose', 'zz'], 5)
    declared = rng.sample(keys, rng.randrange(1, 4))
    first = {k: n for n, k in enumerate(keys[:rng.randrange(0, 3)])}
    w = t.ok('What', lambda: What('f', dict(first), non_id_keys=as_iterable(rng, declared)))
    conf, nonids, copies = dict(first), set(declared), []
    for step in range(10):
        k = rng.choice(keys)
        op = rng.randrange(7)
        value = rng.choice([step, step, None, False, 0, '', (), True])
        if op == 6:
            t.event('copied')
            copies.append((w, dict(conf), set(nonids)))
            w = t.ok('copy', lambda: rng.choice([lambda: w.copy(), lambda: w.copy(deep=True), lambda: w.copy(deep=False)])())
        elif op < 3:
            t.event('set later')
            before = dict(conf)
            conf[k] = value
            if op == 0:
                t.ok('set', w.set, k, value)
            elif op == 1:
                w.conf[k] = value
            else:
                copies.append((w, before, set(nonids)))    # the previous one keeps what it had
                w = t.ok('set', w.set, k, value, copy=True)
        elif op == 3:
            if k in conf:
                del conf[k], w.conf[k]
        elif op == 4:
            w.non_id_keys.add(k)
            nonids.add(k)
        else:
            w.non_id_keys.discard(k)
            nonids.discard(k)
        for what, c, n in copies + [(w, conf, nonids)]:
            t.same(t.ok('What.id', what.id), 'f(%s)' % ','.join('%s=%s' % (kv[0], shown(kv[1])) for kv in sorted(c.items()) if kv[0] not in n),
                   'the id does not follow what is declared', conf=c, nonids=n)
            t.same(t.ok('What.id', what.id, nonids_too=True), 'f(%s)' % ','.join('%s=%s' % (kv[0], shown(kv[1])) for kv in sorted(c.items())),
                   'non-id parameters must show when asked for', conf=c, nonids=n)
            t.same(sorted(t.ok('keys', what.keys)), sorted(k for k in c if k not in n), 'wrong keys', conf=c, nonids=n)
    t.seen(('later', sorted(conf.items()), sorted(nonids)))


def similar(t, rng, i):
    """Names that look like that of a non-id parameter are other parameters."""
    from whatami import What, whatareyou, whatable
    base = rng.choice(['verbose', 'n_jobs', 'x', 'a_b', 'seed'])
    names = [base, base + '__x', base + '_x', base + 'x', base[:-1].rstrip('_') or 'y', base.upper(), base.capitalize(), base + '1', 'x' + base, 'x__' + base,
             'x_' + base, base + base, base + '__' + base, base.replace('_', ''), base[::-1]]
    directly = rng.random() < 0.4
    if directly:
        names += [base + '_', base + '__', '_' + base, '__' + base, '__' + base + '__', '_', '__']
    names = rng.sample(sorted(set(names)), rng.randrange(2, 8))
    nonids = set(rng.sample(names, rng.randrange(1, len(names))) + ([base] if rng.random() < 0.5 else []))
    conf = {k: n for n, k in enumerate(names)}
    t.event('similar names', len(names))
    env = {}
    exec('def f(%s): pass' % ', '.join('%s=%d' % kv for kv in sorted(conf.items())), env)
    shown = 'f(%s)' % ','.join(['%s=%d' % (k, v) for k, v in sorted(conf.items()) if k not in nonids])
    whole = 'f(%s)' % ','.join(['%s=%d' % (k, v) for k, v in sorted(conf.items())])
    for w in (t.ok('What', What, 'f', dict(conf), as_iterable(rng, nonids)),) if directly else (
              t.ok('What', What, 'f', dict(conf), as_iterable(rng, nonids)),
              t.ok('whatareyou', whatareyou, env['f'], non_id_keys=as_iterable(rng, nonids)),
              t.ok('whatable', lambda: whatable(env['f'], non_id_keys=as_iterable(rng, nonids)).what())):
        t.same(t.ok('What.id', w.id), shown, 'wrong id', declared=nonids)
        t.same(t.ok('What.id', w.id, nonids_too=True), whole, 'wrong id with the non-id parameters', declared=nonids)
        t.same(t.ok('keys', w.keys), [k for k in sorted(conf) if k not in nonids], 'wrong keys', declared=nonids)
    t.seen(('similar', shown, whole))


PHASES = [('larger sizes', sizes.nonids, {'quick': 2, 'thorough': 24}),
          ('similar', similar, {'quick': 120, 'thorough': 4000}),
          ('later', later, {'quick': 150, 'thorough': 6000}),
          ('interference', interference, {'quick': 450, 'thorough': 20000}),
          ('nested', nested, {'quick': 500, 'thorough': 20000})]
