# coding=utf-8
"""C19: the nickname registry is a one-to-one mapping at all times."""
import random

from .. import gen, ref, sizes

PROPERTY = 'C19'
TECHNIQUE = ('runtime monitoring: an online monitor of a bijection model over random histories of valid, conflicting, invalid and '
             'failing requests to several registries, checking all queries after each step')
RULE = ('histories of registrations (by id, configuration, whatable, function), removals (by nickname, by configuration, by '
        'both) and resets over few colliding nicknames and ids in two registries; distinct by history; non-trivial: with '
        'registrations and removals')
REQUIRE = {'large sizes': 1, 'spaces around': 15, 'other output': 8, 'history': 100, 'register': 1000, 'register:raised': 300, 'repeated registration': 60, 'remove:raised': 300,
           'removed by nick': 60, 'removed by what': 60, 'removed by both': 60, 'reset': 60, 'nick2id': 10000, 'id2nick': 10000,
           'nick_or_id': 10000, 'list': 2000, 'kind:str': 200, 'kind:what': 200, 'kind:whatable': 30, 'kind:func': 12,
           'failing provider': 30, 'conflict of both': 60}
O = gen.Options(nonids=True, nan=False)


class Broken(object):
    def what(self):
        import whatami as wm
        raise ValueError('not available')


class BrokenLater(object):
    """Its configuration can be obtained, but its id cannot."""
    def what(self):
        import whatami as wm
        return wm.What('f', {'x': len})


def subject(rng, spec):
    """Something with the id of the spec: (kind, object, id)."""
    kind = spec[0]
    if kind == 'text':
        return 'str', spec[1], spec[1]
    obj = gen.build(spec, random.Random(rng.random()))
    if kind == 'what':
        form = rng.choice(['str', 'what'])
        return form, (ref.render(spec) if form == 'str' else obj), ref.render(spec)
    if rng.random() < 0.3:
        return 'str', own_id(spec), own_id(spec)
    return kind, obj, own_id(spec)


def own_id(spec):
    """The id of something on its own."""
    if spec[0] == 'text':
        return spec[1]
    if spec[0] in ('func', 'partial'):   # parameters with private names are not shown then
        name = spec[1] if spec[0] == 'func' else spec[1][1]
        return ref.render(('what', name, None, [(k, v) for k, v in ref.bound(spec) if gen.visible(k)], []))
    return ref.render(spec)


def audit(t, reg, n2i, ids, nicks, log):
    """All the queries agree with the model."""
    i2n = {i: n for n, i in n2i.items()}
    listed = t.ok('list', reg.list)
    t.same(listed, sorted(n2i.items()), 'wrong list', log=log)
    t.check(isinstance(listed, list) and all(type(p) is tuple for p in listed), 'not a list of pairs', got=listed)
    listed.append('junk')
    t.same(t.ok('list', reg.list), sorted(n2i.items()), 'the list given to the user is that of the registry', log=log)
    for n in nicks:
        t.same(t.ok('nick2id', reg.nick2id, n), n2i.get(n), 'wrong id for a nickname', nick=n, log=log)
    for i in ids:
        t.same(t.ok('id2nick', reg.id2nick, i), i2n.get(i), 'wrong nickname for an id', id=i, log=log)
        t.same(t.ok('nick_or_id', reg.nick_or_id, i), i2n.get(i, i), 'wrong nickname or id', id=i, log=log)


def histories(t, rng, i):
    import whatami as wm
    t.event('history')
    specs = []
    while len(specs) < 5:
        s = gen.what(rng, O, 2) if rng.random() < 0.3 else gen.value(rng, O, 2)
        if len(specs) == 4 and rng.random() < 0.5 and any(o[0] == 'what' for o in specs):
            # the very same text but for the white space around it is another text
            o = [o for o in specs if o[0] == 'what'][0]
            specs.append(('text', rng.choice([' %s', '%s ', '%s\n', '\t%s']) % own_id(o)))
            t.event('spaces around')
            break
        if len(specs) == 3 and specs[0][0] == 'what' and rng.random() < 0.5:     # other outputs of the same are others
            s = specs[0][:2] + (rng.choice([o for o in ('o', 'out', specs[0][1], None) if o != specs[0][2]]),) + specs[0][3:]
            t.event('other output')
        if s[0] in ('what', 'whatable', 'func', 'partial') and gen.valid(s) and \
                own_id(s) not in [own_id(o) for o in specs] and not (s[0] == 'partial' and s[1][1] == 'lambda'):
            specs.append(s)
    ids = [own_id(s) for s in specs]
    nicks = rng.sample(['a', 'b', 'a ', ' a', '', 'nick', 'A', ' ', u'\xe9', 'f(x=1)', 'None', '9', '10', '100', '-1', '2', 'nick2', 'nick10'], 5) + [ids[0]]
    registries = [wm.registry.WhatamiRegistry() if rng.random() < .5 else wm.registry.WhatamiRegistry('name') for _ in range(2)]
    models = [{}, {}]
    log = []
    for step in range(rng.choice([5, 15, 40])):
        which = 0 if rng.random() < 0.8 else 1
        reg, n2i = registries[which], models[which]
        i2n = {x: n for n, x in n2i.items()}
        op = rng.choice(['register'] * 5 + ['remove'] * 4 + ['bad', 'reset' if rng.random() < 0.4 else 'remove'])
        nick = rng.choice(nicks)
        kind, what, whatid = subject(rng, rng.choice(specs))
        if op == 'register':
            if rng.random() < 0.15 and n2i:    # repeat what is there
                nick = rng.choice(sorted(n2i))
                kind, what, whatid = 'str', n2i[nick], n2i[nick]
            t.event('kind:' + kind)
            right = (nick not in n2i and whatid not in i2n) or n2i.get(nick) == whatid
            if n2i.get(nick) == whatid:
                t.event('repeated registration')
            out = t.call('register', reg.register, what, nick) if rng.random() < .5 else \
                t.call('register', reg.register, nickname=nick, what=what)
            t.check(out.failed != right, 'valid registration fails' if right else 'conflicting registration does not fail', out=out,
                    nick=nick, id=whatid, model=n2i)
            if right:
                t.check(out.value is what, 'registering should return what is registered', got=out.value)
                n2i[nick] = whatid
            log.append((which, op, nick, whatid, right))
        elif op == 'remove':
            how = rng.choice(['nick', 'what', 'both', 'both'])
            if rng.random() < 0.6 and n2i:     # something that is there
                nick = rng.choice(sorted(n2i))
                matching = [s for s in specs if own_id(s) == n2i[nick]]
                if matching and rng.random() < 0.8:
                    kind, what, whatid = subject(rng, matching[0])
            if how == 'nick':
                right = nick in n2i
                args = dict(nickname=nick)
            elif how == 'what':
                right = whatid in i2n
                args = dict(what=what)
            else:
                right = nick in n2i and n2i[nick] == whatid
                args = dict(nickname=nick, what=what)
                if not right and (nick in n2i or whatid in i2n):
                    t.event('conflict of both')
            out = t.call('remove', lambda: reg.remove(**args))
            t.check(out.failed != right, 'valid removal fails' if right else 'invalid removal does not fail', out=out,
                    how=how, nick=nick, id=whatid, model=n2i)
            if right:
                t.event('removed by ' + how)
                del n2i[nick if how != 'what' else i2n[whatid]]
            log.append((which, op, how, nick, whatid, right))
        elif op == 'reset':
            t.ok('reset', reg.reset)
            n2i.clear()
            log.append((which, op))
        else:
            bad = rng.randrange(6)
            if bad == 0:
                t.raises('register', ValueError, reg.register, None, nick)
            elif bad == 1:
                t.raises('register', ValueError, reg.register, what, None)
            elif bad == 2:
                t.raises('remove', ValueError, reg.remove)
            elif bad == 3:
                t.event('failing provider')
                t.raises('register', Exception, reg.register, rng.choice([Broken, BrokenLater])(), nick)
            elif bad == 4:
                t.event('failing provider')
                t.raises('remove', Exception, lambda: reg.remove(nickname=nick, what=BrokenLater()))
            else:
                t.raises('register', Exception, reg.register, 'never_registered_before(x=1)', [nick])
            log.append((which, 'bad', bad))
        for r, m in zip(registries, models):
            audit(t, r, m, ids + ['never_registered_before(x=1)'], nicks + ['never'], log)
        w = subject(rng, rng.choice(specs))
        t.same(t.ok('nick_or_id', reg.nick_or_id, w[1]), {x: n for n, x in n2i.items()}.get(w[2], w[2]), 'wrong nickname or id', log=log)
    for reg, m in zip(registries, models):
        for nick in list(m):
            t.ok('remove', reg.remove, nick)
            t.event('removed by nick')
            del m[nick]
            audit(t, reg, m, ids, nicks, log)
    if len(log) > 4:
        t.seen(log)
        t.sample(repr(log)[:500])


PHASES = [('larger sizes', sizes.nicknames, {'quick': 2, 'thorough': 24}),
          ('histories', histories, {'quick': 170, 'thorough': 5000})]
