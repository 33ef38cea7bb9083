# coding=utf-8
"""C18: the rendering plugin chain is always the one the history of changes defines."""
import types

from .. import gen, ref, sizes

PROPERTY = 'C18'
TECHNIQUE = ('runtime monitoring: an online monitor of a list model over random histories of insertions, removals and resets, '
             'with a reference dispatcher deciding the rendering of every value at every depth')
RULE = ('histories of valid and invalid insertions (before any plugin, by default, at the end), removals and resets of custom and '
        'default plugins, interleaved with ids of nested values; custom plugins accept overlapping kinds of values, recursing '
        'or not, with empty renderings or raising; distinct by history; non-trivial: several changes')
REQUIRE = {'large sizes': 1, 'emptied': 80, 'history': 80, 'moved': 60, 'chain changed while rendering': 60, 'insert': 300, 'insert:raised': 120, 'drop': 250, 'drop:raised': 50, 'reset': 40, 'rendered': 2500,
           'by custom plugin': 600, 'by default plugin': 600, 'dropped default': 40, 'equal plugins': 60, 'raised while rendering': 15, 'empty': 15}


class Token(object):
    """Values that only custom plugins know about."""

    def __init__(self, n):
        self.n = n

    def __str__(self):
        return 'Token<%d>' % self.n

    __repr__ = __str__


class Boom(Exception):
    pass


KINDS = ['int', 'str', 'list', 'tuple', 'dict', 'set', 'what', 'token', 'none', 'bool', 'float']


def kind_of(v):
    import whatami as wm
    if isinstance(v, wm.What):
        return 'what'
    if isinstance(v, Token):
        return 'token'
    if v is None:
        return 'none'
    return type(v).__name__


class Custom(object):
    """A plugin; as an object it can be seen by the model too."""

    def __init__(self, n, rng):
        self.n = n
        self.kinds = set(rng.sample(KINDS, rng.choice([1, 1, 2, 4])))
        self.mode = rng.choice(['mark', 'mark', 'mark', 'recurse', 'empty', 'raise', 'odd'])
        if self.mode == 'recurse':
            self.kinds &= {'list', 'tuple', 'token'}
        self.error = rng.choice([Boom, NotImplementedError, ValueError, TypeError, KeyError, AttributeError, ImportError, RuntimeError])
        # the names do not matter: they can be repeated
        self.__name__ = rng.choice(['plugin%d' % n, 'plugin%d' % n, 'plugin', '<lambda>', 'string_plugin', 'anyobject_plugin'])

    def accepts(self, v):
        k = kind_of(v)
        if k not in self.kinds:
            return False
        return self.mode != 'odd' or (k in ('int', 'token') and (v if k == 'int' else v.n) % 2 == 1)

    def __call__(self, v):
        from whatami.plugins import WhatamiPluginManager
        if not self.accepts(v):
            return None
        if self.mode == 'raise':
            raise self.error('cannot be shown')
        if self.mode == 'empty':
            return ''
        if self.mode == 'recurse' and kind_of(v) in ('list', 'tuple'):
            return 'P%d(x=%s)' % (self.n, '_'.join([WhatamiPluginManager.build_string(x) for x in v]))
        return 'P%d()' % self.n


    def method(self, v):
        return self(v)


class Alike(object):
    """Plugins that are equal, but other objects each time."""

    def __init__(self, custom):
        self.custom = custom
        self.__name__ = custom.__name__

    def __eq__(self, other):
        return isinstance(other, Alike) and other.custom is self.custom

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self.custom)

    def __call__(self, v):
        return self.custom(v)


def again(plugin):
    """The plugin, or another object that is equal to it."""
    if isinstance(plugin, Alike):
        return Alike(plugin.custom)
    if isinstance(plugin, types.MethodType):
        return plugin.__self__.method
    return plugin


def as_function(custom):
    def plugin(v):
        return custom(v)
    plugin.__name__ = custom.__name__
    plugin.custom = custom
    return plugin


def custom_of(plugin):
    if isinstance(plugin, Custom):
        return plugin
    if isinstance(plugin, types.MethodType) and isinstance(plugin.__self__, Custom):
        return plugin.__self__
    return getattr(plugin, 'custom', None)


DEFAULTS = {'str': 'string_plugin', 'tuple': 'tuple_plugin', 'list': 'list_plugin', 'dict': 'dict_plugin', 'set': 'set_plugin',
            'what': 'what_plugin'}


class Unknown(Exception):
    """The model does not say how the value is rendered."""


class Raised(Exception):
    """A plugin fails with this error."""


class Model(object):
    def __init__(self, plugins, t):
        self.default = list(plugins)
        self.chain = list(plugins)
        self.t = t

    def render(self, v):
        """Reference dispatcher."""
        kind = kind_of(v)
        for p in self.chain:
            custom = custom_of(p)
            if custom is not None:
                if custom.accepts(v):
                    self.t.event('by custom plugin')
                    if custom.mode == 'raise':
                        raise Raised(custom.error)
                    if custom.mode == 'empty':
                        self.t.event('empty')
                        return ''
                    if custom.mode == 'recurse' and kind in ('list', 'tuple'):
                        return 'P%d(x=%s)' % (custom.n, '_'.join([self.render(x) for x in v]))
                    return 'P%d()' % custom.n
                continue
            name = p.__name__
            if name == DEFAULTS.get(kind):
                self.t.event('by default plugin')
                if kind == 'str':
                    return ref.quote(v)
                if kind == 'what':
                    return self.what(v)
                if kind == 'dict':
                    return '{%s}' % ','.join(sorted(['%s:%s' % (self.render(k), self.render(x)) for k, x in v.items()]))
                parts = [self.render(x) for x in v]
                return {'list': '[%s]', 'tuple': '(%s)', 'set': '{%s}' if parts else 'set()%s'}[kind] % ','.join(
                    sorted(parts) if kind == 'set' else parts)
            if name == 'whatable_plugin' and kind == 'what':
                raise Unknown()
            if name == 'anyobject_plugin':
                self.t.event('by default plugin')
                if kind in DEFAULTS:
                    self.t.event('dropped default')
                return str(v)
        raise Unknown()

    def what(self, v):
        return '%s(%s)' % (v.name, ','.join(['%s=%s' % (k, self.render(x)) for k, x in sorted(v.conf.items())]))


def value(rng, depth):
    import whatami as wm
    r = rng.random()
    if depth == 0 or r < 0.3:
        return rng.choice([lambda: rng.randrange(10), lambda: rng.choice(['a', "b'c", '']), lambda: Token(rng.randrange(10)),
                           lambda: None, lambda: rng.random() < .5, lambda: rng.choice([0.5, 1e10])])()
    n = rng.randrange(0, 4)
    kind = rng.choice(['list', 'tuple', 'dict', 'set', 'what'])
    if kind == 'list':
        return [value(rng, depth - 1) for _ in range(n)]
    if kind == 'tuple':
        return tuple([value(rng, depth - 1) for _ in range(n)])
    if kind == 'dict':
        return {rng.choice([rng.randrange(2, 10), 'k%d' % rng.randrange(5)]): value(rng, depth - 1) for _ in range(n)}
    if kind == 'set':
        return set([rng.choice([rng.randrange(2, 10), 'k%d' % rng.randrange(5)]) for _ in range(n)])
    return wm.What(rng.choice('fg'), {'p%d' % j: value(rng, depth - 1) for j in range(n)})


def rendering(t, rng, model, whats):
    """All the following ids are according to the chain."""
    import whatami as wm
    from whatami.plugins import WhatamiPluginManager
    whats.append(wm.What('f', {'x': value(rng, rng.randrange(4)), 'y': value(rng, 1)}))
    for w in rng.sample(whats, min(len(whats), 4)):
        t.event('rendered')
        try:
            expected = model.what(w)
        except Raised as ex:
            t.event('raised while rendering')
            t.raises('id', ex.args[0], w.id)
        except Unknown:
            continue
        else:
            t.same(t.ok('id', w.id), expected, 'not rendered by the first plugin that accepts each value',
                   chain=[p.__name__ for p in model.chain])
            t.same(t.ok('str', str, w), expected, 'not rendered by the first plugin that accepts each value')
        v = w.conf['x']
        try:
            expected = model.render(v)
        except (Raised, Unknown):
            continue
        t.same(t.ok('build_string', WhatamiPluginManager.build_string, v), expected,
               'not rendered by the first plugin that accepts the value', chain=[p.__name__ for p in model.chain])


def histories(t, rng, i):
    from whatami import plugins as pl
    manager = pl.WhatamiPluginManager
    manager.reset()
    try:
        t.event('history')
        model = Model(manager.plugins(), t)
        t.same([p.__name__ for p in model.default][-2:], ['anyobject0x_plugin', 'anyobject_plugin'], 'unexpected default chain')
        customs = [Custom(n, rng) for n in range(5)]
        customs = [rng.choice([lambda c: c, as_function, lambda c: c.method, Alike])(c) for c in customs]
        whats, snapshots, log = [], [], []
        known = customs + [p for p in model.default if p.__name__ not in ('what_plugin', 'whatable_plugin')]
        for step in range(rng.choice([3, 8, 15])):
            op = rng.choice(['insert'] * 4 + ['drop'] * 3 + ['reset'] + ['nothing'])
            snapshots.append((manager.plugins(), list(model.chain)))
            if op == 'insert':
                p = again(rng.choice(customs if rng.random() < 0.75 else known))
                how = rng.choice(['default', 'before', 'before', 'end', 'first', 'unknown'])
                before = {'default': pl.anyobject0x_plugin, 'before': again(rng.choice(known)), 'end': None,
                          'first': model.chain[0] if model.chain else None, 'unknown': rng.choice(customs)}[how]
                right = p not in model.chain and (before is None or before in model.chain)
                if p is not again(p):
                    t.event('equal plugins')
                out = t.call('insert', lambda: manager.insert(p) if how == 'default' else manager.insert(p, before=before))
                t.check(out.failed != right, 'valid insertion fails' if right else 'invalid insertion does not fail', out=out,
                        chain=[q.__name__ for q in model.chain], plugin=p.__name__, before=getattr(before, '__name__', None))
                if right:
                    model.chain.insert(len(model.chain) if before is None else model.chain.index(before), p)
                log.append(('insert', p.__name__, getattr(before, '__name__', None)))
            elif op == 'drop':
                p = again(rng.choice(customs if rng.random() < 0.7 else known))
                if custom_of(p) is None and p.__name__ in ('anyobject_plugin', 'anyobject0x_plugin') and rng.random() < 0.7:
                    continue
                right = p in model.chain
                out = t.call('drop', manager.drop, p)
                t.check(out.failed != right, 'valid removal fails' if right else 'invalid removal does not fail', out=out,
                        chain=[q.__name__ for q in model.chain], plugin=p.__name__)
                if right:
                    model.chain.remove(p)
                log.append(('drop', p.__name__))
            elif op == 'reset':
                t.ok('reset', manager.reset)
                model.chain = list(model.default)
                log.append(('reset',))
            chain = t.ok('plugins', manager.plugins)
            t.check(isinstance(chain, tuple), 'the chain is not a tuple')
            t.check(list(chain) == model.chain, 'the chain is not the one defined by the history', log=log,
                    chain=[p.__name__ for p in chain], expected=[p.__name__ for p in model.chain])
            t.check(all(a != b for n, a in enumerate(chain) for b in chain[:n]), 'plugins are repeated')
            rendering(t, rng, model, whats)
            t.check(list(manager.plugins()) == model.chain, 'rendering changes the chain')
        for got, expected in snapshots:
            t.check(list(got) == expected, 'a chain given before changes afterwards')
        t.ok('reset', manager.reset)
        t.check(list(manager.plugins()) == model.default, 'resetting does not restore the default chain')
        model.chain = list(model.default)
        rendering(t, rng, model, whats)
        # one just before the other, many times
        news = [c for c in customs]
        rng.shuffle(news)
        for n, p in enumerate(news):
            before = rng.choice(news[:n] * 3 + model.default[:1] + model.default[-2:])
            t.ok('insert', manager.insert, p, before=again(before))
            model.chain.insert(model.chain.index(before), p)
            t.check(list(manager.plugins()) == model.chain, 'the chain is not the one defined by the insertions', before=before.__name__)
        # until there are none
        everything = list(model.chain)
        rng.shuffle(everything)
        for p in everything:
            t.ok('drop', manager.drop, again(p))
            model.chain.remove(p)
            t.check(list(manager.plugins()) == model.chain, 'the chain is not the one defined by the removals', dropped=p.__name__)
        t.event('emptied')
        for p in rng.sample(everything, 3):
            t.ok('insert', manager.insert, again(p), before=None)
            model.chain.append(p)
            t.check(list(manager.plugins()) == model.chain, 'the chain is not the one defined by the insertions', last=p.__name__)
        t.ok('reset', manager.reset)
        model.chain = list(model.default)
        t.check(list(manager.plugins()) == model.default, 'resetting does not restore the default chain')
        # the same plugins in another order
        moved, before = rng.choice(model.default), rng.choice(model.default)
        if moved is not before:
            t.event('moved')
            t.ok('drop', manager.drop, moved)
            t.ok('insert', manager.insert, moved, before=before)
            model.chain.remove(moved)
            model.chain.insert(model.chain.index(before), moved)
            t.check(list(manager.plugins()) == model.chain, 'the chain is not the one defined by the history', moved=moved.__name__)
            t.ok('reset', manager.reset)
            t.check(list(manager.plugins()) == model.default, 'resetting does not restore the default chain', moved=moved.__name__)
            model.chain = list(model.default)
        if len(log) > 2:
            t.seen(log)
            t.sample(log)
    finally:
        manager.reset()


def changing(t, rng, i):
    """Plugins that change the chain while something is rendered: the others still see all the values."""
    import whatami as wm
    from whatami import plugins as pl
    manager = pl.WhatamiPluginManager
    manager.reset()
    o = gen.Options(nonids=False, nan=False, classes=True)
    spec = gen.what(rng, o, 2)
    if not gen.valid(spec):
        return
    w = gen.build(spec)
    expected = t.ok('id', w.id)
    when, seen, after = rng.randrange(4), [], []

    def leaving(v):
        seen.append(v)
        if len(seen) == when + 1:
            manager.drop(leaving)

    def next_one(v):
        after.append(v)
    others = manager.plugins()
    try:
        t.event('chain changed while rendering')
        before = rng.choice(others[:1] * 2 + others)
        manager.insert(next_one, before=before)
        manager.insert(leaving, before=next_one)
        t.same(t.ok('id', w.id), expected, 'a plugin that accepts nothing and goes away changes the ids', before=before.__name__, when=when)
        t.check(len(seen) == when + 1 or leaving in manager.plugins(), 'a dropped plugin is still used')
        t.check(len(after) >= len(seen) and all(x is y for x, y in zip(seen, after)),
                'when a plugin goes away, the next one does not see the value', before=before.__name__, when=when)
        t.same(t.ok('id', w.id), expected, 'a plugin that accepts nothing and goes away changes the ids', before=before.__name__)
    finally:
        manager.reset()
    t.seen((expected, when))


def whole(t, rng, i):
    """All the kinds of values, with a plugin before everything that sees all that is rendered, at all depths."""
    from whatami import plugins as pl
    import whatami as wm
    manager = pl.WhatamiPluginManager
    manager.reset()
    o = gen.Options(nonids=False, nan=False, classes=True)
    spec = gen.what(rng, o, 3)
    if not gen.valid(spec):
        return
    w = gen.build(spec)
    expected = t.ok('id', w.id)
    seen = []

    def spy(v):
        seen.append(v)

    def replacing(v):
        if type(v) is int:
            return 'N'
    try:
        for before in (manager.plugins()[0], None):
            manager.insert(spy, before=before)
            del seen[:]
            t.event('rendered')
            t.same(t.ok('id', w.id), expected, 'a plugin that accepts nothing changes the ids')
            if before is not None:
                for k, v in w.conf.items():
                    t.check(any(x is v for x in seen), 'a value is not shown to the first plugin', key=k)
            else:
                t.same(seen, [], 'a value is shown to a plugin after the one that accepts anything')
            manager.drop(spy)
        manager.insert(replacing, before=manager.plugins()[0])
        t.event('rendered')
        t.same(t.ok('id', w.id), render_replacing(spec), 'values at some depth do not use the plugin')
        manager.reset()
        t.same(t.ok('id', w.id), expected, 'resetting does not restore the ids')
    finally:
        manager.reset()
    t.check(isinstance(w, wm.What), 'wrong configuration')
    t.seen(expected)


def render_replacing(spec):
    """Reference rendering in which all the integers are N."""
    original = ref.render
    try:
        ref.render = lambda s, nonids_too=False: 'N' if s[0] == 'int' else original(s, nonids_too)
        return ref.render(spec)
    finally:
        ref.render = original


PHASES = [('larger sizes', sizes.chains, {'quick': 2, 'thorough': 24}),
          ('histories', histories, {'quick': 160, 'thorough': 8000}),
          ('changing', changing, {'quick': 100, 'thorough': 4000}),
          ('whole', whole, {'quick': 150, 'thorough': 5000})]
