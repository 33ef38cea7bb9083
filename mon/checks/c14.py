# coding=utf-8
"""C14: callables are identified by exactly the parameters Python would bind."""
import functools
import inspect

from .. import funcs, gen, sizes

PROPERTY = 'C14'
TECHNIQUE = ('runtime monitoring: parameters extracted from every callable compared with a model of the binding, itself '
             'cross-checked against what actually calling it binds')
RULE = ('functions with random signatures under random nestings of partials and curried functions, with right, unknown, '
        'duplicated and excessive arguments; the extraction is compared by identity of the values; distinct by signature '
        'and applications; non-trivial: something is applied or there are defaults')
REQUIRE = {'large sizes': 1, 'wrapper': 150, 'callable2call': 1200, 'rejected': 200, 'nested': 600, 'curried': 400, 'called': 500, 'id': 800,
           'positional over default': 150, 'override': 100, 'keyword only': 200}


SAME = funcs.Value()     # it can be given several times


def argument(rng):
    r = rng.random()
    return rng.choice([None, False, 0, '', (), funcs.Value, Ellipsis, NotImplemented, [], {}]) if r < 0.15 else SAME if r < 0.35 else funcs.Value()


def application(rng, sig, wild):
    """One layer: (args, kwargs)."""
    args = [argument(rng) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]
    kwargs = {k: argument(rng) for k in sig.params if rng.random() < 0.2}
    if wild and rng.random() < 0.4:
        kwargs[rng.choice(['unknown_0', 'unknown_1', 'unknown_2', '_unknown', '__x', 'Unknown', '_', 'unknown_'])] = funcs.Value()
    return args, kwargs


def apply(toolz, rng, f, args, kwargs, curried):
    if curried and 'self' not in kwargs:
        return toolz.curry(f, *args, **kwargs)
    return functools.partial(f, *args, **kwargs)


def bindings(t, rng, i):
    import toolz
    import whatami as wm
    from whatami.misc import callable2call
    only = rng.choice([None, False, 0, '', ()]) if rng.random() < 0.12 else funcs    # all the defaults are the same
    sig = funcs.Signature(rng) if only is funcs else funcs.Signature(rng, maxargs=8, value=lambda: only)
    name = rng.choice(['f', 'normalize', 'lambda', '_private', 'g_'])
    f = funcs.function(sig, name, 'return dict(locals())')
    if rng.random() < 0.2:   # says to wrap another one, but has its own parameters
        t.event('wrapper')
        f = functools.update_wrapper(f, funcs.function(funcs.Signature(rng), name, 'return 3'))
    c, args, kwargs = f, [], {}
    wild = rng.random() < 0.2
    layers = rng.randrange(0, 5)
    for _ in range(layers):
        a, k = application(rng, sig, wild)
        if not wild and rng.random() < 0.9:   # mostly right
            while a and sig.binding(args + a, kwargs) is None:
                a.pop()
            k = {n: v for n, v in k.items() if sig.binding(args + a, dict(kwargs, **{n: v})) is not None}
        curried = rng.random() < 0.35
        if curried:
            t.event('curried')
        c = apply(toolz, rng, c, a, k, curried)
        args += a
        if set(k) & set(kwargs):
            t.event('override')
        kwargs.update(k)
    if layers > 1:
        t.event('nested')
    bound = sig.binding(args, kwargs)
    if bound is None:
        if set(kwargs) & set(sig.pos[:sig.nposonly]):
            return   # positional-only parameters given by name: not decided
        t.event('rejected')
        out = t.call('callable2call', callable2call, c)
        t.check(out.failed, 'an application that python rejects gives a configuration', sig=sig.text(), args=args,
                kwargs=kwargs, got=out)
        out = t.call('id', wm.What('w', {'x': c}).id)
        t.check(out.failed, 'an application that python rejects gives an id', sig=sig.text(), args=args, kwargs=kwargs)
        t.seen(('rejected', sig.text(), len(args), sorted(kwargs)))
        return
    bound, overflow = bound
    if overflow:
        return   # values that go to variadic parameters have no name: not decided
    expected = dict(sig.defaults)
    expected.update(bound)
    # cross-check the model with an actual call, when nothing lacks
    if all(p in expected for p in sig.params):
        t.event('called')
        called = functools.partial(f, *args, **kwargs)()
        t.same({k: called[k] for k in sig.params}, expected, 'the model is wrong')
    own_name, params = t.ok('callable2call', callable2call, c)
    t.same(own_name, name, 'wrong name')
    t.same(sorted(params), sorted(expected), 'wrong parameters', sig=sig.text(), args=args, kwargs=kwargs)
    for k, v in expected.items():
        t.check(params[k] is v, 'wrong value of a parameter', parameter=k, sig=sig.text(), args=args, kwargs=kwargs)
    w = t.ok('whatareyou', wm.whatareyou, c)
    t.same((w.name, {k: id(v) for k, v in w.conf.items()}),
           (name, {k: id(v) for k, v in expected.items() if gen.visible(k)}), 'wrong inspected configuration', sig=sig.text())
    w = t.ok('whatareyou', wm.whatareyou, c, exclude_prefix=None, exclude_postfix=None, excludes=())
    t.same({k: id(v) for k, v in w.conf.items()}, {k: id(v) for k, v in expected.items()}, 'wrong inspected configuration')
    if any(p in sig.defaults for p in sig.pos[:len(args)]):
        t.event('positional over default')
    if sig.kwonly:
        t.event('keyword only')
    if expected:
        t.seen((name, sig.text(), len(args), sorted(kwargs), layers))
        t.sample('%s(%s) with %d, %s' % (name, sig.text(), len(args), sorted(kwargs)))


class Numbered(object):
    def __init__(self):
        self.n = funcs.Value().n

    def __str__(self):
        return str(self.n)


def ids(t, rng, i):
    """Ids of callables as values show the very same parameters."""
    import toolz
    import whatami as wm
    sig = funcs.Signature(rng, value=lambda: funcs.Value().n)
    f = funcs.function(sig, 'fun')
    c, args, kwargs = f, [], {}
    for _ in range(rng.randrange(0, 4)):
        a = [funcs.Value().n for _ in range(rng.choice([0, 1, 2]))]
        k = {n: funcs.Value().n for n in sig.params if rng.random() < 0.25}
        while a and sig.binding(args + a, kwargs) is None:
            a.pop()
        k = {n: v for n, v in k.items() if sig.binding(args + a, dict(kwargs, **{n: v})) is not None}
        c = apply(toolz, rng, c, a, k, rng.random() < 0.3)
        args += a
        kwargs.update(k)
    bound = sig.binding(args, kwargs)
    if bound is None or bound[1]:
        return
    expected = dict(sig.defaults, **bound[0])
    text = 'fun(%s)' % ','.join(['%s=%d' % kv for kv in sorted(expected.items())])
    nest, shown = rng.choice([(lambda c: c, '%s'), (lambda c: [c], '[%s]'), (lambda c: {'k': (c,)}, "{'k':(%s)}"),
                              (lambda c: wm.What('g', {'c': c}), 'g(c=%s)'), (lambda c: functools.partial(carrier, c), 'carrier(x=%s)')])
    before = (dict(sig.defaults), getattr(c, 'args', None), dict(getattr(c, 'keywords', None) or {}))
    t.same(t.ok('id', wm.What('w', {'v': nest(c)}).id), 'w(v=%s)' % (shown % text), 'wrong id of a callable', sig=sig.text())
    t.same((dict(sig.defaults), getattr(c, 'args', None), dict(getattr(c, 'keywords', None) or {})), before,
           'asking for the id changes the callable')
    t.same(t.ok('obj2what', wm.obj2what, c, exclude_prefix='', exclude_postfix='', excludes=()).id(), text, 'wrong id')
    t.seen(('id', text))


def carrier(x):
    return x


PHASES = [('larger sizes', sizes.calls, {'quick': 2, 'thorough': 24}),
          ('bindings', bindings, {'quick': 2200, 'thorough': 80000}),
          ('ids', ids, {'quick': 600, 'thorough': 20000})]
