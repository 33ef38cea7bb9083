# coding=utf-8
"""C13: whatable functions behave like the original, which stays untouched."""
import functools

from .. import funcs, gen, sizes

PROPERTY = 'C13'
TECHNIQUE = ('runtime monitoring: differential monitor of every call (result, identity of arguments, exception) between the '
             'original and the decorated function, plus a model of the configuration')
RULE = ('functions with random signatures (positional-only, defaults, variadic, keyword-only, closures, generators, methods, '
        'lambdas, raising ones), partials over them and stacked decorations; random valid and invalid calls interleaved '
        'with requests and mutations of configurations; distinct by signature; non-trivial: at least one parameter')
REQUIRE = {'large sizes': 1, 'call': 2500, 'call raises': 300, 'what': 900, 'mutated': 300, 'stacked': 60, 'stacked partial': 40, 'partial': 100, 'in place': 60,
           'method': 30, 'non-ids': 60, 'metadata': 35, 'counted': 250, 'excluding': 40}


class Boom(Exception):
    pass


class Stop(StopIteration):
    pass


class Quiet(BaseException):
    pass


RAISED = [Boom, Boom, Boom, StopIteration, Stop, GeneratorExit, KeyboardInterrupt, SystemExit, Quiet, KeyError, AttributeError, ValueError,
          AssertionError, RuntimeError, NotImplementedError, StopAsyncIteration, MemoryError, ImportError, OSError]


BODIES = ['return dict(locals())', 'return dict(locals())', 'raise boom', 'return list(locals().values())',
          'if len(locals()) % 2: raise boom\nreturn dict(locals())', 'yield dict(locals())\nyield sentinel', 'return sentinel',
          'return None', 'calls.append(dict(locals()))\nreturn calls[-1]']


RETURNED = [NotImplemented, Ellipsis, None, 0, False, '', (), frozenset(), 1.5, OSError('returned'), int, len, 'what', b'']


def make(rng, name=None):
    sig = funcs.Signature(rng)
    name = name or rng.choice(['f', 'normalize', 'lambda', '_private', 'g_'])
    body = rng.choice(BODIES)
    env = {'boom': rng.choice(RAISED)('boom', 33), 'sentinel': rng.choice([funcs.Value()] * 2 + RETURNED + [NotImplemented, NotImplemented]), 'calls': []}
    if name == 'lambda':
        body = 'return dict(locals())'
    f = funcs.function(sig, name, body, env, doc=rng.choice([None, 'Some documentation']) if name != 'lambda' else None)
    if rng.random() < 0.2:
        f.attribute = funcs.Value()
    return sig, f


def outcome(fn, args, kwargs):
    try:
        got = fn(*args, **kwargs)
        if hasattr(got, '__next__'):
            got = ('generated', list(got))
    except BaseException as ex:  # noqa
        return 'raised', ex
    return 'returned', got


def compare_calls(t, rng, f, w, sig, n, where, bound=0):
    for _ in range(n):
        args, kwargs = funcs.arguments(rng, sig)
        args = args[bound:] if bound else args
        t.event('call')
        (how, a), (howw, b) = outcome(f, args, kwargs), outcome(w, args, kwargs)
        t.same(howw, how, 'the decorated function behaves differently (%s)' % where, sig=sig.text(), original=a, decorated=b)
        if how == 'raised':
            t.event('call raises')
            t.check(type(a) is type(b), 'another exception (%s)' % where, original=a, decorated=b)
            t.check(a is b or isinstance(a, TypeError), 'the exception is not the one raised (%s)' % where)
        else:
            # values are equal only to themselves
            t.same(b, a, 'another result (%s)' % where, sig=sig.text(), args=args, kwargs=kwargs)


def snapshot(f):
    return (f.__name__, f.__doc__, f.__module__, f.__qualname__, f.__defaults__, dict(f.__kwdefaults__ or {}),
            dict(f.__dict__), f.__code__)


def check_what(t, rng, w, name, conf, nonids, where):
    import whatami as wm
    t.check(t.ok('is_whatable', wm.is_whatable, w), 'it should be whatable (%s)' % where)
    what = t.ok('what', lambda: w.what())
    t.check(isinstance(what, wm.What), 'not a configuration (%s)' % where)
    t.same(what.name, name, 'wrong name (%s)' % where)
    t.same(set(what.conf), set(conf), 'wrong parameters (%s)' % where)
    for k, v in conf.items():
        t.check(what.conf[k] is v, 'wrong value of %s (%s)' % (k, where), got=what.conf[k], expected=v)
    shown = [k for k in sorted(conf) if k not in nonids and k != 'what']
    for k in shown:
        what.conf[k] = k
    expected = '%s(%s)' % (name, ','.join(['%s=%r' % (k, k) for k in shown]))
    t.same(t.ok('id', what.id), expected, 'wrong id (%s)' % where, nonids=nonids)
    # requests are independent
    t.event('mutated')
    op = rng.randrange(5)
    if op == 0:
        what.conf.clear()
    elif op == 1:
        what.set('intruder', 3)
        what.non_id_keys.update(conf)
    elif op == 2:
        what.name, what.out_name = 'other', 'out'
    elif op == 3:
        what.non_id_keys.clear()
    else:
        what.conf = {}
    again = t.ok('what', lambda: w.what())
    t.check(again is not what, 'requests share the configuration (%s)' % where)
    t.same((again.name, again.out_name, {k: id(v) for k, v in again.conf.items()}),
           (name, None, {k: id(v) for k, v in conf.items()}), 'changing a configuration changes others (%s)' % where)
    for k in shown:
        again.conf[k] = k
    t.same(t.ok('id', again.id), expected, 'wrong id after changing other configurations (%s)' % where)


def declared(rng, names):
    if rng.random() < 0.6 or not names:
        return [], {}
    ks = rng.sample(names, rng.randrange(1, len(names) + 1)) + (['nope'] if rng.random() < 0.3 else [])
    return ks, {'non_id_keys': rng.choice([list, tuple, set])(ks)}


def functions(t, rng, i):
    import whatami as wm
    sig, f = make(rng)
    name = 'lambda' if f.__name__ == '<lambda>' else f.__name__
    before = snapshot(f)
    pool = [(f, 'original', None)]
    for _ in range(rng.randrange(1, 4)):
        base, where, _ = rng.choice(pool)
        if where != 'original':
            t.event('stacked')
        nonids, kw = declared(rng, sig.params)
        if nonids:
            t.event('non-ids')
        w = t.ok('whatable', lambda: wm.whatable(**kw)(base) if rng.random() < 0.4 else wm.whatable(base, **kw))
        t.check(w is not base, 'decorating a function should give another one')
        pool.append((w, where + '+', nonids))
        for attr in ('__name__', '__doc__', '__module__'):
            t.same(getattr(w, attr), getattr(f, attr), 'the decorated function loses its %s' % attr)
        t.same(snapshot(f), before, 'the original function changes')
        t.check(not hasattr(f, 'what'), 'the original function gains what')
    for _ in range(6):
        w, where, nonids = rng.choice(pool[1:])
        compare_calls(t, rng, f, w, sig, 2, where)
        check_what(t, rng, w, name, sig.defaults, nonids, where)
    t.same(snapshot(f), before, 'the original function changes')
    if sig.params:
        t.seen((name, sig.text(), len(pool)))
        t.sample('%s(%s)' % (name, sig.text()))


def partials(t, rng, i):
    import whatami as wm
    sig, f = make(rng)
    name = 'lambda' if f.__name__ == '<lambda>' else f.__name__
    npos = rng.randrange(0, len(sig.pos) + 1)
    args = [funcs.Value() for _ in range(npos)]
    kwargs = {k: funcs.Value() for k in sig.params[max(npos, sig.nposonly):] if rng.random() < 0.4}
    p = functools.partial(f, *args, **kwargs)
    base_bound = dict(sig.defaults)
    base_bound.update(zip(sig.pos, args))
    base_bound.update(kwargs)
    nonids, kw = declared(rng, sig.params)
    t.event('partial')
    before = snapshot(f)
    w = t.ok('whatable', wm.whatable, p, **kw)
    t.check(w is not p and not hasattr(p, 'what') and not hasattr(f, 'what'), 'the original gains what')
    t.same((p.args, p.keywords), (tuple(args), kwargs), 'the partial changes')
    for _ in range(3):
        compare_calls(t, rng, p, w, sig, 3, 'partial', bound=npos)
        check_what(t, rng, w, name, base_bound, nonids, 'partial')
    if rng.random() < 0.5:
        # decorate again what is decorated, perhaps with more applied in between
        t.event('stacked partial')
        pp, more = p, {}
        for _ in range(rng.randrange(1, 4)):
            more = {k: funcs.Value() for k in sig.params[max(npos, sig.nposonly):] if rng.random() < 0.3}
            base = w
            if more:
                base, pp = functools.partial(w, **more), functools.partial(pp, **more)
                base_bound = dict(base_bound, **more)
            w_before = t.ok('what', lambda: w.what()).conf
            nonids, kw = declared(rng, sig.params)
            ww = t.ok('whatable', wm.whatable, base, **kw)
            t.check(ww is not base, 'decorating gives another callable')
            check_what(t, rng, ww, name, base_bound, nonids, 'stacked partial')
            compare_calls(t, rng, pp, ww, sig, 2, 'stacked partial', bound=npos)
            t.same(t.ok('what', lambda: w.what()).conf, w_before, 'decorating again changes the configuration')
            w = ww
    t.same((p.args, p.keywords, snapshot(f)), (tuple(args), kwargs, before), 'the partial or its function change')
    if base_bound:
        t.seen(('partial', name, sig.text(), npos, sorted(kwargs)))


def others(t, rng, i):
    """In place modification, methods, closures, providers and builtins."""
    import whatami as wm
    sig, f = make(rng, name='f')
    how = i % 5
    if how == 0:
        t.event('in place')
        nonids, kw = declared(rng, sig.params)
        reference = outcome
        code = f.__code__
        w = t.ok('whatable', wm.whatable, f, modify_func_inplace=True, **kw)
        t.check(w is f and f.__code__ is code, 'in place modification should give the same function')
        check_what(t, rng, f, 'f', sig.defaults, nonids, 'in place')
        del reference
    elif how == 1:
        t.event('method')
        v = funcs.Value()

        class Holder(object):
            def plain(self, a, b=v, *args, **kwargs):
                return self, a, b, args, kwargs
            decorated = wm.whatable(plain)
        h = Holder()
        for _ in range(4):
            args = [funcs.Value() for _ in range(rng.randrange(0, 4))]
            kwargs = {k: funcs.Value() for k in rng.sample(['a', 'b', 'c', 'self', 'obj'], rng.randrange(0, 3))}
            a, b = outcome(h.plain, args, kwargs), outcome(h.decorated, args, kwargs)
            t.event('call')
            t.check(a == b or (a[0] == b[0] == 'raised' and type(a[1]) is type(b[1])), 'decorated methods behave differently',
                    original=a, decorated=b)
        t.same(t.ok('what', lambda: h.decorated.what()).conf, {'b': v}, 'wrong configuration of a method')
    elif how == 2:
        def outer(g):
            def inner(x, y=4, **kw):
                return g(dict(x=x, y=y, kw=kw))
            return inner
        for g in (lambda d, z=5: d, functools.partial(lambda d: d), dict):
            h = outer(g)
            w = t.ok('whatable', wm.whatable, h)
            t.same(t.ok('what', lambda: w.what()).id(), 'inner(y=4)', 'wrong configuration of a closure')
            t.same(w(3, k=5), h(3, k=5), 'decorated closures behave differently')
            ww = t.ok('whatable', wm.whatable, w)
            t.same(t.ok('what', lambda: ww.what()).id(), 'inner(y=4)', 'wrong configuration of a redecorated closure')
            t.check(not hasattr(h, 'what'), 'the original gains what')
    elif how == 3:
        seen = []

        def provider(fn):
            seen.append(fn)
            return wm.What('provided', {'n': len(seen)})
        w = t.ok('whatable', wm.whatable, f, whatfunc=provider, non_id_keys=['n'])
        t.same(t.ok('what', lambda: w.what()).id(), 'provided(n=1)', 'wrong configuration provider')
        t.same(t.ok('what', lambda: w.what()).id(), 'provided(n=2)', 'wrong configuration provider')
        t.check(all(s is w for s in seen), 'the provider should be given the decorated function')
        compare_calls(t, rng, f, w, sig, 4, 'provider')
    else:
        t.raises('whatable', TypeError, wm.whatable, rng.choice([len, sorted, max, abs]))
    t.seen(('others', how, sig.text()))


def metadata(t, rng, i):
    """Functions with anything that python allows as name, documentation and module."""
    import whatami as wm
    sig, f = make(rng, name='f')
    t.event('metadata')
    f.__module__ = rng.choice([None, '', 'elsewhere', 'a.b', 0])
    f.__doc__ = rng.choice([None, '', ' ', 'doc', 33])
    f.__name__ = rng.choice(['f', 'another', 'f' * 100])
    w = t.ok('whatable', wm.whatable, f)
    for attr in ('__name__', '__doc__', '__module__'):
        got = t.ok('getattr', getattr, w, attr)
        t.check(got == getattr(f, attr) and type(got) is type(getattr(f, attr)), 'the decorated function loses its %s' % attr, got=got,
                expected=getattr(f, attr))
    check_what(t, rng, w, f.__name__, sig.defaults, [], 'metadata')
    compare_calls(t, rng, f, w, sig, 2, 'metadata')
    t.seen(('metadata', f.__module__, f.__doc__, f.__name__, sig.text()))


def counted(t, rng, i):
    """Each call reaches the original just once, with everything that was given, whatever the keywords and what happens."""
    import whatami as wm
    calls = []
    errors = [rng.choice(RAISED + [TypeError, UnicodeError, RecursionError, BlockingIOError, TimeoutError, Warning]) for _ in range(3)]

    def original(*args, **kwargs):
        calls.append((args, kwargs))
        if len(calls) % 4:
            raise errors[len(calls) % 4 - 1](len(calls))
        return len(calls)
    how = rng.randrange(3)
    target = {0: lambda: original, 1: lambda: functools.partial(original), 2: lambda: wm.whatable(original)}[how]()
    w = t.ok('whatable', wm.whatable, target)
    for n in range(1, 9):
        t.event('counted')
        args = tuple([funcs.Value() for _ in range(rng.randrange(3))])
        names = rng.sample(['__a', '__a__', '_a', 'a_', 'self', 'args', 'kwargs', 'obj', 'fn', 'func', 'function', 'what', 'not a name', '', u'\xe9', 'class', 'name', '__class__', '_what', '_func', '_obj', '_', '__wrapped__', 'whatfunc',
                            'non_id_keys', 'excludes', 'modify_func_inplace', 'whatami', 'copy', 'deep'],
                           rng.randrange(0, 6))
        kwargs = {k: rng.choice([None, funcs.Value(), 0, '', ()]) for k in names}
        outcome_, got = outcome(w, args, dict(kwargs))
        t.same(len(calls), n, 'the original is not called exactly once')
        t.check(calls[-1][0] == args and calls[-1][1] == kwargs and list(calls[-1][1]) == names and
                all(calls[-1][1][k] is kwargs[k] for k in names), 'the original receives other arguments', got=calls[-1], args=args, kwargs=kwargs)
        if n % 4:
            t.check(outcome_ == 'raised' and type(got) is errors[n % 4 - 1] and got.args == (n,), 'another exception', got=got)
        else:
            t.same((outcome_, got), ('returned', n), 'another result')
    t.seen(('counted', how, [e.__name__ for e in errors]))


def excluding(t, rng, i):
    """Names excluded from the configurations by default, or not."""
    import whatami as wm
    names = rng.sample(['what', 'a', 'b', 'c', 'verbose', 'n_jobs', 'excludes', 'obj'], rng.randrange(1, 6))
    env = {}
    exec('def f(%s): return dict(locals())' % ', '.join('%s=%d' % (k, n) for n, k in enumerate(names)), env)
    excludes = rng.sample(names + ['what', 'nothing'], rng.randrange(0, 3)) if rng.random() < 0.7 else None
    nonids = rng.sample(names, rng.randrange(0, len(names))) if rng.random() < 0.5 else None
    kw = {}
    if excludes is not None:
        kw['excludes'] = rng.choice([list, tuple, set, frozenset, iter])(excludes)
    if nonids is not None:
        kw['non_id_keys'] = rng.choice([list, tuple, set])(nonids)
    f = env['f'] if rng.random() < 0.7 else functools.partial(env['f'])
    w = t.ok('whatable', lambda: wm.whatable(f, **kw) if rng.random() < 0.5 else wm.whatable(**kw)(f))
    hidden = set(('what',) if excludes is None else excludes).union(nonids or ())
    for _ in range(2):
        t.event('excluding' if excludes is not None else 'default exclusions')
        what = t.ok('what', w.what)
        t.same(what.id(), 'f(%s)' % ','.join('%s=%d' % (k, names.index(k)) for k in sorted(names) if k not in hidden), 'wrong id',
               excludes=excludes, nonids=nonids)
        t.same(what.conf, {k: n for n, k in enumerate(names)}, 'wrong configuration', excludes=excludes, nonids=nonids)
    t.same(t.ok('call', w), {k: n for n, k in enumerate(names)}, 'another result')
    t.seen((names, excludes, nonids))


PHASES = [('larger sizes', sizes.calls, {'quick': 2, 'thorough': 24}),
          ('excluding', excluding, {'quick': 60, 'thorough': 2000}),
          ('counted', counted, {'quick': 60, 'thorough': 3000}),
          ('functions', functions, {'quick': 160, 'thorough': 8000}),
          ('partials', partials, {'quick': 160, 'thorough': 8000}),
          ('metadata', metadata, {'quick': 60, 'thorough': 2000}),
          ('others', others, {'quick': 350, 'thorough': 6000})]
