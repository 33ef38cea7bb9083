# coding=utf-8
"""C32: class-wide decorators apply to every definition in the hierarchy."""
import abc
import functools
import types

from .. import sizes

PROPERTY = 'C32'
TECHNIQUE = ('runtime monitoring: decorators that log every application, on generated class hierarchies; the log and every '
             'member of every class are compared with the definitions; generated recorder subclasses are exercised')
RULE = ('random hierarchies (multiple inheritance, overriding, combined metaclasses, class keywords, dynamic creation from shared '
        'namespaces) with members of all kinds, and recorder subclasses with random addition signatures; non-trivial: with '
        'overrides of decorated members')
REQUIRE = {'large sizes': 1, 'class': 1200, 'decorated': 600, 'overridden': 250, 'not decorated': 600, 'several decorators': 250, 'dynamic': 150,
           'shared namespace': 100, 'called': 300, 'order': 80, 'combined metaclasses': 60, 'class keywords': 40,
           'failing decorator': 40, 'recorder class': 150, 'cannot be defined': 100, 'curried': 200, 'added': 150,
           'required column': 60, 'static or class method': 100}
NAMES = ['foo', 'bar', 'add', 'what', 'name', 'd', 'bases', 'attr', 'run_all', '_private', 'decorators', '__call__', 'x']


class Wrapped(object):
    """Result of applying a decorator to anything."""

    def __init__(self, decorator, inner):
        self.decorator = decorator
        self.inner = inner


class Decorator(object):
    """A callable that wraps any member and logs it."""

    def __init__(self, log, n):
        self.log = log
        self.n = n

    def __call__(self, member):
        self.log.append((self.n, member))
        return Wrapped(self.n, member)

    def __repr__(self):
        return 'Decorator(%d)' % self.n


def member(rng, t, cls, name):
    """A new member, of any kind."""
    def f(self, *args):
        return cls, name, args
    def generator(self):
        yield cls

    @functools.wraps(f)
    def wrapped(self, *args):   # by other decorators of the user
        return f(self, *args)

    def marked(self):
        return name
    marked.decorated = marked.__isabstractmethod__ = True

    kind = rng.choice(['function', 'function', 'function', 'static', 'class', 'property', 'value', 'lambda', 'partial', 'none',
                       'generator', 'wrapped', 'wrapped', 'cached', 'marked', 'type', 'object', 'false'])
    if kind in ('static', 'class'):
        t.event('static or class method')
    return {'generator': generator, 'wrapped': wrapped, 'cached': functools.lru_cache(None)(f), 'marked': marked,
            'type': type(name, (), {}), 'object': Decorator([], 0), 'false': rng.choice([0, '', False, (), NotImplemented]),
            'function': f, 'static': staticmethod(lambda *a: a), 'class': classmethod(f), 'property': property(f),
            'value': [cls, name], 'lambda': lambda self: 3, 'partial': functools.partial(f, None), 'none': None}[kind]


def selection(rng, log):
    """Decorators for some members, as one, in lists or in tuples."""
    chosen = rng.sample([n for n in NAMES if n != 'name'], rng.randrange(1, 5))
    plan, kwargs = {}, {}
    for name in chosen:
        ds = [Decorator(log, rng.randrange(10 ** 6)) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 7]))]
        [id(d) for d in ds]   # pypy gives identities when they are asked for
        rng.shuffle(ds)
        if len(ds) == 2 and rng.random() < 0.2:
            ds[1] = ds[0]
        plan[name] = [d.n for d in ds]
        kwargs[name] = ds[0] if len(ds) == 1 and rng.random() < 0.6 else rng.choice([list, tuple, tuple])(ds)
    return plan, kwargs


def linear(bases):
    """Can python order these bases?"""
    try:
        shadows = {}
        for b in bases:
            for c in reversed(b.__mro__):
                if c is not object and c not in shadows:
                    shadows[c] = type(c.__name__, tuple(shadows[x] for x in c.__bases__ if x is not object), {})
        type('Test', tuple(shadows[b] for b in bases), {})
        return True
    except TypeError:
        return False


def hierarchies(t, rng, i):
    from whatami.misc import decorate_some
    log = []
    plan, kwargs = selection(rng, log)
    metas = [decorate_some(**kwargs) if rng.random() < 0.5 else decorate_some(name='Meta%d' % i, **kwargs)]
    plans = [plan]
    combined = rng.random() < 0.25
    if combined:
        t.event('combined metaclasses')
        plan2, kwargs2 = selection(rng, log)
        plans.append(plan2)
        second = decorate_some(**kwargs2)
        metas.append(rng.choice([type('Both', (metas[0], second), {}),
                                 type('Both', (metas[0], second, abc.ABCMeta), {})]))
        meta = metas[-1]
    elif rng.random() < 0.2:
        plans = [plan]
        meta = type('Derived', (metas[0], abc.ABCMeta), {})
    else:
        meta = metas[0]
    whole = {}
    for p in plans:
        for name, ds in p.items():
            whole[name] = whole.get(name, []) + ds
    if any(len(ds) > 1 for ds in whole.values()):
        t.event('several decorators')
    classes = []
    shared = None
    for n in range(rng.randrange(2, 7)):
        name = 'C%d' % n
        members = {m: member(rng, t, name, m) for m in rng.sample(NAMES, rng.randrange(0, 9))}
        if '__call__' in members and not isinstance(members['__call__'], types.FunctionType):
            members['__call__'] = lambda self: 0
        bases = tuple(c for c, _ in rng.sample(classes, min(len(classes), rng.choice([0, 1, 1, 1, 2]))))
        if not linear(bases):
            bases = bases[:1]
        how = rng.choice(['statement', 'statement', 'dynamic', 'shared', 'new_class'])
        if how == 'shared' and shared is not None:
            members = shared
            t.event('shared namespace')
        before = dict(members)
        del log[:]
        keywords = {}
        if bases and rng.random() < 0.5 and how in ('statement', 'new_class') and hasattr(bases[0], 'keywords_allowed'):
            keywords = {'special': n}
            t.event('class keywords')
        extra = {}
        if not bases:
            got = []

            def __init_subclass__(cls, special=None, got=got):
                got.append((cls.__name__, special))
            extra = {'__init_subclass__': classmethod(__init_subclass__), 'keywords_allowed': got}
        if how == 'statement':
            env = dict(meta=meta, kw=keywords)
            env.update(('b%d' % k, b) for k, b in enumerate(bases))
            env['m'] = dict(members, **extra)
            head = ', '.join(['b%d' % k for k in range(len(bases))] + ['metaclass=meta', '**kw'])
            body = ''.join('    %s = m[%r]\n' % (m, m) for m in env['m']) or '    pass\n'
            exec('class %s(%s):\n%s' % (name, head, body), env)
            cls = env[name]
        elif how == 'new_class':
            ns = dict(members, **extra)
            cls = types.new_class(name, bases, dict(keywords, metaclass=meta), lambda d: d.update(ns))
        else:
            t.event('dynamic')
            cls = meta(name, bases, members)
            shared = members
        t.event('class')
        if how in ('dynamic', 'shared'):
            t.check(list(members.items()) == list(before.items()) and all(members[m] is before[m] for m in before),
                    'the namespace given by the caller is changed')
        t.check(type(cls) is meta and cls.__name__ == name and cls.__bases__ == (bases or (object,)), 'wrong class')
        expected_log = []
        for m, original in before.items():
            got = vars(cls)[m]
            chain = []
            while isinstance(got, Wrapped):
                chain.append(got.decorator)
                got = got.inner
            t.same(chain[::-1], whole.get(m, []) if not combined else chain[::-1], 'not decorated exactly once, in order',
                   member=m, cls=name)
            t.same(sorted(chain), sorted(whole.get(m, [])), 'not decorated exactly once', member=m, cls=name)
            t.check(got is original, 'another member is decorated', member=m, cls=name)
            t.event('decorated' if whole.get(m) else 'not decorated')
            if whole.get(m) and any(m in vars(c) for c in cls.__mro__[1:]):
                t.event('overridden')
                t.seen((i, 'overridden'))
            expected_log += whole.get(m, [])
        t.same(sorted(n for n, _ in log), sorted(expected_log), 'wrong decorations', cls=name)
        for m in whole:
            t.check((m in vars(cls)) == (m in before), 'members that the class does not define appear', member=m, cls=name)
        if keywords:
            t.check((name, n) in bases[0].keywords_allowed, 'the class keywords are lost')
        classes.append((cls, before))
    # creating a class does not change the others
    for cls, before in classes:
        for m, original in before.items():
            got = vars(cls)[m]
            count = 0
            while isinstance(got, Wrapped):
                count += 1
                got = got.inner
            t.check(count == len(whole.get(m, [])) and got is original, 'decorated later', member=m, cls=cls)


def calls(t, rng, i):
    """Decorated methods call their decorators in order, also when overriding with super."""
    from whatami.misc import decorate_some
    trace = []

    def decorator(n):
        def decorate(f):
            @functools.wraps(f)
            def wrapper(*args, **kwargs):
                trace.append(n)
                return f(*args, **kwargs)
            return wrapper
        return decorate

    order = rng.sample(range(100), rng.randrange(1, 5))
    other = rng.sample(range(100, 200), rng.randrange(1, 3))
    ds = rng.choice([list, tuple])([decorator(n) for n in order])
    meta = decorate_some('M', method=ds if len(ds) > 1 or rng.random() < 0.5 else ds[0], second=[decorator(n) for n in other])
    env = dict(meta=meta, trace=trace)
    text_ = ''
    levels = rng.randrange(1, 5)
    expected, defined = [], []
    second = []
    for n in range(levels):
        base = 'C%d' % (n - 1) if n else 'object'
        defines = n == 0 or rng.random() < 0.7
        text_ += 'class C%d(%s%s):\n    def free(self):\n        return %d\n' % (n, base, ', metaclass=meta' if not n else '', n)
        if defines:
            text_ += '    def method(self, x, *a, **k):\n        trace.append(%r)\n%s        return %d, x, a, k\n' % (
                'C%d' % n, '        super().method(x)\n' if n else '', n)
            expected = order[::-1] + ['C%d' % n] + expected
            defined.append(n)
        if rng.random() < 0.5 or n == 0:
            text_ += '    def second(self):\n        trace.append(%r)\n' % n
            second = other[::-1] + [n]
    exec(text_, env)
    for n in (levels - 1,):
        obj = env['C%d' % n]()
        t.event('called', 3)
        if len(order) > 1:
            t.event('order')
        got = t.ok('method', obj.method, 1, 2, k=3)
        t.same(got, (defined[-1], 1, (2,), {'k': 3}), 'wrong result')
        t.same(trace, expected, 'decorators not applied to each definition, in order', classes=text_)
        del trace[:]
        t.ok('second', obj.second)
        t.same(trace, second, 'decorators not applied, in order', classes=text_)
        del trace[:]
        t.same(t.ok('free', obj.free), n, 'wrong result')
        t.same(trace, [], 'a member that was not selected is decorated')
    if len(defined) > 1:
        t.seen(text_)

    class Boom(Exception):
        pass

    def failing(_):
        raise Boom()
    bad = decorate_some(method=[decorator(0), failing])
    t.event('failing decorator')
    t.raises('class', Boom, bad, 'X', (), {'method': lambda self: 0})
    t.ok('class', bad, 'X', (), {'other': lambda self: 0})


def recorders(t, rng, i):
    """Subclasses of Recorder always have a curried add, or cannot be defined."""
    from whatami.registry import Recorder
    valid = rng.random() < 0.6
    first = rng.choice(['self', 'self', 'this', 'recorder'])
    required = rng.random() < 0.5
    if valid:
        params = rng.choice(['%s, ids', '%s, ids', '%s, ids, unbox_iterables=True'])
        if required:
            params = rng.choice(['%s, ids, continent', '%s, continent, ids', '%s, ids, *, continent'])
            kwonly = '*' in params
        params = params % first + ', **columns'
    else:
        params = rng.choice(['%s', '%s, id', '%s, ids=()', '%s, *ids', '%s, **ids', '%s, *, ids', '%s, a, ids=None',
                             '%s, record_ids, **columns', '%s, *, ids=None, **columns', '%s, Ids', '%s, *args, **kwargs']) % first
    call = 'super(C, %s).add(ids, %s**columns)' % (first, 'continent=continent, ' if valid and required else '')
    env = dict(Recorder=Recorder)
    middle = rng.random() < 0.4
    body = 'class Middle(Recorder):\n    def other(self):\n        return 1\n' if middle else ''
    body += 'class C(%s):\n    def add(%s):\n        return %s\n' % ('Middle' if middle else 'Recorder', params, call)
    if not valid:
        t.event('cannot be defined')
        body = body.replace(call, 'None')
        t.raises('class', Exception, exec, body, env)
        t.check('C' not in env, 'the class is defined')
        t.seen(body)
        return
    body += 'class Last(C):\n    pass\nclass Overriding(C):\n    def add(self, ids, **columns):\n' \
            '        return super().add(ids=ids, level=3, **columns)\n'
    t.event('recorder class')
    t.ok('class', exec, body, env)
    for name in ['C', 'Last', 'Overriding'] + (['Middle'] if middle else []):
        r = env[name]()
        t.event('curried')
        adder = t.ok('add', r.add)
        t.check(callable(adder), 'add is not curried', got=adder, cls=name)
        adder = t.ok('add', adder, color='red')
        t.check(callable(adder), 'add is not curried', got=adder, cls=name)
        t.same(len(r), 0, 'something is added without ids', cls=name)
        columns = {'color': 'red'}
        ids = ['%s1' % name, '%s2' % name]
        if required and name in ('C', 'Last'):
            t.event('required column')
            columns['continent'] = 'Africa'
            if not kwonly:
                one = t.ok('add', adder, ids=ids)
                t.check(callable(one) and len(r) == 0, 'something is added without a required column', got=one)
            adder = t.ok('add', adder, continent='Africa') if rng.random() < 0.5 else functools.partial(adder, continent='Africa')
            if not kwonly and rng.random() < 0.5:
                adder, given = one, dict(continent='Africa')
                t.ok('add', adder, **given)
            else:
                t.ok('add', adder, ids=ids)
        elif required and name == 'Overriding':
            columns['continent'] = 'Europe'
            columns['level'] = 3
            t.ok('add', adder, ids, continent='Europe')
        else:
            if name == 'Overriding':
                columns['level'] = 3
            t.ok('add', adder, ids)
        t.event('added')
        t.same(len(r), 2, 'not added', cls=name, body=body)
        for n, whatid in enumerate(ids):
            record, = t.ok('get', r.get, whatid)
            got = {k: record[k] for k in columns}
            t.same(got, columns, 'wrong record', cls=name, record=record, body=body)
    t.seen(body)


PHASES = [('larger sizes', sizes.decorated, {'quick': 2, 'thorough': 24}),
          ('hierarchies', hierarchies, {'quick': 1000, 'thorough': 20000}),
          ('calls', calls, {'quick': 200, 'thorough': 8000}),
          ('recorders', recorders, {'quick': 400, 'thorough': 12000})]
