# coding=utf-8
"""C38: the introspection helpers agree with what python defines."""
import abc
import collections
import functools
import gc
import sys
import types

from .. import funcs, sizes
from ..funcs import Signature

PROPERTY = 'C38'
TECHNIQUE = ('runtime monitoring: signatures, hierarchies, names and iterability reported by the helpers compared with the '
             'definitions that the monitor generated and with what python does with the objects')
RULE = ('functions, methods and constructors with random signatures and required names; random class hierarchies with multiple '
        'inheritance, metaclasses and abstract classes, growing between requests; objects in nested scopes of generated modules; '
        'closures of many kinds renamed and wrapped; objects following (or not) each of the iteration protocols; distinct by definition; non-trivial: with parameters, '
        'subclasses or nested scopes')
REQUIRE = {'large sizes': 1, 'required_args': 300, 'accepted': 100, 'refused': 150, 'init_argspec': 300, 'inherited constructor': 30, 'no constructor': 30,
           'all_subclasses': 500, 'indirect subclass': 300, 'diamond': 50, 'metaclass': 8, 'new subclass': 60, 'fqn': 400,
           'nested name': 80, 'by class': 100, 'is_iterable': 400, 'iterable': 150, 'not iterable': 150,
           'closure': 150, 'not closure': 120}
SHARDS = {'quick': 2}


def signatures(t, rng, i):
    from whatami.misc import ensure_has_positional_args, required_args
    sig = Signature(rng)
    if not sig.pos and rng.random() < 0.7:
        sig = Signature(rng)
    f = funcs.function(sig, rng.choice(['f', 'experiment', '_f', 'lambda']))
    method = 'self' not in sig.params + [sig.varargs, sig.varkw] and rng.random() < 0.2
    required = [n for n in sig.pos if n not in sig.defaults]
    t.same(list(t.ok('required_args', required_args, f)), required, 'wrong required arguments', signature=sig.text())
    names = rng.sample(required, rng.randrange(0, len(required) + 1))
    others = [n for n in sig.params + [sig.varargs, sig.varkw, 'not_there', ''] if n is not None and n not in required]
    wrong = rng.sample(others, rng.randrange(1, 3)) if rng.random() < 0.6 else []
    names += [n for n in wrong if n not in names]
    rng.shuffle(names)
    if rng.random() < 0.2:
        names *= 2
    kind = rng.choice([tuple, list, set, frozenset, iter, lambda ns: dict.fromkeys(ns)])
    before = dict(f.__dict__), f.__defaults__, f.__code__
    if wrong:
        t.event('refused')
        t.raises('ensure_has_positional_args', Exception, ensure_has_positional_args, f, kind(names))
    else:
        t.event('accepted')
        got = t.ok('ensure_has_positional_args', ensure_has_positional_args, f, args=kind(names))
        t.check(got is f, 'not the same function', got=got)
        t.check(t.ok('ensure_has_positional_args', ensure_has_positional_args, f) is f, 'not the same function')
    t.check((dict(f.__dict__), f.__defaults__, f.__code__) == before, 'the function changes')
    # constructors
    if 'self' in sig.params + [sig.varargs, sig.varkw] or sig.nposonly:
        return
    this = rng.choice(['self', 'self', 'this_one', '_'])
    if this in sig.params + [sig.varargs, sig.varkw]:
        this = 'self'
    text = 'class C(%s):\n    def __init__(%s%s):\n        pass\n' % (
        rng.choice(['object', 'dict', 'Exception', 'Base']), this, ', ' + sig.text() if sig.text() else '')
    env = dict(_d_=sig.defaults, Base=type('Base', (object,), {'__init__': lambda self, other=1: None}))
    exec(text, env)
    cls = env['C']
    if rng.random() < 0.3:
        t.event('inherited constructor')
        for _ in range(rng.randrange(1, 3)):
            cls = type('D', (cls,), {'x': 1})
    if method:
        cls = type('E', (cls,), {'__call__': lambda self, unrelated=3: None})
    args, varargs, varkw, defaults, required = t.ok('init_argspec', init_argspec(), cls)
    t.same((list(args), varargs, varkw), ([this] + sig.pos, sig.varargs, sig.varkw), 'wrong parameters of the constructor',
           signature=sig.text())
    t.check(same(defaults or (), [sig.defaults[n] for n in sig.pos if n in sig.defaults]), 'wrong defaults of the constructor',
            got=defaults, signature=sig.text())
    t.same(list(required), [n for n in sig.pos if n not in sig.defaults], 'wrong required parameters of the constructor',
           signature=sig.text())
    if sig.pos:
        t.seen(sig.text())
    t.sample(sig.text())
    for thing in (object, type('Empty', (object,), {})):
        t.event('no constructor')
        t.same(list(t.ok('init_argspec', init_argspec(), thing)[-1]), [], 'nothing is required', thing=thing)


def init_argspec():
    from whatami.misc import init_argspec
    return init_argspec


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


class Meta(type):
    pass


def hierarchies(t, rng, i):
    from whatami.misc import all_subclasses
    metaclass = rng.random() < 0.2
    rooted = rng.choice([abc.ABC, collections.OrderedDict, Exception, Meta if metaclass else dict])
    root_bases = (type,) if metaclass else (rng.choice([object, object, rooted if rooted is not Meta else object]),)
    meta = type if metaclass or root_bases[0] is not object or rng.random() < 0.6 else rng.choice([Meta, abc.ABCMeta])
    if root_bases[0] is abc.ABC:
        meta = abc.ABCMeta
    classes = [meta('Root', root_bases, {})]
    parents = {classes[0]: set()}
    if metaclass:
        t.event('metaclass')

    def grow():
        bases = rng.sample(classes, min(len(classes), rng.choice([1, 1, 1, 2, 3])))
        for bs in (tuple(bases), tuple(bases[:1])):
            try:
                cls = type(bases[0])(rng.choice(['K%d', 'K%d', '_K%d', '__K%d', 'K%d_', 'k%d', 'Test%d', 'Abstract%d', 'K.%d', '%d', 'Same%.0s', 'Same%.0s', 'Root%.0s']) % len(classes), bs, {'__eq__': lambda self, other: True, '__hash__': None}
                                     if rng.random() < 0.2 and not metaclass else {})
                break
            except TypeError:
                pass
        parents[cls] = set(bs)
        for b in bs:
            parents[cls] |= parents[b]
        if len(bs) > 1:
            t.event('diamond')
        classes.append(cls)

    for step in range(rng.randrange(1, 4)):
        for _ in range(rng.randrange(1, 6)):
            grow()
        if step:
            t.event('new subclass')
        if rng.random() < 0.3 and isinstance(classes[0], abc.ABCMeta):
            classes[0].register(int)     # virtual ones are not subclasses
        for cls in classes:
            expected = [c for c in classes if cls in parents[c]]
            got = t.ok('all_subclasses', all_subclasses, cls)
            t.check(type(got) is list, 'not a list', got=got)
            t.same(sorted(set(c.__name__ for c in got)), sorted(set(c.__name__ for c in expected)), 'wrong subclasses', of=cls,
                   bases={c.__name__: c.__bases__ for c in classes})
            t.check({id(c) for c in got} == {id(c) for c in expected}, 'other classes with the same name', of=cls)
            t.event('indirect subclass', sum(1 for c in expected if cls not in c.__bases__))
            del got[:]
    if len(classes) > 2:
        t.seen([(c.__name__, [b.__name__ for b in c.__bases__]) for c in classes])
    if i % 20 == 0:
        for everything in (object, type):
            got = t.ok('all_subclasses', all_subclasses, everything)
            ids = {id(c) for c in got}
            wanted = [c for c in classes if issubclass(c, everything)]
            t.check(all(id(c) in ids for c in wanted), 'subclasses are missing', of=everything)
            t.check(all(issubclass(c, everything) and c is not everything for c in got), 'not a subclass', of=everything)
            del got
    if i % 7 == 0:
        # classes that are gone
        name = 'Gone%d' % i
        type(name, (classes[0],), {})
        gc.collect()


class WithMethod(object):
    def method(self):
        pass


self_method = WithMethod()


def names(t, rng, i):
    from whatami.misc import fqn
    where = 'whatami_mon_c38_%d' % i + rng.choice(['', '.sub', '.a.b'])
    module = types.ModuleType(where)
    sys.modules[where] = module
    try:
        lines, made = [], []

        def scope(indent, path, depth):
            for n in range(rng.randrange(1, 3)):
                kind = rng.choice(['class', 'class', 'def', 'lambda', 'decorated'] if depth else ['def', 'class'])
                name = '%s%d_%d' % (rng.choice(['K', 'f', '_x', 'Klass']), depth, len(made))
                made.append(path + [name])
                if kind == 'class':
                    lines.append(indent + 'class %s(object):' % name)
                    lines.append(indent + '    x = 1')
                    if depth:
                        scope(indent + '    ', path + [name], depth - 1)
                elif kind == 'lambda':
                    lines.append(indent + '%s = lambda x: x' % name)
                    made.pop()
                else:
                    if kind == 'decorated':
                        lines.append(indent + '@deco')
                    lines.append(indent + 'def %s(self=None):' % name)
                    lines.append(indent + '    return 1')
        scope('', [], rng.choice([0, 1, 2, 2]))
        module.functools = functools
        module.deco = lambda f: functools.wraps(f)(lambda *a: f(*a))
        exec(compile('\n'.join(lines), where, 'exec'), module.__dict__)
        for path in made:
            obj = functools.reduce(getattr, path, module)
            t.same(t.ok('fqn', fqn, obj), '.'.join([where] + path), 'wrong name', of=obj)
            if len(path) > 1:
                t.event('nested name')
                t.seen((i, path))
            if isinstance(obj, type):
                t.event('by class')
                t.same(t.ok('fqn', fqn, obj(), use_class=True), '.'.join([where] + path), 'wrong name of the class', of=obj)
                t.same(t.ok('fqn', fqn, obj, True), 'builtins.type', 'wrong name of the metaclass', of=obj)
                t.same(t.ok('fqn', fqn, obj, use_class=False), '.'.join([where] + path), 'wrong name', of=obj)
        def helper(*args):
            return 3
        helper.__module__ = where
        helper.__qualname__ = rng.choice(['helper', 'K.helper', 'outer.<locals>.f'])
        helper.__wrapped__ = rng.choice([len, collections.OrderedDict, names, functools.partial(len), None, 3])
        helper.__self__ = helper.func = helper.fget = helper.__class_getitem__ = t
        t.same(t.ok('fqn', fqn, helper), where + '.' + helper.__qualname__, 'wrong name of something that wraps')
        for obj, expected in ((collections.OrderedDict, 'collections.OrderedDict'), (int, 'builtins.int'), (len, 'builtins.len'),
                              (ValueError, 'builtins.ValueError')):
            t.same(t.ok('fqn', fqn, obj), expected, 'wrong name', of=obj)
        for obj in (33, helper, len, fqn, self_method.method, functools.partial(len), [], None, module, lambda: 3, 'x', t, self_method, Any, property(len)):
            c = type(obj)
            t.same(t.ok('fqn', fqn, obj, use_class=True), c.__module__ + '.' + c.__qualname__, 'wrong name of the class', of=obj)
    finally:
        del sys.modules[where]


class Old(object):
    """The protocol of sequences."""

    def __getitem__(self, n):
        raise IndexError(n)


class NotAnIterator(object):
    def __iter__(self):
        return 33


class Disabled(list):
    __iter__ = None


class Instance(object):
    """Magic methods are looked up in the class."""

    def __init__(self):
        self.__iter__ = lambda: iter(())


class Any(object):
    def __getattr__(self, name):
        return lambda *args: iter(())


class Stops(object):
    def __iter__(self):
        yield 1
        raise RuntimeError('it should not be consumed')


class Meta2(type):
    def __iter__(cls):
        return iter([1, 2])


IterableClass = Meta2('IterableClass', (object,), {})


def counting(log):
    log.append('started')
    yield 1


ITERABLE = [lambda: [], lambda: (), lambda: '', lambda: 'abc', lambda: b'', lambda: {}, lambda: set(), lambda: range(3), lambda: iter([]),
            Old, Stops, lambda: IterableClass, lambda: (x for x in ()), lambda: map(len, []), lambda: {1: 2}.items(), lambda: bytearray(),
            lambda: collections.deque(), lambda: collections.OrderedDict(), lambda: zip(), lambda: __import__('numpy').zeros(3)]
NOT = [lambda: None, lambda: 0, lambda: 2.5, lambda: True, lambda: len, lambda: str, lambda: object(), NotAnIterator, Disabled, Instance, Any,
       lambda: Old, lambda: NotImplemented, lambda: Ellipsis, lambda: (lambda: iter(())), lambda: sys, lambda: 1j,
       lambda: type('T', (object,), {}), lambda: IterableClass(), lambda: counting]


def iterability(t, rng, i):
    from whatami.misc import is_iterable
    for _ in range(4):
        make, expected = (rng.choice(ITERABLE), True) if rng.random() < 0.5 else (rng.choice(NOT), False)
        obj = make()
        t.event('iterable' if expected else 'not iterable')
        t.check(t.ok('is_iterable', is_iterable, obj) is expected, 'wrong iterability', obj=obj, expected=expected)
        if expected:
            t.seen(type(obj).__name__)
    log = []
    g = counting(log)
    t.check(t.ok('is_iterable', is_iterable, g) is True, 'generators are iterable')
    t.same(log, [], 'a generator is started')
    elements = [rng.randrange(9) for _ in range(rng.randrange(1, 4))]
    it = iter(elements)
    t.check(t.ok('is_iterable', is_iterable, it) is True, 'iterators are iterable')
    t.same(list(it), elements, 'an iterator is consumed')


class Callable(object):
    def __call__(self):
        pass

    def method(self):
        return __class__


def plain(x=1, *args, **kwargs):
    return lambda: None


CLOSURES = ["""
def make():
    x = 1
    def f(): return x
    return f""", """
def make(x=1):
    return lambda: x""", """
def make(f=None):
    def f(n): return f(n)
    return f""", """
def make(x=1):
    def g(y):
        def h(): return x
        return h
    return g""", """
def make(x=1):
    class C(object):
        def f(self): return x
    return C.__dict__['f']""", """
def make():
    class C(object):
        def f(self): return super().f()
    return C.__dict__['f']""", """
def make(x=1):
    def g():
        yield x
    return g""", """
def make(a=1, b=2, c=3):
    def g(): return a + b + c
    return g""", """
def make(x=1):
    def g():
        nonlocal x
        x = 2
    return g"""]
NOT_CLOSURES = ["""
def make():
    def f(): return x
    return f""", """
def make(x=1):
    return lambda x=x: x""", """
def make(x=1):
    class C(object):
        def f(self): return 1
    return C.__dict__['f']""", """
def make(x=1):
    def f(): return x
    return f()""", """
def make(x=1):
    def f(): return x
    class C(object):
        method = f
    return C().method""", """
def make(x=1):
    def f(): return x
    return functools.partial(f)""", """
def make(x=1):
    global f
    def f(): return 3
    return f"""]


def closures(t, rng, i):
    """Closures are the python functions that capture something."""
    from whatami.misc import is_closure
    others = [None, 1, 'f', [], len, str.upper, Callable(), Callable, Callable().method, Callable.method, plain, functools.partial(plain), object()]
    for _ in range(4):
        r = rng.random()
        if r < 0.8:
            text, expected = (rng.choice(CLOSURES), True) if r < 0.5 else (rng.choice(NOT_CLOSURES), False)
            env = {'functools': functools, '__name__': __name__}
            exec(text, env)
            obj = env['make']()
            if isinstance(obj, type(plain)):
                if rng.random() < 0.5:
                    obj.__name__ = rng.choice(['plain', '<lambda>', 'a b', ''])
                if rng.random() < 0.5:
                    obj.__qualname__ = rng.choice(['plain', 'make.<locals>.f', '', '<locals>'])
                if rng.random() < 0.3:
                    functools.update_wrapper(obj, rng.choice([plain, Callable.__call__]))
                if rng.random() < 0.3:
                    obj.__module__ = rng.choice(['builtins', None, ''])
            if rng.random() < 0.2 and expected:   # a decorated closure
                text, obj = 'wraps' + text, functools.wraps(plain)(obj)
        else:
            obj = rng.choice(others)
            text, expected = repr(obj), obj is Callable.method     # __class__ is captured
        t.event('closure' if expected else 'not closure')
        t.check(bool(t.ok('is_closure', is_closure, obj)) is expected, 'wrong answer on being a closure', obj=obj, text=text, expected=expected)
        t.seen(('closure', text))


PHASES = [('larger sizes', sizes.introspected, {'quick': 2, 'thorough': 24}),
          ('closures', closures, {'quick': 120, 'thorough': 3000}),
          ('signatures', signatures, {'quick': 500, 'thorough': 30000}),
          ('hierarchies', hierarchies, {'quick': 120, 'thorough': 3000}),
          ('names', names, {'quick': 150, 'thorough': 8000}),
          ('iterability', iterability, {'quick': 200, 'thorough': 8000})]
