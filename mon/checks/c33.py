# coding=utf-8
"""C33: objects are recognised as whatable, and coerced to ids, consistently."""
import functools

from .. import gen, ref

PROPERTY = 'C33'
TECHNIQUE = ('runtime monitoring: generated objects with all ways of providing, or almost providing, a configuration are asked for '
             'their ids everywhere where objects are converted to ids; the answers are compared with what they were made to say')
RULE = ('random classes and objects with configuration providers that work (methods of all kinds, attributes, decorations, '
        'inheritance) or do not (failing, needing arguments, giving something else, not callable), ids of their own, functions, '
        'builtins, strings and None; non-trivial: with a provider, working or not')
REQUIRE = {'is_whatable': 900, 'what2id': 900, 'whatable': 300, 'not whatable': 300, 'class': 150, 'registry': 300, 'recorder': 300,
           'mlexp_info': 300, 'nested': 150, 'obj2what': 300, 'own id': 60, 'string': 40, 'changed': 35, 'hostile': 50,
           'failing provider': 25, 'almost': 70, 'individual': 400}


class Boom(Exception):
    pass


ERRORS = [ValueError, KeyError, RuntimeError, Boom, ZeroDivisionError, AttributeError, TypeError, IOError, NotImplementedError,
          StopIteration, AssertionError, LookupError]


def provided(rng):
    """A configuration and its id."""
    from whatami import What
    spec = gen.what(rng, gen.Options(nonids=True, hashable_whats=False), 1)
    if rng.random() < 0.3:
        SubWhat = type('SubWhat', (What,), rng.choice([{}, {'__len__': lambda self: 0}, {'__bool__': lambda self: False}, {'__len__': lambda self: len(self.conf)},
                                                       {'__eq__': lambda self, other: True, '__hash__': None}]))
        what = gen.build(spec, rng)
        return SubWhat(what.name, what.conf, what.non_id_keys, what.out_name), ref.render(spec)
    return gen.build(spec, rng), ref.render(spec)


def plain(rng, bases=(object,), members=None, name=None, attributes=None):
    """A class, and the attributes that its instances will have."""
    name = name or rng.choice(['Plain', 'Thing', 'What', 'model', 'W2', '_Private', 'whatable', 'Id'])
    attributes = attributes if attributes is not None else \
        {k: rng.choice([3, -1.5, 'x', None, True]) for k in rng.sample(['a', 'b', 'conf', 'name', 'z9'], rng.randrange(0, 4))}

    def __init__(self):
        for k, v in attributes.items():
            setattr(self, k, v)
    return type(name, bases, dict(members or {}, __init__=__init__)), attributes


def inspected(name, attributes):
    return '%s(%s)' % (name, ','.join('%s=%s' % (k, ref.quote(v) if isinstance(v, str) else repr(v))
                                      for k, v in sorted(attributes.items())))


WAYS = ['method', 'inherited', 'classmethod', 'staticmethod', 'property', 'property partial', 'instance attribute',
        'instance partial', 'optional', 'variadic', 'getattr', 'callable object', 'slots', 'own id too', 'decorated',
        'decorated subclass', 'decorated instance', 'decorated function', 'decorated partial', 'whatamized class',
        'class of classmethod', 'class of staticmethod', 'metaclass', 'what of decorated with function']


def make_whatable(rng, way):
    """An object with a working provider: (object, id, change), change gives the next id after changing it."""
    import whatami as wm
    what, whatid = provided(rng)
    members, bases = {}, (object,)
    if way in ('method', 'inherited', 'own id too'):
        members['what'] = lambda self: what
        if way == 'own id too':
            members['id'] = lambda self: 'Own()'
    elif way in ('classmethod', 'class of classmethod'):
        members['what'] = classmethod(lambda cls: what)
    elif way in ('staticmethod', 'class of staticmethod'):
        members['what'] = staticmethod(lambda: what)
    elif way == 'property':
        members['what'] = property(lambda self: lambda: what)
    elif way == 'property partial':
        members['what'] = property(lambda self: functools.partial(lambda x: what, 3))
    elif way == 'optional':
        members['what'] = lambda self, x=3, *, y=4: what
    elif way == 'variadic':
        members['what'] = lambda *args, **kwargs: what
    elif way == 'getattr':
        def __getattr__(self, name):
            if name == 'what':
                return lambda: what
            raise AttributeError(name)
        members['__getattr__'] = __getattr__
    elif way == 'callable object':
        class Provider(object):
            def __call__(self):
                return what
        members['what'] = Provider()
    elif way == 'slots':
        members['__slots__'] = ['a']
        members['what'] = lambda self: what
        return type('Slotted', (object,), members)(), whatid, None
    elif way == 'metaclass':
        meta = type('Meta', (type,), {'what': lambda cls: what})
        return meta('OfMeta', (object,), {}), whatid, None
    elif way in ('decorated', 'decorated subclass'):
        cls, attributes = plain(rng)
        if attributes and any(k.startswith('_') for k in attributes):
            attributes.clear()
        cls = wm.whatable(cls)
        if way == 'decorated subclass':
            cls = type('Sub', (cls,), {})
        obj = cls()

        def change():
            obj.a = 'changed'
            return inspected(cls.__name__, dict(attributes, a='changed'))
        return obj, inspected(cls.__name__, attributes), change
    elif way == 'decorated instance':
        cls, attributes = plain(rng)
        obj = wm.whatable(cls())

        def change():
            obj.b = 'changed'
            return inspected(cls.__name__, dict(attributes, b='changed'))
        return obj, inspected(cls.__name__, attributes), change
    elif way in ('decorated function', 'decorated partial'):
        def f(x, y=3, z=None):
            return x, y, z
        if way == 'decorated function':
            return wm.whatable(f), 'f(y=3,z=None)', None
        return wm.whatable(functools.partial(f, 1, y='a')), "f(x=1,y='a',z=None)", None
    elif way == 'whatamized class':
        cls, _ = plain(rng)
        wm.whatamize_object(cls, lambda self: what)
        return cls(), whatid, None
    elif way == 'what of decorated with function':
        cls, _ = plain(rng)
        return wm.whatable(cls, whatfunc=lambda self: what)(), whatid, None
    cls, attributes = plain(rng, bases, members)
    if way.startswith('class of'):
        return cls, whatid, None
    if way == 'inherited':
        cls = type('Inheriting', (type('Between', (cls,), {}),), {})
    obj = cls()
    if way == 'instance attribute':
        obj.what = lambda: what
    elif way == 'instance partial':
        obj.what = functools.partial(lambda x: what, x=3)
    return obj, whatid, None


NOT = ['no what', 'gives str', 'gives None', 'gives duck', 'needs argument', 'needs keyword', 'fails', 'property fails',
       'value', 'what attribute', 'hostile getattr', 'hostile getattribute', 'class with method', 'class without',
       'function', 'partial', 'lambda', 'builtin', 'gives class', 'type', 'number', 'class attribute', 'abstract',
       'attribute function', 'deleted', 'decorated failing', 'decorated property fails']


def make_not_whatable(rng, way):
    """An object without a working provider: (object, inspected id or None if it is not to be judged)."""
    import whatami as wm
    from whatami import What
    members = {}
    judged = True
    if way == 'gives str':
        members['what'] = lambda self: rng.choice(['NotMe()', '', 'x'])
    elif way == 'gives None':
        members['what'] = lambda self: None
    elif way == 'gives class':
        members['what'] = lambda self: What
        judged = False
    elif way == 'gives duck':
        duck = type('What', (object,), {'id': lambda self: 'Duck()', 'name': 'Duck', 'conf': {}, 'copy': lambda self: self})
        members['what'] = lambda self: duck()
        judged = False
    elif way == 'needs argument':
        members['what'] = lambda self, x: What('Wrong', {})
    elif way == 'needs keyword':
        members['what'] = lambda self, *, x: What('Wrong', {})
    elif way == 'abstract':
        def what(self):
            raise NotImplementedError()
        members['what'] = what
        judged = False
    elif way in ('fails', 'property fails'):
        error = rng.choice(ERRORS)
        judged = error is AttributeError

        def fail(self):
            raise error('injected')
        members['what'] = fail if way == 'fails' else property(fail)
        if way == 'property fails':
            judged = False
    elif way == 'class attribute':
        members['what'] = rng.choice([3, 'me', None, {}, What('Wrong', {})])
    elif way == 'hostile getattr':
        error = rng.choice(ERRORS)

        def __getattr__(self, name):
            raise error(name)
        members['__getattr__'] = __getattr__
        judged = False
    elif way == 'hostile getattribute':
        error = rng.choice(ERRORS)

        def __getattribute__(self, name):
            raise error(name)
        return type('Hostile', (object,), {'__getattribute__': __getattribute__})(), None
    elif way == 'class with method':
        members['what'] = lambda self: What('Wrong', {})
        if rng.random() < 0.5:     # with all that decorators leave
            members['what'] = functools.wraps(rng.choice([len, wm.whatareyou, members['what'], provided]))(members['what'])
        return plain(rng, members=members)[0], None
    elif way == 'class without':
        return plain(rng)[0], None
    elif way == 'function':
        def stuff(x, y=3, *z):
            return x
        return stuff, 'stuff(y=3)'
    elif way == 'partial':
        def stuff(x, y=3):
            return x
        return functools.partial(stuff, x='a'), "stuff(x='a',y=3)"
    elif way == 'lambda':
        return (lambda x=2: x), 'lambda(x=2)'
    elif way == 'attribute function':
        def stuff(x, y=3):
            return x
        stuff.what = rng.choice([3, 'x', lambda x: What('Wrong', {})])
        return stuff, 'stuff(y=3)'
    elif way == 'builtin':
        return rng.choice([len, sum, [].append, 'x'.join]), None
    elif way == 'type':
        return rng.choice([int, object, type, What, dict, Exception]), None
    elif way == 'number':
        return rng.choice([3, 1.5, True, [1, 'a'], (), {'a': 2}, {1}, b'x', b'', bytearray(b'xy'), memoryview(b'z'), frozenset('a'), range(3), slice(1), object(), Ellipsis, NotImplemented]), None
    elif way == 'decorated failing':
        # what they say when they are decorated does not work
        cls, attributes = plain(rng)
        error = rng.choice(ERRORS)

        def fails(self):
            raise error('injected')
        provider = rng.choice([fails, lambda self: 'NotMe()', lambda self: None, lambda self, x: What('Wrong', {})])
        if rng.random() < 0.5:
            return wm.whatable(cls, whatfunc=provider)(), None
        return wm.whatable(cls(), whatfunc=provider), None
    elif way == 'decorated property fails':
        def fail(self):
            raise ZeroDivisionError('injected')
        cls, attributes = plain(rng, members={'failing': property(fail)})
        return (wm.whatable(cls)() if rng.random() < 0.5 else wm.whatable(cls())), None
    elif way == 'deleted':
        cls, attributes = plain(rng)
        obj = wm.whatable(cls())
        del obj.what
        return obj, inspected(cls.__name__, attributes)
    cls, attributes = plain(rng, members=members)
    obj = cls()
    if way in ('value', 'what attribute'):
        obj.what = rng.choice([3, 'me', None, [], What('Wrong', {}), object()])
    return obj, inspected(cls.__name__, attributes) if judged else None


def everywhere(t, obj, expected, nested):
    """All that converts objects to ids does the same."""
    import whatami as wm
    from whatami.misc import mlexp_info_helper
    from whatami.registry import WhatamiRegistry, Recorder
    t.same(t.ok('what2id', wm.what2id, obj), expected, 'wrong id', obj=obj)
    r = WhatamiRegistry()
    t.event('registry')
    t.check(t.ok('register', r.register, obj, 'nick') is obj, 'what is registered is not given back')
    t.same(r.nick2id('nick'), expected, 'wrong id in the registry', obj=obj)
    t.same(r.id2nick(expected), 'nick', 'wrong id in the registry', obj=obj)
    t.same(t.ok('nick_or_id', r.nick_or_id, obj), 'nick', 'wrong nick', obj=obj)
    t.ok('remove', r.remove, what=obj)
    t.same(t.ok('nick_or_id', r.nick_or_id, obj), expected, 'wrong id', obj=obj)
    t.same(r.list(), [], 'not removed by its configuration', obj=obj)
    rec = Recorder(id_extractor=wm.what2id)
    t.event('recorder')
    t.ok('add', rec.add, [obj], x=1)
    t.same([record['id'] for record in rec.get(expected)], [expected], 'wrong id in the recorder', obj=obj)
    t.event('mlexp_info')
    info = t.ok('mlexp_info_helper', mlexp_info_helper, 'title', data_setup=obj, model_setup=obj, eval_setup=obj, comments='c')
    t.same([info[k] for k in ('title', 'data_setup', 'model_setup', 'eval_setup', 'comments', 'fsource', 'idate')],
           ['title', expected, expected, expected, 'c', None, None], 'wrong id in the information of experiments', obj=obj)
    if nested:
        t.event('nested')
        for value, text in ((obj, expected), ([obj], '[%s]' % expected), ({'k': (obj, 1)}, "{'k':(%s,1)}" % expected)):
            t.same(t.ok('id', wm.What('W', {'v': value}).id), 'W(v=%s)' % text, 'wrong id as a value', obj=obj)


def whatables(t, rng, i):
    import whatami as wm
    way = WAYS[i % len(WAYS)]
    obj, expected, change = make_whatable(rng, way)
    before = dict(vars(obj)) if hasattr(obj, '__dict__') else None
    t.event('whatable')
    if issubclass(type(obj), type):
        t.event('class')
    t.check(t.ok('is_whatable', wm.is_whatable, obj) is True, 'a whatable is not recognised', way=way)
    everywhere(t, obj, expected, nested=True)
    t.event('obj2what')
    t.same(t.ok('obj2what', wm.obj2what, obj).id(), expected, 'wrong configuration', way=way)
    t.check(t.ok('is_whatable', wm.is_whatable, obj) is True, 'a whatable is not recognised any more', way=way)
    if before is not None:
        t.check(dict(vars(obj)) == before, 'asking changes the object', way=way, before=before, after=dict(vars(obj)))
    if change is not None:
        t.event('changed')
        everywhere(t, obj, change(), nested=True)
    t.seen((way, expected))
    t.sample('%s: %s' % (way, expected))


def not_whatables(t, rng, i):
    import whatami as wm
    way = NOT[i % len(NOT)]
    obj, expected = make_not_whatable(rng, way)
    t.event('not whatable')
    if way.startswith('hostile') or 'fails' in way:
        t.event('hostile')
        if 'fails' in way:
            t.event('failing provider')
    if way.startswith('gives') or way.startswith('needs'):
        t.event('almost')
    if issubclass(type(obj), type):
        t.event('class')
    t.check(t.ok('is_whatable', wm.is_whatable, obj) is False, 'something that is not whatable is taken as such', way=way)
    if way == 'number':
        t.event('plain value')
        t.same(t.ok('what2id', wm.what2id, obj), t.ok('whatareyou', wm.whatareyou, obj).id(), 'not the id of the inspected configuration')
    if expected is not None:
        if 'Wrong' in expected:
            return
        everywhere(t, obj, expected, nested=False)
        t.event('obj2what')
        t.same(t.ok('obj2what', wm.obj2what, obj).id(), expected, 'wrong configuration', way=way)
        t.seen((way, expected))


def others(t, rng, i):
    """None, strings, configurations, objects with ids of their own, and decorated classes."""
    import whatami as wm
    from whatami.misc import mlexp_info_helper
    from whatami.registry import WhatamiRegistry
    which = i % 6
    if which == 0:
        t.check(t.ok('what2id', wm.what2id, None) is None, 'an id for nothing')
        info = t.ok('mlexp_info_helper', mlexp_info_helper, 'title')
        t.same([info[k] for k in ('data_setup', 'model_setup', 'eval_setup')], [None] * 3, 'an id for nothing')
        t.raises('register', ValueError, WhatamiRegistry().register, None, 'nick')
        t.check(t.ok('is_whatable', wm.is_whatable, None) is False, 'nothing is whatable')
        t.event('mlexp_info')
    elif which == 1:
        s = rng.choice(['', 'f()', 'not an id', "f(x='a')", u'ñ', 'None', 'what', 'x' * 300, gen.text(rng)])
        t.event('string')
        if rng.random() < 0.4:   # strings of a subclass are strings
            s = type('Text', (str,), rng.choice([{}, {'what': lambda self: wm.What('Wrong', {})}, {'id': lambda self: 'Wrong()'},
                                                 {'what': 'x', 'id': 'y'}, {'__str__': lambda self: 'Wrong()'}]))(s)
        if hasattr(s, 'what'):
            t.same([t.ok('what2id', wm.what2id, x) for x in (s, [s][0])], [s, s], 'strings are unchanged')
            everywhere(t, s, s, nested=False)
            return
        t.check(t.ok('is_whatable', wm.is_whatable, s) is False, 'a string is whatable')
        everywhere(t, s, s, nested=False)
    elif which == 2:
        what, whatid = provided(rng)
        t.event('own id')
        everywhere(t, what, whatid, nested=True)
        t.seen(('what', whatid))
    elif which == 3:
        own = rng.choice(['Own(%d)' % rng.randrange(100), 'Own()', '', ' ', 'None'])
        members = {'id': rng.choice([lambda self: own, lambda self, x=3: own, staticmethod(lambda: own),
                                     classmethod(lambda cls: own)])}
        if rng.random() < 0.5:
            def fail(self):
                raise AttributeError('injected')
            members['what'] = rng.choice([3, 'x', lambda self, x: wm.What('Wrong', {}), fail, None])
        obj = plain(rng, members=members)[0]()
        t.event('own id')
        t.check(t.ok('is_whatable', wm.is_whatable, obj) is False, 'something that is not whatable is taken as such')
        everywhere(t, obj, own, nested=False)
        t.seen((own, sorted(members)))
    elif which == 4:
        # ids that are not
        members = {'id': rng.choice([3, 'x', lambda self, x: 'Wrong()', None])}
        cls, attributes = plain(rng, members=members)
        everywhere(t, cls(), inspected(cls.__name__, attributes), nested=False)
    else:
        cls, _ = plain(rng)
        decorated = wm.whatable(cls) if rng.random() < 0.5 else wm.whatable(cls, add_properties=False)
        if rng.random() < 0.4:
            decorated = type('Derived', (decorated,), {})
        t.event('class')
        t.check(t.ok('is_whatable', wm.is_whatable, decorated) is True, 'decorated classes are whatable')
        if rng.random() < 0.4:
            decorated.__module__ = rng.choice(['__main__', 'builtins', 'whatami.what', 'a.b.c', '_x'])
        other = type(decorated.__name__, (object,), {})
        other.__module__ = decorated.__module__
        everywhere(t, decorated, t.ok('what2id', wm.what2id, other), nested=False)
        t.event('obj2what')
        t.same(t.ok('obj2what', wm.obj2what, decorated).id(), t.ok('obj2what', wm.obj2what, other).id(),
               'a decorated class has another configuration')
        # as a value, a decorated class is a class as any other
        t.event('nested')
        t.same(t.ok('id', wm.What('W', {'v': [decorated]}).id), t.ok('id', wm.What('W', {'v': [other]}).id),
               'wrong id as a value')


def individuals(t, rng, i):
    """Objects of the same class can be whatable or not, and stop or start being so: each is what it is when asked."""
    import whatami as wm

    class Changing(object):
        def __init__(self, state, n):
            self.state, self.n = state, n

        def what(self):
            if self.state == 'fails':
                raise ValueError('no configuration')
            return {'what': lambda: wm.What('Changing', {'n': self.n}), 'none': lambda: None, 'text': lambda: 'Changing()',
                    'number': lambda: 3}[self.state]()
    if rng.random() < 0.3:
        Changing = type('Derived', (Changing,), {'__call__': lambda self, x=1: x})
    states = ['what', 'none', 'text', 'number', 'fails']
    objs = [Changing(rng.choice(states + ['what']), n) for n in range(4)]
    for _ in range(12):
        obj = rng.choice(objs)
        if rng.random() < 0.5:
            obj.state = rng.choice(states + ['what', 'what'])
        elif rng.random() < 0.2:
            obj.n += 10
        t.event('individual')
        t.check(t.ok('is_whatable', wm.is_whatable, obj) is (obj.state == 'what'), 'wrong answer', state=obj.state)
        if obj.state == 'what':
            t.same(t.ok('what2id', wm.what2id, obj), 'Changing(n=%d)' % obj.n, 'wrong id')
            t.same(t.ok('id', wm.What('f', {'x': obj}).id), 'f(x=Changing(n=%d))' % obj.n, 'wrong id as a value')
        t.same(t.ok('obj2what', wm.obj2what, obj).name, 'Changing' if obj.state == 'what' else type(obj).__name__, 'wrong configuration')
    t.seen(('individuals', [(o.state, o.n) for o in objs]))


PHASES = [('individuals', individuals, {'quick': 60, 'thorough': 2500}),
          ('whatable', whatables, {'quick': 480, 'thorough': 24000}),
          ('not whatable', not_whatables, {'quick': 500, 'thorough': 20000}),
          ('others', others, {'quick': 360, 'thorough': 12000})]
