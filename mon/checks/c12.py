# coding=utf-8
"""C12: whatable objects report exactly their configured attributes."""
from .. import gen, sizes

PROPERTY = 'C12'
TECHNIQUE = ('runtime monitoring: configurations inferred along random histories over generated class hierarchies, compared '
             'with a model of where each attribute lives')
RULE = ('generated hierarchies mixing dictionaries, slots (set, unset, string, redefined), properties, class attributes, '
        'methods and __call__; several instances per hierarchy, whose attributes change between requests made by direct '
        'inspection, decorated classes (redecorated in subclasses), decorated instances and coercion, with random '
        'options; distinct by configuration; non-trivial: at least two sources or an excluded attribute')
REQUIRE = {'large sizes': 1, 'whatareyou': 250, 'class.what': 200, 'instance.what': 60, 'obj2what': 100, 'config_dict_for_object': 100,
           'trim_dict': 300, 'source:slots': 130, 'source:dict': 200, 'source:properties': 200, 'source:class': 100,
           'unset slot': 50, 'changed': 300, 'callable instance': 50, 'excluded': 300, 'inherited what': 50, 'refused': 150, 'class changed': 60, 'flagged': 40}

NAMES = ['a', 'x', 'b', 'ab', 'abc_', '_p', 'x1', 'what_', 'whatever', 'n_jobs', 'Z', 'zeta', '_hid_', 'c_d', 'ba', 'verbose', 'name', 'conf', 'id', 'out_name']
FALLBACK = {name: 'fallback of ' + name for name in NAMES}
PROPS = ['b', 'pp', 'zeta', 'prop_', '_prop', 'ab', 'aprop']


class Value(object):
    """Values are recognised by identity."""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 'Value(%d)' % self.n


class OwnProperty(property):
    """Properties can be specialised."""


class Computed(object):
    """Something that behaves as a property."""

    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset

    def __get__(self, obj, cls=None):
        return self if obj is None else self.fget(obj)

    def __set__(self, obj, value):
        if self.fset is None:
            raise AttributeError('read only')
        self.fset(obj, value)


class Hierarchy(object):
    def __init__(self, rng):
        self.classes = []
        self.info = {}      # class -> {attribute: 'slot', 'property' or 'class'}
        self.options = {}   # class -> options of its decoration
        for n in range(rng.randrange(1, 5)):
            self.add(rng, n)

    def add(self, rng, n):
        kinds, ns = {}, {}
        slots = None
        if rng.random() < 0.5:
            slots = rng.sample(NAMES, rng.randrange(0, 4))
            for k in slots:
                kinds[k] = 'slot'
            ns['__slots__'] = slots[0] if len(slots) == 1 and rng.random() < 0.5 else rng.choice([tuple, list])(slots)
        for k in rng.sample(PROPS, rng.randrange(0, 3)):
            if k not in kinds:
                kinds[k] = 'property'
                ns[k] = self.make_property(rng, n, k)
        for k in rng.sample(NAMES, rng.randrange(0, 3)):
            if k not in kinds and k not in ('a', 'x'):
                kinds[k] = 'class'
                ns[k] = Value(1000 + n)
        if rng.random() < 0.3:
            kinds['method'] = 'class'
            ns['method'] = lambda self: 33
        if rng.random() < 0.25:
            ns['__call__'] = lambda self, y=3: 34
        if rng.random() < 0.12:
            ns['__getattr__'] = self.fallback
        if self.classes and rng.random() < 0.8:
            bases = tuple(rng.sample(self.classes, min(len(self.classes), rng.choice([1, 1, 1, 2]))))
        else:
            bases = (object,)
        name = rng.choice(['A', 'Klass', '_Under', 'Model_', 'What2']) + str(n)
        ns['__qualname__'] = rng.choice([name, 'Outer.' + name, 'Outer.Inner.' + name, 'f.<locals>.' + name, 'f.<locals>.Outer.' + name])
        ns['__module__'] = rng.choice([__name__, 'somewhere.else', '__main__', 'builtins'])
        for bases in (bases, bases[:1]):
            try:
                cls = type(name, bases, dict(ns))
                break
            except TypeError:   # incompatible bases
                pass
        else:
            raise AssertionError('wrong hierarchy')
        self.classes.append(cls)
        self.info[cls] = kinds

    def reform(self, t, rng):
        """The classes can change too."""
        cls = rng.choice(self.classes)
        k = rng.choice(['late', 'later', 'pp', 'aprop', '_late'])
        kind = self.info[cls].get(k)
        if kind is None or rng.random() < 0.6:
            self.info[cls][k] = rng.choice(['property', 'property', 'class'])
            self.reforms += 1
            setattr(cls, k, self.make_property(rng, 100 + self.reforms, k) if self.info[cls][k] == 'property' else Value(2000 + self.reforms))
        else:
            delattr(cls, k)
            del self.info[cls][k]
        t.event('class changed')

    reforms = 0

    @staticmethod
    def fallback(obj, name):
        """Gives values to attributes that the object does not have."""
        if name not in NAMES:
            raise AttributeError(name)
        return FALLBACK[name]

    @staticmethod
    def make_property(rng, n, k):
        def getter(self):
            return 'property', n, k, getattr(self, 'a', None), getattr(self, 'x', None)
        if rng.random() < 0.3:
            constant = rng.choice([None, None, 0, '', (), False])

            def getter(self):
                return constant
        cls = rng.choice([property, property, property, OwnProperty, Computed])
        return cls(getter, lambda self, v: None) if rng.random() < 0.3 else cls(getter)

    def kind(self, cls, name):
        for c in cls.__mro__:
            if name in self.info.get(c, ()):
                return self.info[c][name], c
        return None, None

    def has_dict(self, cls):
        return any('__slots__' not in c.__dict__ for c in cls.__mro__ if c is not object)

    def names(self, cls):
        return {k for c in cls.__mro__ for k in self.info.get(c, ())}


class Instance(object):
    """An instance and where its attributes live."""

    def __init__(self, h, cls):
        self.h, self.cls = h, cls
        self.real = cls()
        self.dict, self.slots = {}, {}
        self.options = None

    def change(self, rng):
        name = rng.choice(NAMES + ['fresh', 'other'])
        kind, _ = self.h.kind(self.cls, name)
        if kind == 'property':
            if not self.h.has_dict(self.cls):
                return False
            # hidden by the property
            self.dict[name] = self.real.__dict__[name] = rng.choice([Value(rng.randrange(1000)), None, 0])
            return True
        where = self.slots if kind == 'slot' else self.dict if self.h.has_dict(self.cls) else None
        if where is None:
            return False
        if name in where and rng.random() < 0.4:
            delattr(self.real, name)
            del where[name]
        else:
            value = rng.choice([Value(rng.randrange(1000)), None, 0, [], '', 'text', {'a': 1}, (), False])
            setattr(self.real, name, value)
            where[name] = value
        return True

    def state(self):
        out = [(k, id(v)) for k, v in sorted(getattr(self.real, '__dict__', {}).items())]
        for k in sorted(self.h.names(self.cls)):
            if self.h.kind(self.cls, k)[0] == 'slot':
                out.append((k, id(getattr(self.real, k, NAMES))))
        return out, sorted(dir(self.cls)), [(k, id(v)) for c in self.cls.__mro__ if c in self.h.info
                                            for k, v in sorted(c.__dict__.items()) if not k.startswith('__')]

    def get(self, kind, name):
        """Value of a slot or property."""
        return self.slots[name] if kind == 'slot' else getattr(self.real, name)

    def expected(self, t, add_dict=True, add_slots=True, add_properties=True, add_class=False,
                 exclude_prefix='_', exclude_postfix='_', excludes=('what',), trim=True):
        conf = {}
        if add_class:
            for k in self.h.names(self.cls):
                conf[k] = getattr(self.cls, k)
            t.event('source:class')
        if add_dict:
            conf.update(self.dict)
            if self.dict:
                t.event('source:dict')
        for flag, wanted, source in ((add_slots, 'slot', 'slots'), (add_properties, 'property', 'properties')):
            for k in self.h.names(self.cls) if flag else ():
                kind = self.h.kind(self.cls, k)[0]
                if kind == wanted:
                    if kind == 'slot' and k not in self.slots:
                        t.event('unset slot')
                        continue
                    conf[k] = self.get(kind, k)
                    t.event('source:' + source)
        return trimmed(conf, exclude_prefix, exclude_postfix, excludes) if trim else conf


def trimmed(conf, exclude_prefix, exclude_postfix, excludes):
    out = {}
    for k, v in conf.items():
        if exclude_prefix and k[:len(exclude_prefix)] == exclude_prefix:
            continue
        if exclude_postfix and len(k) >= len(exclude_postfix) and k[-len(exclude_postfix):] == exclude_postfix:
            continue
        if any(k == e for e in excludes):
            continue
        out[k] = v
    return out


def options(rng, add_class=True):
    out = {}
    if rng.random() < 0.5:
        for k in ('add_dict', 'add_slots', 'add_properties') + (('add_class',) if add_class else ()):
            if rng.random() < 0.5:
                out[k] = rng.random() < 0.5
    if rng.random() < 0.5:
        if rng.random() < 0.5:
            out['exclude_prefix'] = rng.choice(['_', '', None, 'a', 'ab', 'wh', 'x1', '_hid'])
        if rng.random() < 0.5:
            out['exclude_postfix'] = rng.choice(['_', '', None, 'a', 'b', 'd', 'erbose', 'id_'])
        if rng.random() < 0.5:
            names = rng.sample(NAMES, rng.randrange(0, 4)) + (['what'] if rng.random() < 0.7 else [])
            out['excludes'] = rng.choice([tuple, list, set, frozenset])(names)
    return out


def once(rng, opts):
    """The names to exclude can be given by any iterable, also these that can be iterated only once."""
    if 'excludes' in opts and rng.random() < 0.4:
        return dict(opts, excludes=(k for k in opts['excludes']))
    return opts


def hidden(k):
    """Names that python adds, or that whatami adds to provide configurations."""
    return (k.startswith('__') and k.endswith('__')) or k == 'what'


def compare(t, conf, expected, where, inst, opts):
    # the instrumentation of the classes is not modelled
    conf = {k: v for k, v in conf.items() if not hidden(k)}
    t.same(sorted(conf), sorted(expected), 'wrong attributes in the configuration by %s' % where, options=opts,
           cls=inst.cls.__mro__, info=[inst.h.info.get(c) for c in inst.cls.__mro__])
    for k, v in expected.items():
        t.check(conf[k] is v or (type(conf[k]) is type(v) and conf[k] == v), 'wrong value of an attribute by %s' % where,
                attribute=k, got=conf[k], expected=v, options=opts)


def ask(t, rng, inst):
    import whatami as wm
    before = inst.state()
    h, cls = inst.h, inst.cls
    ways = ['whatareyou', 'whatareyou', 'obj2what', 'config']
    decorated = [c for c in cls.__mro__ if c in h.options]
    if decorated:
        ways += ['class'] * 4
    if inst.options is not None:
        ways += ['instance'] * 3
    way = rng.choice(ways)
    opts = options(rng, add_class=way != 'obj2what')
    if way == 'config':
        opts = {k: v for k, v in opts.items() if k.startswith('add_')}
        conf = t.ok('config_dict_for_object', wm.config_dict_for_object, inst.real, **opts)
        compare(t, conf, inst.expected(t, trim=False, **opts), way, inst, opts)
    else:
        name = cls.__name__
        if way == 'whatareyou':
            if rng.random() < 0.2:
                name = opts['name_override'] = 'Other'
            w = t.ok('whatareyou', wm.whatareyou, inst.real, **once(rng, opts))
        elif way == 'obj2what':
            w = t.ok('obj2what', wm.obj2what, inst.real, force_inspect=True, **once(rng, opts))
        else:
            opts = inst.options if inst.options is not None else h.options[decorated[0]]
            w = t.ok('instance.what' if inst.options is not None else 'class.what', lambda: inst.real.what())
            if inst.options is None and decorated[0] is not cls:
                t.event('inherited what')
            t.check(t.ok('obj2what', wm.obj2what, inst.real) == w, 'coercion and what() do not agree')
            t.check(t.ok('is_whatable', wm.is_whatable, inst.real), 'it should be whatable')
        t.check(isinstance(w, wm.What), 'not a configuration')
        t.same(w.name, name, 'wrong name of the configuration', way=way)
        t.same((w.out_name, set(w.non_id_keys)), (None, set()), 'wrong configuration', way=way)
        o = {k: v for k, v in opts.items() if k != 'name_override'}
        expected = inst.expected(t, **o)
        compare(t, w.conf, expected, way, inst, opts)
        if len(expected) < len(inst.expected(t, trim=False, **{k: v for k, v in o.items() if k.startswith('add')})):
            t.event('excluded')
        conf = w.conf
    conf['intruder'] = 1    # what is given is independent of the object
    t.same(inst.state(), before, 'asking for the configuration modifies the object', way=way, options=opts)
    if callable(inst.real):
        t.event('callable instance')
    if len(conf) > 2:
        t.seen((way, cls.__name__, sorted(conf), sorted(map(str, opts.items())), repr(sorted(conf.items(), key=lambda kv: kv[0]))[:300]))
        t.sample('%s %s: %s' % (way, opts, sorted(conf)))


def histories(t, rng, i):
    import whatami as wm
    h = Hierarchy(rng)
    for cls in rng.sample(h.classes, len(h.classes)):
        if rng.random() < 0.5:
            decorate(t, rng, h, cls)
    insts = [Instance(h, rng.choice(h.classes)) for _ in range(rng.randrange(1, 5))]
    for _ in range(rng.randrange(8, 20)):
        inst = rng.choice(insts)
        op = rng.random()
        if op < 0.4:
            if inst.change(rng):
                t.event('changed')
        elif op < 0.9:
            ask(t, rng, inst)
        elif op < 0.93:
            h.reform(t, rng)
        elif op < 0.96:
            if h.has_dict(inst.cls):
                opts = options(rng)
                got = t.ok('whatable instance', wm.whatable, inst.real, **once(rng, opts))
                t.check(got is inst.real, 'decorating an instance should give it back')
                inst.options = opts
        else:
            decorate(t, rng, h, rng.choice(h.classes))
    for inst in insts:
        ask(t, rng, inst)
        # decorating instances is their own business
        if inst.options is None and not any(c in h.options for c in inst.cls.__mro__):
            t.check(not t.ok('is_whatable', wm.is_whatable, inst.real), 'an object became whatable by itself')


def decorate(t, rng, h, cls):
    import whatami as wm
    opts = options(rng)
    if rng.random() < 0.5:
        got = t.ok('whatable class', wm.whatable, cls, **once(rng, opts))
    elif rng.random() < 0.5:
        decorator = t.ok('whatable', lambda: wm.whatable(**once(rng, opts)))     # that can be used several times
        t.ok('decorator', decorator, type('Other', (object,), {}))().what()
        got = t.ok('whatable class', decorator, cls)
    else:
        got = t.ok('whatable class', lambda: wm.whatable(**once(rng, opts))(cls))
    t.check(got is cls, 'decorating a class should give it back')
    h.options[cls] = opts
    t.check(t.ok('is_whatable', wm.is_whatable, cls), 'decorated classes are whatable')


def whatfuncs(t, rng, i):
    """The configuration provider given wins over any option."""
    import whatami as wm
    cls = type('W', (object,), {})
    name = gen.pyident(rng)

    def provider(self):
        return wm.What(name, {'only': self.value})
    how = i % 3
    obj = cls()
    obj.value = [i]
    if how == 0:
        wm.whatable(cls, whatfunc=provider, **options(rng))
    elif how == 1:
        wm.whatable(whatfunc=provider, **options(rng))(cls)
    else:
        t.check(wm.whatable(obj, whatfunc=provider, **options(rng)) is obj, 'decorating an instance should give it back')
    w = t.ok('class.what', lambda: obj.what())
    t.check(w.name == name and list(w.conf) == ['only'] and w.conf['only'] is obj.value, 'wrong configuration provider')
    obj.value = 'changed'
    t.same(t.ok('class.what', lambda: obj.what()).conf, {'only': 'changed'}, 'the changes do not show')
    t.check(t.ok('is_whatable', wm.is_whatable, obj), 'it should be whatable')


class Slotted(object):
    __slots__ = ('a',)


def members(cls):
    return {k: v for k, v in vars(cls).items() if k not in ('__dict__', '__weakref__')}


def refusals(t, rng, i):
    """What has something else called what, or cannot have it, is refused and left as it was."""
    import whatami as wm
    t.event('refused')
    opts = options(rng)
    how = i % 4
    if how == 0:      # things without place for it
        thing = rng.choice([3, 'a', 2.5, None, (), [], {}, object(), Slotted(), int, dict, object, type, len, [].append, b''])
        if thing is not None:
            shown = repr(thing)
            t.raises('whatable', Exception, wm.whatable, thing, **opts)
            t.same(repr(thing), shown, 'a refused object changes')
        return
    def what(self, *x):
        if len(x) != 1:
            raise TypeError('it needs something')
        return x
    mine = rng.choice([what, 3, 'what', None, [3], property(lambda self: 'what'), staticmethod(what), classmethod(what)])
    bases = (type('Base', (object,), {'what': mine}),) if rng.random() < 0.3 else (object,)
    cls = type('Mine', bases, dict({} if bases[0] is not object else {'what': mine}, x=3))
    obj = cls()
    obj.y = 4
    before, shown = members(cls), dict(obj.__dict__)
    thing = rng.choice([cls, obj])
    t.raises('whatable', Exception, (lambda: wm.whatable(**opts)(thing)) if rng.random() < 0.5 else (lambda: wm.whatable(thing, **opts)))
    t.same(members(cls), before, 'a refused class changes')
    t.same(obj.__dict__, shown, 'a refused object changes')
    t.check(not t.ok('is_whatable', wm.is_whatable, thing), 'what is refused becomes whatable')
    t.seen(('refused', how, repr(mine)[:20], thing is cls, bases[0] is object))
    if how == 1:      # classes with a provider of their own can be flagged
        t.event('flagged')

        def provider(self):
            return wm.What('mine', {'y': self.y})
        cls = type('Own', (object,), {'what': provider})
        t.raises('whatable', Exception, wm.whatable, cls, **opts)
        t.check(not t.ok('is_whatable', wm.is_whatable, cls), 'a class with a method is not a decorated class')
        t.check(t.ok('whatable', wm.whatable, cls, force_flag_as_whatami=True, **opts) is cls, 'flagging should give the class')
        t.check(cls.what is provider, 'flagging changes the provider')
        t.check(t.ok('is_whatable', wm.is_whatable, cls), 'a flagged class should be whatable')
        obj = cls()
        obj.y = rng.randrange(9)
        t.same(t.ok('what', lambda: obj.what()).id(), 'mine(y=%d)' % obj.y, 'flagging changes the configuration')
        t.check(t.ok('is_whatable', wm.is_whatable, obj), 'instances of a flagged class should be whatable')


def trimming(t, rng, i):
    import whatami as wm
    keys = NAMES + PROPS + ['', '_', '__', 'a_', '_a', 'what', 'aWhat', 'whata', u'\xe9', '9']
    d = {k: Value(n) for n, k in enumerate(rng.sample(keys, rng.randrange(0, 12)))}
    opts = {k: v for k, v in options(rng).items() if k.startswith('exclude')}
    for k in ('exclude_prefix', 'exclude_postfix'):
        if k in opts and rng.random() < 0.3:
            opts[k] = rng.choice(keys)
    before = list(d.items())
    got = t.ok('trim_dict', wm.trim_dict, d, **once(rng, opts))
    full = dict(dict(exclude_prefix='_', exclude_postfix='_', excludes=('what',)), **opts)
    expected = trimmed(d, **full)
    t.same(sorted(got.items(), key=lambda kv: kv[0]), sorted(expected.items(), key=lambda kv: kv[0]), 'wrong trimming',
           keys=sorted(d), options=opts)
    t.check(got is not d, 'trimming should give a copy')
    t.same(list(d.items()), before, 'trimming modifies the dictionary')
    if 0 < len(expected) < len(d):
        t.seen(('trim', sorted(d), sorted(map(str, full.items()))))


PHASES = [('larger sizes', sizes.attributes, {'quick': 2, 'thorough': 24}),
          ('histories', histories, {'quick': 260, 'thorough': 12000}),
          ('trimming', trimming, {'quick': 400, 'thorough': 10000}),
          ('whatfuncs', whatfuncs, {'quick': 60, 'thorough': 500}),
          ('refusals', refusals, {'quick': 200, 'thorough': 3000})]
