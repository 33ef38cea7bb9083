# coding=utf-8
"""C15: ids of containers and their subclasses reflect all their contents."""
import collections
import random

from .. import gen, ref

PROPERTY = 'C15'
TECHNIQUE = ('runtime monitoring: metamorphic monitors (permuted, edited and renamed containers) and a reference renderer '
             'over the ids of containers, as values and on their own')
RULE = ('lists, tuples, dictionaries, ordered dictionaries, sets, frozensets, default dictionaries, counters, named tuples and '
        'user subclasses (plain, with attributes, with slots, of each other) over random contents; each compared with its '
        'reference rendering, permutations, edits and the same contents in other classes; distinct by id; non-trivial: not empty')
REQUIRE = {'own class': 40, 'attributes as keys': 4, 'alike': 35, 'as value': 1000, 'on its own': 1000, 'permuted': 300, 'reordered': 100, 'edited': 400, 'other class': 100,
           'empty': 25, 'base:list': 25, 'base:tuple': 25, 'base:dict': 25, 'base:odict': 25, 'base:set': 25, 'base:fset': 25,
           'base:namedtuple': 10, 'base:defaultdict': 10, 'base:counter': 10,
           'nested set': 50}
O = gen.Options(nonids=False, nan=False, classes=True)

BASES = {'list': list, 'tuple': tuple, 'dict': dict, 'odict': collections.OrderedDict, 'set': set, 'fset': frozenset,
         'defaultdict': collections.defaultdict, 'counter': collections.Counter}


def new_class(rng, base, depth=1):
    """A subclass of a builtin container: (class, attributes that it sets)."""
    name = rng.choice(['MyList', 'Things', 'Zoo', 'Bag', 'A', '_Bag', 'Bag_'])
    cls = BASES[base]
    for level in range(depth)[::-1]:
        cls = type(name if not level else rng.choice(['Base%d' % level, name, 'list', 'Other']), (cls,), {})
    return cls


def content(rng, base):
    """The contents, as a spec."""
    n = rng.choice([0, 1, 2, 3, 4, 4, 5, 12])
    if base in ('list', 'tuple', 'namedtuple'):
        return ('list', gen.elements(rng, O, 2, n))
    if base in ('set', 'fset'):
        return ('set', gen.members(rng, O, 1, n))
    keys = gen.members(rng, O, 1, n)
    if base == 'counter':
        return ('dict', [(k, ('int', rng.randrange(-2, 9))) for k in keys])
    return ('dict', [(k, gen.value(rng, O, 2) if rng.random() < 0.7 else rng.choice([('int', 0), ('list', []), ('none',), ('dict', []), ('str', ''), ('bool', False)])) for k in keys])


class Kind(object):
    """How to build a container with some contents, and how it is shown."""

    def __init__(self, rng):
        self.base = rng.choice(list(BASES) + ['namedtuple', 'list', 'tuple', 'dict', 'set', 'fset', 'odict'])
        self.attributes = {}
        self.plain = rng.random() < 0.4 and self.base != 'namedtuple'
        self.fields = None
        if self.base == 'namedtuple':
            self.cls = None
            self.name = rng.choice(['Point', 'P', 'Row'])
            self.sub = rng.random() < 0.3
        elif self.plain:
            self.cls = BASES[self.base]
            self.name = self.cls.__name__
        else:
            self.cls = new_class(rng, self.base, rng.choice([1, 1, 2]))
            self.name = self.cls.__name__
            if rng.random() < 0.3:
                self.attributes = {k: rng.choice([1, 'a', None]) for k in rng.sample(['attr', 'zzz', 'a1', 'seq'], 2)}

    def make(self, spec, rng=None):
        items = list(spec[1])
        if rng is not None and self.base not in ('list', 'tuple', 'namedtuple', 'odict'):
            rng.shuffle(items)
        if self.base == 'namedtuple':
            cls = collections.namedtuple(self.name, ['f%d' % i for i in range(len(items))])
            if self.sub:
                cls = type(self.name, (cls,), {})
            return cls(*[gen.build(s, rng) for s in items])
        if self.base in ('list', 'tuple', 'set', 'fset'):
            built = [gen.build(s, rng) for s in items]
            obj = self.cls(built)
        else:
            built = [(gen.build(k, rng), gen.build(v, rng)) for k, v in items]
            if self.base == 'defaultdict':
                obj = self.cls(list, built)
            elif self.base == 'counter':
                obj = self.cls(dict(built))
            else:
                obj = self.cls(built)
        for k, v in self.attributes.items():
            setattr(obj, k, v)
        return obj

    def seq(self, spec):
        items = spec[1]
        if self.base == 'list':
            return '[%s]' % ','.join([ref.render(s) for s in items])
        if self.base in ('tuple', 'namedtuple'):
            return '(%s)' % ','.join([ref.render(s) for s in items])
        if self.base in ('set', 'fset'):
            return ref.render(('set', items))
        if self.base == 'odict':
            return '[%s]' % ','.join(['(%s,%s)' % (ref.render(k), ref.render(v)) for k, v in items])
        return ref.render(('dict', items))

    def shown(self, spec, value):
        """Expected id as a value or on its own; None when it is not fixed by the documentation."""
        if value and self.plain and self.base in ('list', 'tuple', 'dict', 'set'):
            return self.seq(spec)
        if value and self.plain and self.base == 'fset':
            return ref.render(('fset', spec[1]))
        if self.attributes or self.base == 'defaultdict' or (self.base == 'namedtuple' and not value):
            return None
        return '%s(seq=%s)' % (self.name, self.seq(spec))


def ask(t, rng, obj, value):
    import whatami as wm
    from whatami.plugins import WhatamiPluginManager
    if value:
        t.event('as value')
        text = t.ok('build_string', WhatamiPluginManager.build_string, obj)
        nest, shown = rng.choice([(lambda v: v, '%s'), (lambda v: [v, 1], '[%s,1]'), (lambda v: {'k': v}, "{'k':%s}"),
                                  (lambda v: wm.What('g', {'y': (v,)}), 'g(y=(%s))'),
                                  (lambda v: collections.OrderedDict(o=v), "OrderedDict(seq=[('o',%s)])")])
        t.same(t.ok('id', wm.What('f', {'x': nest(obj)}).id), 'f(x=%s)' % (shown.replace('%s', '{}').format(text) if '{' not in shown
                                                                          else shown.replace('%s', text)),
               'the id of a container depends on where it is')
        return text
    t.event('on its own')
    text = t.ok('whatareyou', lambda: wm.whatareyou(obj).id())
    t.same(t.ok('what2id', wm.what2id, obj), text, 'ids of containers do not agree')
    t.same(t.ok('obj2what', lambda: wm.obj2what(obj).id()), text, 'ids of containers do not agree')
    return text


def containers(t, rng, i):
    kind = Kind(rng)
    spec = content(rng, kind.base)
    if not gen.valid(spec):
        return
    if spec[0] == 'dict' and not kind.plain and rng.random() < 0.5:    # attributes named as the keys
        names = [k[1] for k, _ in spec[1] if k[0] == 'str' and k[1].isidentifier() and k[1].isalpha()]
        kind.attributes.update({k: rng.choice([1, 'a', None]) for k in names if not hasattr(kind.cls, k)})
        if names:
            t.event('attributes as keys')
    t.event('base:' + kind.base)
    if not spec[1]:
        t.event('empty')
    obj = kind.make(spec)
    texts = {}
    for value in (True, False):
        text = texts[value] = ask(t, rng, obj, value)
        expected = kind.shown(spec, value)
        if expected is not None:
            t.same(text, expected, 'wrong id of a container', kind=kind.__dict__)
        if not (value and kind.plain and kind.base in ('list', 'tuple', 'dict', 'set', 'fset')):
            t.check(text.startswith(kind.name + '('), 'the class does not show in the id', id=text, cls=kind.name)
        for s in spec[1]:
            for x in (s if spec[0] == 'dict' else [s]):
                t.check(ref.render(x) in text, 'an element does not show in the id', id=text, element=x)
        for k, v in kind.attributes.items():
            if spec[0] == 'dict':
                pass
        for _ in range(2):
            t.event('permuted')
            t.same(ask(t, rng, kind.make(spec, random.Random(rng.random())), value), text,
                   'equal contents with different ids', spec=spec, kind=kind.__dict__)
        # order
        if len(spec[1]) > 1:
            items = list(spec[1])
            rng.shuffle(items)
            if [repr(x) for x in items] != [repr(x) for x in spec[1]]:
                t.event('reordered')
                other = ask(t, rng, kind.make((spec[0], items)), value)
                if kind.base in ('list', 'tuple', 'namedtuple', 'odict'):
                    one = [ref.norm_spec(x) if spec[0] != 'dict' else tuple(map(ref.norm_spec, x)) for x in spec[1]]
                    two = [ref.norm_spec(x) if spec[0] != 'dict' else tuple(map(ref.norm_spec, x)) for x in items]
                    t.check((other != text) == (one != two), 'order should matter', spec=spec, items=items, id=text)
                else:
                    t.same(other, text, 'order should not matter', spec=spec, items=items)
        # contents
        for _ in range(3):
            edited = gen.edit(rng, spec)
            if edited[0] != spec[0] or not gen.valid(edited):
                continue
            if kind.base == 'counter' and any(v[0] != 'int' for _, v in edited[1]):
                continue
            t.event('edited')
            other = ask(t, rng, kind.make(edited), value)
            ordered = kind.base == 'odict'
            same = ref.norm_spec(edited) == ref.norm_spec(spec) and (
                not ordered or [ref.norm_spec(k) for k, _ in edited[1]] == [ref.norm_spec(k) for k, _ in spec[1]])
            t.check((other == text) == same, 'same contents, different ids' if same else 'different contents, same id',
                    id=text, other=other, edited=edited, spec=spec)
        # class
        other = Kind(rng)
        if other.base == kind.base or (spec[0] == 'dict' and other.base in ('dict', 'odict', 'defaultdict')) or \
                (kind.base in ('list', 'tuple') and other.base in ('list', 'tuple', 'namedtuple')):
            if other.name != kind.name:
                t.event('other class')
                t.check(ask(t, rng, other.make(spec), value) != text, 'containers of different classes with the same id', id=text)
    if spec[1]:
        t.seen((kind.base, texts[True], texts[False]))
        t.sample('%s / %s' % (texts[True][:250], texts[False][:250]))


def own_classes(t, rng, i):
    """Classes as elements, also that of the container."""
    from whatami import What
    base = rng.choice(['list', 'tuple', 'set', 'fset', 'dict'])
    cls = new_class(rng, base)
    others = rng.sample([1, 'a', (), list, tuple, dict, set, frozenset, object, None], rng.randrange(0, 4))
    elements = others + [rng.choice([cls, cls, BASES[base], new_class(rng, base)])]
    rng.shuffle(elements)
    where = elements.index([e for e in elements if e not in others][0]) if set(map(id, elements)) - set(map(id, others)) else 0
    show = lambda e: {1: '1', 'a': "'a'", (): '()', None: 'None'}[e] if not isinstance(e, type) else str(e)
    if base == 'dict':
        obj = cls([('k%d' % n, e) for n, e in enumerate(elements)])
        seq = '{%s}' % ','.join(["'k%d':%s" % (n, show(e)) for n, e in enumerate(elements)])
    else:
        obj = cls(elements)
        texts = [show(e) for e in elements]
        seq = {'list': '[%s]', 'tuple': '(%s)'}.get(base, '{%s}') % ','.join(texts if base in ('list', 'tuple') else sorted(set(texts)))
    if base in ('set', 'fset') and len(set(elements)) != len({show(e) for e in elements}):
        return
    t.event('own class')
    t.same(t.ok('id', What('f', {'x': obj}).id), 'f(x=%s(seq=%s))' % (cls.__name__, seq), 'wrong id of a container of classes', where=where)
    t.seen(('own class', seq))


class Thing(object):
    pass


def nested(t, rng, i):
    """Containers inside containers, of any class."""
    import whatami as wm

    def grow(depth, hashable=False):
        if depth == 0:
            s = gen.atom(rng, O, hashable)
            return gen.build(s), ref.render(s)
        base = rng.choice(['tuple', 'tuple', 'fset'] if hashable else ['list', 'tuple', 'dict', 'odict', 'what', 'set', 'fset'])
        inner = [grow(depth - 1, hashable or base in ('set', 'fset')) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 3]))]
        if base in ('set', 'fset'):
            t.event('nested set')
            plain = rng.random() < 0.5
            cls = BASES[base] if plain else new_class(rng, base)
            members, texts = set(), []
            for x, s in inner:
                if x not in members:
                    members.add(x)
                    texts.append(s)
            seq = '{%s}' % ','.join(sorted(texts)) if texts else 'set()'
            if plain and base == 'fset':
                return cls(members), 'frozenset(%s)' % (seq if texts else '')
            return cls(members), seq if plain else '%s(seq=%s)' % (cls.__name__, seq)
        if base == 'what':
            return wm.What('n', {'k%d' % j: o for j, (o, _) in enumerate(inner)}), \
                'n(%s)' % ','.join(['k%d=%s' % (j, s) for j, (_, s) in enumerate(inner)])
        plain = rng.random() < 0.5
        cls = BASES[base] if plain else new_class(rng, base)
        if base in ('list', 'tuple'):
            o, c = '[]' if base == 'list' else '()'
            obj, seq = cls([x for x, _ in inner]), o + ','.join([s for _, s in inner]) + c
        elif base == 'odict':
            plain = False
            obj = cls([('k%d' % j, x) for j, (x, _) in reversed(list(enumerate(inner)))])
            seq = '[%s]' % ','.join(["('k%d',%s)" % (j, s) for j, (_, s) in reversed(list(enumerate(inner)))])
        else:
            obj = cls([('k%d' % j, x) for j, (x, _) in reversed(list(enumerate(inner)))])
            seq = '{%s}' % ','.join(["'k%d':%s" % (j, s) for j, (_, s) in enumerate(inner)])
        return obj, seq if plain else '%s(seq=%s)' % (cls.__name__, seq)
    obj, text = grow(rng.choice([2, 3, 4, 6]))
    t.event('as value')
    t.same(t.ok('id', wm.What('f', {'x': obj}).id), 'f(x=%s)' % text, 'wrong id of nested containers')
    thing = Thing()
    thing.attr = obj
    t.same(t.ok('what2id', wm.what2id, thing), 'Thing(attr=%s)' % text, 'wrong id of nested containers')
    t.seen(('nested', text))


def alike(t, rng, i):
    """Different elements that show the same are different elements."""
    from whatami import What
    base = rng.choice(['set', 'fset', 'list', 'tuple', 'dict', 'odict', 'set', 'fset'])
    cls = BASES[base] if rng.random() < 0.5 else new_class(rng, base)
    make, shown = rng.choice([(lambda: lambda: 1, 'lambda()'), (lambda: (lambda x=1: x), 'lambda(x=1)'), (Thing, 'Thing()')])

    def whatid(n, m):
        elements = [make() for _ in range(n)] + list(range(m))
        if base in ('dict', 'odict'):
            return t.ok('id', What('f', {'x': cls([(e, 0) for e in elements])}).id)
        return t.ok('id', What('f', {'x': cls(elements)}).id)
    n, m = rng.randrange(1, 5), rng.randrange(0, 3)
    t.event('alike')
    one = whatid(n, m)
    t.same(one.count(shown), n, 'not all the elements show in the id', id=one)
    t.same(whatid(n, m), one, 'equal contents with different ids')
    for other in {n - 1, n + 1, 2 * n}:
        t.check(whatid(other, m) != one, 'different contents with the same id', id=one, n=n, other=other)
    t.seen(('alike', base, one))


PHASES = [('alike', alike, {'quick': 60, 'thorough': 1500}),
          ('own classes', own_classes, {'quick': 80, 'thorough': 2000}),
          ('containers', containers, {'quick': 420, 'thorough': 16000}),
          ('nested', nested, {'quick': 150, 'thorough': 5000})]
