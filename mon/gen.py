# coding=utf-8
"""Generation of configurations as specs (plain trees), and construction of the real objects from them.

A spec is a tuple whose first element is its kind:
  ('none',) ('bool', b) ('int', n) ('float', f) ('str', s)
  ('list', [spec]) ('tuple', [spec]) ('dict', [(spec, spec)]) ('set', [spec]) ('fset', [spec])
  ('class', importable class)
  ('what', name, out_name or None, [(key, spec)], [non id keys])
  ('whatable', flavour, class name, [(attribute, spec)])      an object with a what method
  ('func', name, [(param, spec or None)], [(kwonly param, spec or None)])    a python function with these defaults
  ('partial', func spec, [positional specs], [(param, spec)])
"""
import collections
import datetime
import decimal
import fractions
import unicodedata
from functools import partial

from . import literals

IDS = ['x', 'y', 'z', 'a', 'b', 'B', 'A1', 'aa', 'a_b', 'alpha', 'n_jobs', 'verbose', 'k1', 'k10', 'k2', '_p', 'q_',
       'inf', 'infinity', 'nan', 'nano', 'None_', 'NoneType', 'Truer', 'Falsey', 'true', 'none', 'e5', 'seq', 'name',
       'conf', 'what', 'id', 'out', 'hash', 'cls', 'klass', 'Z', 'zz', 'maxlength', 'o0', 'random_state', 'seed']
NAMES = ['f', 'g', 'RFC', 'rfc', 'A', 'B', 'Model', 'lambda', 'normalize', 'information', 'infer', 'nanmean', 'NoneSuch',
         'TrueNorth', 'FalsePositive', 'setter', 'frozensetter', 'classy', '_private', 'x_', 'C3PO', 'SVC', 'inf', 'nan']
CHARS = list("abzAZ019 _-+.,;:=()[]{}<>#\"/%@!?*&|^~`$") + ['\t', '\n', u'\xe9', u'\u6f22', u'\U0001f600', u'\xa0', u'\u2028',
                                                           '\r', '\x0b', '\x0c', '\x00', '\x1b', '\x7f', u'\x85', u'\u0301', u'\xdf',
                                                           u'\u0130', u'\u212b', u'\ufb01', u'\u200b', u'\ufeff', u'\xb5', u'\u03bc',
                                                           u'\ud800', u'\udbff']  # no pairs: they would be one character after some round trips
TOKENS = ["'", "\\'", "\\", "\\\\", "None", "True", "inf", "nan", "f(x=1)", "a='b'", ",", ")", "(", "={", "set()",
          '\r\n', u'e\u0301', u'\xe9', u'A\u030a', u'\uff21', "\\x41", "\\u0041", "%41", "&amp;", "+", "%s", "{0}", "${x}", "~",
          "<class 'int'>", "out=", "#", " at 0x7f", "  ", "\\n", "-1", "1e5", "{}", "frozenset()", "''", "\\\\'", "x=1,y=2"]
INTS = [0, 1, -1, 2, 3, 7, 10, 33, 100, -5, 255, 2 ** 31, 2 ** 63, -2 ** 64, 10 ** 30, 2 ** 53 + 1, 256, 257, 1000000,
        10 ** 16 + 1, -10 ** 9, 2 ** 200 + 1]
FLOATS = [0.0, 1.0, -1.0, 0.1, -0.5, 2.5, 1e-5, 1e22, 1.5e300, -3e-300, 5e-324, 1e16, 123456.789, 1 / 3.,
          float('inf'), float('-inf'), 1e100, 3.14159, 1e15, 1e17, 100000.0, 0.30000000000000004, 1.7976931348623157e308,
          2.2250738585072014e-308, 1e-4, 9007199254740993.0, 0.1 + 0.7]
LENGTHS = [31, 32, 33, 63, 65, 80, 100, 127, 129, 200, 255, 256, 257, 300, 512, 1000, 1025, 2049, 4097]
CLASSES = [collections.OrderedDict, collections.Counter, datetime.date, decimal.Decimal, fractions.Fraction,
           dict, str, list, bytes, ValueError, bool, object, type]


def odd_trailing(s):
    """Does the string end in an odd number of backslashes? (known finding: these ids cannot be parsed)"""
    return (len(s) - len(s.rstrip('\\'))) % 2 == 1


def ident(rng):
    r = rng.random()
    if r < 0.75:
        return rng.choice(IDS)
    if r < 0.76:
        return rng.choice(['long_', 'Q', 'a1']) * rng.choice([7, 13, 22, 33, 65])
    first = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_'
    return rng.choice(first) + ''.join(rng.choice(first + '0123456789') for _ in range(rng.randrange(0, 7)))


PYWORDS = {'and', 'as', 'assert', 'async', 'await', 'break', 'class', 'continue', 'def', 'del', 'elif', 'else', 'except',
           'finally', 'for', 'from', 'global', 'if', 'import', 'in', 'is', 'lambda', 'nonlocal', 'not', 'or', 'pass',
           'raise', 'return', 'try', 'while', 'with', 'yield', 'None', 'True', 'False', 'print', 'exec'}


def pyident(rng):
    while True:
        name = ident(rng)
        if name not in PYWORDS and not name.startswith('__'):
            return name


def name(rng):
    if rng.random() < 0.7:
        return rng.choice(NAMES)
    while True:
        n = ident(rng)
        if n not in ('set', 'frozenset'):  # set() is an empty set
            return n


SUBCLASSES = True   # some strings can be of a subclass (not for the checks that need exact types)


class Text(str):
    """Strings as any other."""

    def __str__(self):
        return 'the text'


def text(rng, trailing=False):
    s = _text(rng, trailing)
    return Text(s) if SUBCLASSES and rng.random() < 0.03 else s


def _text(rng, trailing):
    r = rng.random()
    if r > 0.98 and literals.TEXTS:    # what the code mentions
        s = rng.choice(literals.TEXTS) + rng.choice(['', '', '', ' ', 'a'])
    elif r < 0.015:    # long
        n = rng.choice(LENGTHS) + rng.randrange(40)
        if rng.random() < 0.4:
            n = rng.choice(literals.sizes(9, 70000) or [n])
        chunk = rng.choice(['a', 'word ', "it's ", 'x=1,', '0123456789', '\\n', u'\xe9', '""', '(', "f(a='b')"])
        s = (chunk * n)[:n] + rng.choice(['', ' ', "'", 'end', u'\u6f22', '\n'])
    elif r < 0.08:
        s = ''
    elif r < 0.45:
        s = rng.choice(['hi', 'gini', 'auto', 'salty-lollypops', "cuckoo's nest", 'euro', 'a b', ' lead', 'trail ', '0.5'])
    else:
        s = u''.join(rng.choice(TOKENS) if rng.random() < 0.4 else rng.choice(CHARS)
                     for _ in range(rng.randrange(1, 7)))
    if not trailing and odd_trailing(s):
        s += rng.choice(['\\', 'n', '.', ' '])
    return s


def number(rng):
    if rng.random() < 0.02:    # about what the code mentions
        if literals.FLOATS and rng.random() < 0.5:
            return ('float', rng.choice(literals.FLOATS) * rng.choice([1, -1, 0.5, 2, 1.5]))
        return ('int', rng.choice(literals.INTS or [0]) + rng.choice([-1, 0, 0, 1]))
    if rng.random() < 0.5:
        return ('int', rng.choice(INTS) if rng.random() < 0.6 else rng.randrange(-1000, 1000))
    return ('float', rng.choice(FLOATS) if rng.random() < 0.6 else rng.uniform(-1e3, 1e3))


class Options(object):
    """What kinds of values are generated."""

    def __init__(self, whats=True, whatables=True, funcs=True, classes=False, outs=True, nonids=False, nan=False,
                 frozensets=True, hashable_whats=True, trailing=False, sets=True, dict_keys='any', maxkeys=5, maxlen=4, big=True):
        self.__dict__.update(locals())
        del self.__dict__['self']


def atom(rng, o, hashable=False):
    r = rng.random()
    if r < 0.1:
        return ('none',)
    if r < 0.22:
        return ('bool', rng.random() < 0.5)
    if r < 0.55:
        n = number(rng)
        if o.nan and not hashable and rng.random() < 0.05:
            return ('float', float('nan'))
        return n
    if o.classes and r < 0.6:
        return ('class', rng.choice(CLASSES))
    return ('str', text(rng, o.trailing))


def unique(specs):
    """Removes specs that python would take as equal, or that render the same."""
    from . import ref
    seen, out = set(), []
    for s in specs:
        marks = set(ref.equality_marks(s))
        if not (marks & seen):
            seen |= marks
            out.append(s)
    return out


def hashable_value(rng, o, depth):
    r = rng.random()
    if depth > 0 and r < 0.12:
        return ('tuple', [hashable_value(rng, o, depth - 1) for _ in range(rng.randrange(0, 3))])
    if depth > 0 and o.frozensets and r < 0.2:
        return ('fset', unique([hashable_value(rng, o, depth - 1) for _ in range(rng.randrange(0, 4))]))
    if depth > 0 and o.whats and o.hashable_whats and r < 0.28:
        return what(rng, o, depth - 1)
    return atom(rng, o, hashable=True)


def members(rng, o, depth, n):
    """Members of a set or keys of a dictionary, sometimes all of a type."""
    r = rng.random()
    if r < 0.12:     # values of different types that read alike
        twin = rng.choice([(('none',), 'None'), (('int', 7), '7'), (('int', -12), '-12'), (('float', 2.5), '2.5'), (('bool', True), 'True'),
                           (('bool', False), 'False'), (('tuple', []), '()'), (('tuple', [('int', 7)]), '(7,)'), (('str', 'a'), "'a'")])
        return unique([twin[0], ('str', twin[1])] + [hashable_value(rng, o, depth) for _ in range(max(0, n - 2))])
    if r < 0.35:
        one = rng.choice([lambda: ('int', rng.choice([-3, -1, 0, 1, 2, 3, 9, 10, 11, 100])), lambda: ('float', rng.choice([-1.5, 0.5, 1e10, 2.25, -0.5])),
                          lambda: ('str', rng.choice(['b', 'a', 'B', '10', '9', '', 'aa'])),
                          lambda: ('tuple', [('int', rng.randrange(4)) for _ in range(rng.randrange(3))])])
        return unique([one() for _ in range(n)])
    return unique([hashable_value(rng, o, depth) for _ in range(n)])


def big(rng, o, depth):
    """Values with many elements, or with many levels."""
    r = rng.random()
    n = rng.choice([9, 10, 11, 12, 16, 17, 20, 26, 33, 64, 101])
    if rng.random() < 0.4:
        n = rng.choice(literals.sizes(9, 2000) or [n])
    if r < 0.25:
        return (rng.choice(['list', 'tuple']), [atom(rng, o) for _ in range(n)])
    if r < 0.35 and o.sets:
        return (rng.choice(['set', 'fset'] if o.frozensets else ['set']), unique([atom(rng, o, True) for _ in range(n)]))
    if r < 0.5:
        keys = unique([atom(rng, o, True) if o.dict_keys == 'any' else ('str', text(rng, o.trailing)) for _ in range(n)])
        return ('dict', [(k, atom(rng, o)) for k in keys])
    if r < 0.7 and o.whats:
        first = ident(rng)
        return ('what', name(rng), None, [('%s%d' % (first, i), atom(rng, o)) for i in range(n)], [])
    v = value(rng, o, min(depth, 1))
    for _ in range(rng.randrange(5, 16)):
        kind = rng.choice(['list', 'tuple', 'dict'] + ['what', 'what'] * o.whats)
        more = [atom(rng, o)] if rng.random() < 0.2 else []
        if kind == 'what':
            v = ('what', name(rng), ident(rng) if o.outs and rng.random() < 0.2 else None,
                 list(zip(rng.sample(IDS, 2), [v] + more)), [])
        elif kind == 'dict':
            v = ('dict', list(zip([('str', 'k'), ('str', 'l')], [v] + more)))
        else:
            v = (kind, more + [v])
    return v


def elements(rng, o, depth, n):
    """Elements of a sequence, sometimes repeated, all of a type, or growing."""
    r = rng.random()
    if r < 0.12 and n:
        pool = [value(rng, o, depth) for _ in range(rng.choice([1, 2, 2, 3]))]
        return [rng.choice(pool) for _ in range(n)]
    if r < 0.17:
        first, step = rng.choice([0, 0, 1, -3, 10]), rng.choice([1, 1, 2, -1, 0])
        return [('int', first + step * j) for j in range(n)]
    return [value(rng, o, depth) for _ in range(n)]


def value(rng, o, depth):
    if depth > 1 and o.big and rng.random() < 0.02:
        return big(rng, o, depth)
    if depth <= 0 or rng.random() < 0.42:
        return atom(rng, o)
    n = rng.randrange(0, o.maxlen + 1)
    kinds = ['list', 'tuple', 'dict', 'dict']
    if o.sets:
        kinds += ['set']
        if o.frozensets:
            kinds += ['fset']
    if o.whats:
        kinds += ['what', 'what']
    if o.whatables:
        kinds += ['whatable']
    if o.funcs:
        kinds += ['func', 'partial']
    kind = rng.choice(kinds)
    if kind in ('list', 'tuple'):
        return (kind, elements(rng, o, depth - 1, n))
    if kind in ('set', 'fset'):
        return (kind, members(rng, o, depth - 1, n))
    if kind == 'dict':
        keys = members(rng, o, depth - 1, n) if o.dict_keys == 'any' else unique([('str', text(rng, o.trailing)) for _ in range(n)])
        return ('dict', [(k, value(rng, o, depth - 1)) for k in keys])
    if kind == 'what':
        return what(rng, o, depth - 1)
    if kind == 'whatable':
        flavour = rng.choice(['decorated', 'slots', 'duck', 'functionlike', 'instance'])
        return ('whatable', flavour, pyname(rng), [kv for kv in params(rng, o, depth - 1, pyident) if kv[0] != 'what'])
    if kind == 'func':
        return func(rng, o, depth - 1)
    return partial_spec(rng, o, depth - 1)


def pyname(rng):
    while True:
        n = name(rng)
        if n not in PYWORDS:
            return n


def params(rng, o, depth, ids=ident):
    keys = []
    for _ in range(rng.randrange(0, o.maxkeys + 1)):
        k = ids(rng)
        if k not in keys:
            keys.append(k)
    kvs = [(k, value(rng, o, depth)) for k in keys]
    if len(kvs) > 1 and depth > 0 and rng.random() < 0.2:   # the very same object at several places
        i, j = rng.sample(range(len(kvs)), 2)
        shared = kvs[i][1]
        if rng.random() < 0.4:
            shared = at(shared, rng.choice(paths(shared)))
        kvs[j] = (kvs[j][0], shared)
    return kvs


def what(rng, o, depth):
    kvs = params(rng, o, depth)
    out = ident(rng) if o.outs and rng.random() < 0.25 else None
    nonids = []
    if o.nonids and rng.random() < 0.5:
        nonids = [k for k, _ in kvs if rng.random() < 0.4]
        if rng.random() < 0.2:
            nonids.append('not_there')
    return ('what', name(rng), out, kvs, nonids)


def func(rng, o, depth):
    nargs = rng.randrange(0, 5)
    names = []
    while len(names) < nargs:
        k = pyident(rng)
        if k not in names:
            names.append(k)
    first_default = rng.randrange(0, nargs + 1)
    nkw = rng.randrange(0, 3) if rng.random() < 0.3 else 0
    pos, kw = names[:nargs - nkw] if nkw < nargs else names, names[nargs - nkw:] if 0 < nkw < nargs else []
    fname = rng.choice(['lambda', pyname(rng)])
    args = [(p, value(rng, o, min(depth, 1)) if i >= first_default else None) for i, p in enumerate(pos)]
    kwonly = [(p, value(rng, o, min(depth, 1)) if rng.random() < 0.7 else None) for p in kw]
    return ('func', fname, args, kwonly)


def partial_spec(rng, o, depth):
    f = func(rng, o, depth)
    pos = [p for p, _ in f[2]]
    npos = rng.randrange(0, len(pos) + 1)
    rest = pos[npos:] + [p for p, _ in f[3]]
    kws = [p for p in rest if rng.random() < 0.5]
    return ('partial', f, [value(rng, o, min(depth, 1)) for _ in range(npos)],
            [(p, value(rng, o, min(depth, 1))) for p in kws])


# --- Construction of the real thing

def _order(items, rng):
    items = list(items)
    if rng is not None:
        rng.shuffle(items)
    return items


def build(spec, rng=None):
    """Builds the python object of a spec; rng shuffles all the insertion orders that should not matter.
    A spec which is itself at several places gives the very same object at all of them.
    """
    return _build(spec, rng, {})


def _build(spec, rng, memo):
    if spec[0] in ATOMS:
        return spec[1] if len(spec) > 1 else None
    if id(spec) not in memo:
        memo[id(spec)] = spec, _make(spec, rng, memo)
    return memo[id(spec)][1]


class MyList(list):
    pass


class MyTuple(tuple):
    pass


class Missing(dict):
    """A dictionary that makes up values."""

    def __missing__(self, key):
        return ['made up', key]


class MyDict(dict):
    pass


FLAVOURS = {'list': ['MyList'], 'tuple': ['MyTuple', 'namedtuple'], 'dict': ['OrderedDict', 'defaultdict', 'Missing', 'MyDict']}


def flavoured(flavour, v):
    """Subclasses of the collections (specs of collections can have a third element; only for the checks that ask for it)."""
    if flavour == 'namedtuple':
        return collections.namedtuple('Named', ['f%d' % i for i in range(len(v))])(*v)
    if flavour == 'defaultdict':
        return collections.defaultdict(list, v)
    return {'MyList': MyList, 'MyTuple': MyTuple, 'OrderedDict': collections.OrderedDict, 'Missing': Missing, 'MyDict': MyDict}[flavour](v)


_DERIVED = []


def derived_what():
    """A class of configurations that derives from the usual one."""
    if not _DERIVED:
        from whatami import What

        class MyWhat(What):
            __slots__ = ()
        MyWhat.__qualname__ = 'MyWhat'
        _DERIVED.append(MyWhat)
    return _DERIVED[0]


def __getattr__(name):   # for it to be found when unpickling
    if name == 'MyWhat':
        return derived_what()
    raise AttributeError(name)


ATOMS = ('none', 'bool', 'int', 'float', 'str', 'class')


def _make(spec, rng, memo):
    from whatami import What, whatable, FunctionLike

    def build(s, rng):
        return _build(s, rng, memo)

    kind = spec[0]
    if kind in ('list', 'tuple', 'dict') and len(spec) > 2:
        return flavoured(spec[2], _make(spec[:2], rng, memo))
    if kind == 'list':
        return [build(s, rng) for s in spec[1]]
    if kind == 'tuple':
        return tuple([build(s, rng) for s in spec[1]])
    if kind == 'dict':
        return dict([(build(k, rng), build(v, rng)) for k, v in _order(spec[1], rng)])
    if kind == 'set':
        s = set()
        for e in _order(spec[1], rng):
            s.add(build(e, rng))
        return s
    if kind == 'fset':
        return frozenset([build(e, rng) for e in _order(spec[1], rng)])
    if kind == 'what':
        _, nm, out, kvs, nonids = spec[:5]
        conf = {}
        for k, v in _order(kvs, rng):
            conf[k] = build(v, rng)
        derived = len(spec) > 5 or (rng is not None and SUBCLASSES and rng.random() < 0.03)
        return (derived_what() if derived else What)(nm, conf, non_id_keys=_order(nonids, rng) if nonids else None, out_name=out)
    if kind == 'whatable':
        _, flavour, nm, kvs = spec
        kvs = [(k, build(v, rng)) for k, v in _order(kvs, rng)]
        if flavour == 'slots':
            cls = whatable(type(nm, (object,), {'__slots__': tuple(k for k, _ in kvs)}))
        elif flavour == 'duck':
            cls = type(nm, (object,), {'what': lambda self: What(
                nm, {k: v for k, v in self.__dict__.items() if visible(k)})})
        elif flavour == 'functionlike':
            cls = type(nm, (FunctionLike,), {'__call__': lambda self: 0})
        elif flavour == 'decorated':
            cls = whatable(type(nm, (object,), {}))
        else:
            cls = type(nm, (object,), {})
        obj = cls()
        for k, v in kvs:
            setattr(obj, k, v)
        return whatable(obj) if flavour == 'instance' else obj
    if kind == 'func':
        return build_func(spec, rng, memo)
    if kind == 'partial':
        _, f, args, kws = spec
        return partial(build_func(f, rng, memo), *[build(a, rng) for a in args],
                       **{k: build(v, rng) for k, v in _order(kws, rng)})
    raise ValueError(kind)


def build_func(spec, rng=None, memo=None):
    memo = {} if memo is None else memo

    def build(s, rng):
        return _build(s, rng, memo)

    _, nm, args, kwonly = spec
    env, parts = {}, []
    for p, d in args:
        if d is not None:
            env['_d_' + p] = build(d, rng)
        parts.append(p if d is None else '%s=_d_%s' % (p, p))
    if kwonly:
        parts.append('*')
    for p, d in kwonly:
        if d is not None:
            env['_d_' + p] = build(d, rng)
        parts.append(p if d is None else '%s=_d_%s' % (p, p))
    if nm == 'lambda':
        return eval('lambda %s: 0' % ', '.join(parts), env)
    kind = rng.choice(['def %s(%s):\n    return 0'] * 3 + ['def %s(%s):\n    yield 0', 'async def %s(%s):\n    pass', 'async def %s(%s):\n    yield 0',
                                                           'def %s(%s):\n    "Documented."\n    return lambda: locals()'])\
        if rng is not None else 'def %s(%s):\n    return 0'
    exec(kind % (nm, ', '.join(parts)), env)
    return env[nm]


def visible(k):
    """Are attributes with this name part of inferred configurations by default?"""
    return not k.startswith('_') and not k.endswith('_') and k != 'what'


def size(spec):
    kind = spec[0]
    if kind in ('list', 'tuple', 'set', 'fset'):
        return 1 + sum(map(size, spec[1]))
    if kind == 'dict':
        return 1 + sum(size(k) + size(v) for k, v in spec[1])
    if kind in ('what', 'whatable'):
        return 1 + sum(size(v) for _, v in spec[3])
    if kind == 'func':
        return 1 + sum(size(v) for _, v in spec[2] + spec[3] if v is not None)
    if kind == 'partial':
        return 1 + size(spec[1]) + sum(map(size, spec[2])) + sum(size(v) for _, v in spec[3])
    return 1


def kinds(spec, acc=None):
    acc = set() if acc is None else acc
    acc.add(spec[0])
    kind = spec[0]
    if kind in ('list', 'tuple', 'set', 'fset'):
        for s in spec[1]:
            kinds(s, acc)
    elif kind == 'dict':
        for k, v in spec[1]:
            kinds(k, acc)
            kinds(v, acc)
    elif kind in ('what', 'whatable'):
        for _, v in spec[3]:
            kinds(v, acc)
    elif kind == 'func':
        for _, v in spec[2] + spec[3]:
            if v is not None:
                kinds(v, acc)
    elif kind == 'partial':
        kinds(spec[1], acc)
        for v in spec[2]:
            kinds(v, acc)
        for _, v in spec[3]:
            kinds(v, acc)
    return acc


def strings(spec):
    """All the strings that are values in a spec."""
    kind = spec[0]
    if kind == 'str':
        return [spec[1]]
    if kind in ('list', 'tuple', 'set', 'fset'):
        return [x for s in spec[1] for x in strings(s)]
    if kind == 'dict':
        return [x for k, v in spec[1] for x in strings(k) + strings(v)]
    if kind in ('what', 'whatable'):
        return [x for _, v in spec[3] for x in strings(v)]
    if kind == 'func':
        return [x for _, v in spec[2] + spec[3] if v is not None for x in strings(v)]
    if kind == 'partial':
        return strings(spec[1]) + [x for s in spec[2] for x in strings(s)] + [x for _, v in spec[3] for x in strings(v)]
    return []


# --- Editing specs

def children(spec):
    kind = spec[0]
    if kind in ('list', 'tuple', 'set', 'fset'):
        return list(spec[1])
    if kind == 'dict':
        return [x for kv in spec[1] for x in kv]
    if kind in ('what', 'whatable'):
        return [v for _, v in spec[3]]
    if kind == 'func':
        return [v for _, v in spec[2] + spec[3] if v is not None]
    if kind == 'partial':
        return [spec[1]] + list(spec[2]) + [v for _, v in spec[3]]
    return []


def with_children(spec, new):
    kind = spec[0]
    new = list(new)
    if kind in ('list', 'tuple', 'set', 'fset'):
        return (kind, new) + spec[2:]
    if kind == 'dict':
        return (kind, list(zip(new[::2], new[1::2]))) + spec[2:]
    if kind in ('what', 'whatable'):
        return spec[:3] + ([(k, v) for (k, _), v in zip(spec[3], new)],) + spec[4:]
    if kind == 'func':
        args = [(p, None if d is None else new.pop(0)) for p, d in spec[2]]
        return (kind, spec[1], args, [(p, None if d is None else new.pop(0)) for p, d in spec[3]])
    if kind == 'partial':
        n = 1 + len(spec[2])
        return (kind, new[0], new[1:n], [(k, v) for (k, _), v in zip(spec[3], new[n:])])
    return spec


def paths(spec, prefix=()):
    """Paths of all the nodes in the spec, itself included."""
    out = [prefix]
    for i, c in enumerate(children(spec)):
        out += paths(c, prefix + (i,))
    return out


def at(spec, path):
    for i in path:
        spec = children(spec)[i]
    return spec


def replace(spec, path, new):
    if not path:
        return new
    cs = children(spec)
    cs[path[0]] = replace(cs[path[0]], path[1:], new)
    return with_children(spec, cs)


def is_hashable(spec):
    kind = spec[0]
    if kind in ('list', 'dict', 'set'):
        return False
    if kind == 'tuple':
        return all(is_hashable(s) for s in spec[1])
    return True


def valid(spec):
    """Can python hold the spec, with all its elements?"""
    kind = spec[0]
    if not all(valid(c) for c in children(spec)):
        return False
    if kind in ('set', 'fset', 'dict'):
        elements = list(spec[1]) if kind != 'dict' else [k for k, _ in spec[1]]
        if not all(is_hashable(e) for e in elements) or len(unique(elements)) != len(elements):
            return False
    if kind == 'partial' and spec[1][0] != 'func':
        return False
    return True


def _edit_text(rng, s):
    edits = [s + ' ', ' ' + s, s + 'a', s.upper(), s.lower(), s.swapcase(), s[1:], s[:-1], s[::-1], s + s, s.strip(), s + "'",
             s.replace(' ', '\t'), s.replace('\n', ' '), s + u'\u0301', s.replace(',', ';'), s.replace('"', "'"), "'" + s,
             s.replace('\\', '\\\\'), s + '\n', s.replace('0', 'O'), '\\' + s, s + '.0',
             s.replace('\r\n', '\n'), s.replace('\r', '\n'), s.replace('\n', '\r\n'), unicodedata.normalize('NFC', s),
             unicodedata.normalize('NFD', s), unicodedata.normalize('NFKC', s), s.casefold(), s.replace(u'\u200b', ''),
             ' '.join(s.split()), s.replace('\x00', ''), s.encode('ascii', 'ignore').decode(), s[:len(s) // 2] + s[len(s) // 2 + 1:],
             s[:len(s) // 2] + '!' + s[len(s) // 2 + 1:], s[:32], s.title(), s + '...']
    s = rng.choice(edits)
    return s + 'n' if odd_trailing(s) else s


def edit_leaf(rng, spec):
    kind = spec[0]
    if kind == 'none':
        return rng.choice([('str', 'None'), ('str', ''), ('bool', False), ('int', 0), ('tuple', []), ('list', []), ('dict', [])])
    if kind == 'bool':
        return rng.choice([('bool', not spec[1]), ('int', int(spec[1])), ('str', str(spec[1])), ('float', float(spec[1]))])
    if kind == 'int':
        n = spec[1]
        return rng.choice([('int', n + 1), ('int', -n - 1), ('int', n * 10), ('str', str(n)), ('int', n - 1),
                           ('float', float(n)) if abs(n) < 2 ** 50 else ('int', n + 2), ('list', [spec]), ('tuple', [spec])])
    if kind == 'float':
        f = spec[1]
        import struct
        near = struct.unpack('<d', struct.pack('<Q', struct.unpack('<Q', struct.pack('<d', f))[0] ^ 1))[0]
        return rng.choice([('float', -f), ('float', f * 2 + 1), ('float', near if near == near else 0.5), ('str', repr(f)),
                           ('int', int(f)) if abs(f) < 1e15 else ('int', 5)])
    if kind == 'str':
        return ('str', _edit_text(rng, spec[1])) if rng.random() < 0.85 else rng.choice(
            [('none',), ('int', 1), ('list', [spec]), ('tuple', [spec]), ('str', spec[1] + 'z')])
    return rng.choice([('class', rng.choice(CLASSES)), ('none',), ('str', 'class')])


def edit(rng, spec):
    """A slightly different spec (it can happen that it means the same)."""
    path = rng.choice(paths(spec))
    node = at(spec, path)
    kind = node[0]
    if rng.random() < 0.1:
        new = rng.choice([('list', [node]), ('tuple', [node]), ('dict', [(('str', 'k'), node)]), ('none',)]) if path else node
        return replace(spec, path, new)
    if kind in ('list', 'tuple', 'set', 'fset'):
        elements = list(node[1])
        op = rng.randrange(8)
        if op == 0 and len(elements) > 1:
            i, j = rng.sample(range(len(elements)), 2)
            elements[i], elements[j] = elements[j], elements[i]
        elif op == 1 and elements:
            del elements[rng.randrange(len(elements))]
        elif op == 2 and elements:
            i = rng.randrange(len(elements))
            elements.insert(i, elements[i])
        elif op == 3:
            kind = {'list': 'tuple', 'tuple': 'list', 'set': 'fset', 'fset': 'set'}[kind]
        elif op == 4 and elements:   # move a border
            i = rng.randrange(len(elements))
            elements[i:] = [('tuple', elements[i:])]
        elif op == 5 and len(elements) > 1:
            elements = [('list', elements)]
        elif op == 6 and kind in ('set', 'list'):
            kind = {'set': 'list', 'list': 'set'}[kind]
        else:
            elements.append(('int', rng.randrange(10 ** 6, 10 ** 7)))
        return replace(spec, path, (kind, elements))
    if kind == 'dict':
        items = list(node[1])
        op = rng.randrange(5)
        if op == 0 and items:
            del items[rng.randrange(len(items))]
        elif op == 1 and len(items) > 1:
            i, j = rng.sample(range(len(items)), 2)
            (ki, vi), (kj, vj) = items[i], items[j]
            items[i], items[j] = (ki, vj), (kj, vi)
        elif op == 2 and items:
            i = rng.randrange(len(items))
            items[i] = (edit_leaf(rng, items[i][0]) if not children(items[i][0]) else items[i][0], items[i][1])
        elif op == 3 and items and all(k[0] == 'str' and k[1].isidentifier() for k, _ in items):
            return replace(spec, path, ('what', 'dict', None, [(k[1], v) for k, v in items], []))
        else:
            items.append((('int', rng.randrange(10 ** 6, 10 ** 7)), ('none',)))
        return replace(spec, path, (kind, items))
    if kind == 'what':
        _, nm, out, kvs, nonids = node[:5]
        kvs = list(kvs)
        op = rng.randrange(8)
        if op == 0:
            nm = rng.choice([nm + 'x', nm.swapcase(), nm[:-1] or 'q', '_' + nm, nm + '_'])
        elif op == 1:
            out = rng.choice(['res', (out or '') + 'o', nm]) if out is None or rng.random() < 0.5 else None
        elif op == 2 and kvs:
            del kvs[rng.randrange(len(kvs))]
        elif op == 3 and kvs:
            i = rng.randrange(len(kvs))
            kvs[i] = (kvs[i][0] + rng.choice('zZ_9'), kvs[i][1])
        elif op == 4 and len(kvs) > 1:
            i, j = rng.sample(range(len(kvs)), 2)
            (ki, vi), (kj, vj) = kvs[i], kvs[j]
            kvs[i], kvs[j] = (ki, vj), (kj, vi)
        elif op == 5:
            kvs.append(('added_key', rng.choice([('none',), ('str', ''), ('list', []), ('bool', False)])))
        elif op == 6 and kvs and kvs[-1][1][0] == 'what':   # a parameter moves to the nested configuration
            inner = kvs[-1][1]
            if len(kvs) > 1 and kvs[0][0] not in dict(inner[3]):
                kvs[-1] = (kvs[-1][0], ('what', inner[1], inner[2], inner[3] + [kvs[0]], inner[4]))
                del kvs[0]
        else:
            kvs.append(('more', ('int', 3)))
        if len(dict(kvs)) != len(kvs):
            return spec
        return replace(spec, path, ('what', nm, out, kvs, nonids))
    if kind == 'whatable':
        kvs = list(node[3])
        if kvs and rng.random() < 0.5:
            del kvs[rng.randrange(len(kvs))]
        return replace(spec, path, (kind, node[1], node[2] + ('x' if rng.random() < 0.5 else ''), kvs))
    if kind == 'func':
        return replace(spec, path, (kind, node[1] + 'x' if node[1] != 'lambda' else 'xlambda') + node[2:])
    if kind == 'partial':
        args, kws = list(node[2]), list(node[3])
        if kws and rng.random() < 0.5:
            del kws[rng.randrange(len(kws))]
        elif len(args) > 1:
            args[0], args[1] = args[1], args[0]
        return replace(spec, path, (kind, node[1], args, kws))
    return replace(spec, path, edit_leaf(rng, node))


def dictionary(trailing=False):
    """A configuration for each of the literals in the code under test (and sizes around its numbers), exhaustively."""
    atoms = [('str', s) for s in literals.TEXTS if trailing or not odd_trailing(s)]
    atoms += [('int', n + d) for n in literals.INTS for d in (-1, 0, 1)] + [('float', n * d) for n in literals.FLOATS for d in (-1., 1.)]
    atoms += [('str', 'x' * n) for n in literals.sizes(0, 20000)]
    none = ('none',)
    for a in atoms:
        for v in (a, ('list', [a, none]), ('dict', [(a, a), (none, none)]), ('tuple', [none, ('set', [a])])):
            yield ('what', 'f', None, [('x', v), ('y', none)], [])
    for n in literals.sizes(0, 600):
        elements = [('int', k) for k in range(n)]
        for v in (('list', elements), ('tuple', elements), ('set', elements), ('dict', [(e, e) for e in elements])):
            yield ('what', 'f', None, [('x', v)], [])
        yield ('what', 'f', None, [('p%d' % k, e) for k, e in enumerate(elements)], [])
    for n in literals.sizes(2, 300):
        for s in '(),\'"=[{# ':
            yield ('what', 'f', None, [('x', ('str', s * n)), ('y', none)], [])
        for v in (('what', 'g', None, [('y', ('str', 'x' * n))], []), ('list', [('what', 'g', None, [('y', ('int', k))], []) for k in range(n)]),
                  ('tuple', [('tuple', [])] * n), ('list', [('dict', [(('int', k), ('str', ''))]) for k in range(n)])):
            yield ('what', 'f', None, [('x', v)], [])
    for n in sorted(set(range(1, 64)) | set(literals.sizes(1, 120)) | {100, 128}):
        for kind in NESTS:
            yield nested(n, ('int', 1), kind)


NESTS = ['list', 'tuple', 'dict', 'what', 'mixed']


def nested(n, v, kind):
    """A value under n levels."""
    for k in range(n):
        which = NESTS[k % 4] if kind == 'mixed' else kind
        v = ('what', 'g', None, [('y', v)], []) if which == 'what' else ('dict', [(('str', 'k'), v)]) if which == 'dict' else (which, [v])
    return ('what', 'f', None, [('x', v)], [])
