# coding=utf-8
"""Reference models, written from the documentation and independent of the code under test.

 - render: the canonical id text of a spec
 - norm_spec / norm_obj: type-distinguishing structural normal forms, to compare what is parsed with what was meant
 - parse: a recursive descent parser of the id language
"""
import re

from .gen import visible


# --- Rendering

def quote(s):
    """Single quoted; quotes are escaped unless they already are."""
    out, run = [], 0
    for c in s:
        if c == "'" and run % 2 == 0:
            out.append('\\')
        out.append(c)
        run = run + 1 if c == '\\' else 0
    return "'%s'" % u''.join(out)


def bound(spec):
    """The known parameters of a function or partial spec."""
    if spec[0] == 'func':
        return [(p, d) for p, d in spec[2] + spec[3] if d is not None]
    _, f, args, kws = spec
    conf = dict(bound(f))
    for (p, _), v in zip(f[2], args):
        conf[p] = v
    conf.update(dict(kws))
    return list(conf.items())


def render(spec, nonids_too=False):
    kind = spec[0]
    if kind == 'none':
        return 'None'
    if kind == 'bool':
        return 'True' if spec[1] else 'False'
    if kind == 'int':
        return '%d' % spec[1]
    if kind == 'float':
        return float.__repr__(spec[1])
    if kind == 'str':
        return quote(spec[1])
    if kind == 'class':
        c = spec[1]
        fq = c.__qualname__ if c.__module__ == 'builtins' else c.__module__ + '.' + c.__qualname__
        return "<class '%s'>" % fq
    if kind == 'list':
        return '[%s]' % ','.join([render(s) for s in spec[1]])
    if kind == 'tuple':
        return '(%s)' % ','.join([render(s) for s in spec[1]])
    if kind == 'dict':
        return '{%s}' % ','.join(sorted(['%s:%s' % (render(k), render(v)) for k, v in spec[1]]))
    if kind == 'set':
        return '{%s}' % ','.join(sorted([render(s) for s in spec[1]])) if spec[1] else 'set()'
    if kind == 'fset':
        return 'frozenset({%s})' % ','.join(sorted([render(s) for s in spec[1]])) if spec[1] else 'frozenset()'
    if kind == 'what':
        _, name, out, kvs, nonids = spec[:5]
        return ('%s=' % out if out is not None else '') + _call(
            name, [(k, v) for k, v in kvs if nonids_too or k not in nonids])
    if kind == 'whatable':
        return _call(spec[2], [(k, v) for k, v in spec[3] if visible(k)])
    if kind in ('func', 'partial'):
        return _call(spec[1] if kind == 'func' else spec[1][1], bound(spec))
    raise ValueError(kind)


def _call(name, kvs):
    return '%s(%s)' % (name, ','.join(['%s=%s' % (k, render(v)) for k, v in sorted(kvs, key=lambda kv: kv[0])]))


def positional(spec, nonids_too=False):
    _, name, out, kvs, nonids = spec[:5]
    return ('%s=' % out if out is not None else '') + '%s(%s)' % (
        name, ','.join([render(v) for k, v in sorted(kvs, key=lambda kv: kv[0]) if nonids_too or k not in nonids]))


def equality_marks(spec):
    """Marks shared by the hashable specs that python takes as equal or that have the same id."""
    marks = [('id', render(spec))]
    if spec[0] in ('bool', 'int', 'float'):
        marks.append(('number', spec[1]))
    elif spec[0] in ('tuple', 'fset', 'what'):
        # numbers inside could be equal with different types
        marks.append(('norm', python_equality(spec)))
    return marks


def python_equality(spec):
    kind = spec[0]
    if kind in ('bool', 'int', 'float'):
        return ('number', spec[1])
    if kind == 'tuple':
        return (kind, tuple([python_equality(s) for s in spec[1]]))
    if kind in ('set', 'fset'):
        return ('set', frozenset([python_equality(s) for s in spec[1]]))
    if kind == 'what':
        return (kind, spec[1], spec[2], frozenset([(k, python_equality(v)) for k, v in spec[3]]))
    return ('id', render(spec))


# --- Normal forms (hashable)

def norm_spec(spec, nonids_too=False):
    """What parsing the id of the spec should give."""
    kind = spec[0]
    if kind == 'none':
        return ('none',)
    if kind == 'bool':
        return ('bool', bool(spec[1]))
    if kind == 'int':
        return ('int', spec[1])
    if kind == 'float':
        return ('float', float.__repr__(spec[1]))
    if kind == 'str':
        return ('str', quote(spec[1]))
    if kind == 'class':
        return ('class', spec[1].__module__, spec[1].__qualname__)
    if kind in ('list', 'tuple'):
        return (kind, tuple([norm_spec(s) for s in spec[1]]))
    if kind in ('set', 'fset'):
        return (kind, frozenset([norm_spec(s) for s in spec[1]]))
    if kind == 'dict':
        return (kind, frozenset([(norm_spec(k), norm_spec(v)) for k, v in spec[1]]))
    if kind == 'what':
        _, name, out, kvs, nonids = spec[:5]
        return ('what', name, out, frozenset([(k, norm_spec(v)) for k, v in kvs if nonids_too or k not in nonids]))
    if kind == 'whatable':
        return ('what', spec[2], None, frozenset([(k, norm_spec(v)) for k, v in spec[3] if visible(k)]))
    if kind in ('func', 'partial'):
        name = spec[1] if kind == 'func' else spec[1][1]
        return ('what', name, None, frozenset([(k, norm_spec(v)) for k, v in bound(spec)]))
    raise ValueError(kind)


def norm_obj(obj):
    """The normal form of a python object (a parsed one)."""
    t = type(obj)
    if obj is None:
        return ('none',)
    if t is bool:
        return ('bool', obj)
    if t is int:
        return ('int', obj)
    if t is float:
        return ('float', float.__repr__(obj))
    if t is str:
        return ('str', quote(obj))
    if t is list:
        return ('list', tuple([norm_obj(o) for o in obj]))
    if t is tuple:
        return ('tuple', tuple([norm_obj(o) for o in obj]))
    if t is set:
        return ('set', frozenset([norm_obj(o) for o in obj]))
    if t is frozenset:
        return ('fset', frozenset([norm_obj(o) for o in obj]))
    if t is dict:
        return ('dict', frozenset([(norm_obj(k), norm_obj(v)) for k, v in obj.items()]))
    if t.__name__ == 'What' and hasattr(obj, 'conf'):
        return ('what', obj.name, obj.out_name, frozenset([(k, norm_obj(v)) for k, v in obj.conf.items()]))
    if isinstance(obj, type):
        return ('class', obj.__module__, obj.__qualname__)
    return ('unknown', t.__name__, repr(obj))


# --- Parsing

class NotAnId(Exception):
    pass


_WS = ' \t\n\r'
_IDENT = re.compile(r'[_A-Za-z][_a-zA-Z0-9]*')
_NUMBER = re.compile(r'-?\d+((\.\d*)?((e|E)(\+|-)?\d+)?)?')


class RefParser(object):
    """Recursive descent, ordered choice; gives normal forms as norm_obj. Later duplicated keys win."""

    def __init__(self, text):
        self.t = text
        self.i = 0

    def skip(self):
        while self.i < len(self.t) and self.t[self.i] in _WS:
            self.i += 1

    def lit(self, s):
        self.skip()
        if self.t.startswith(s, self.i):
            self.i += len(s)
            return True
        return False

    def need(self, s):
        if not self.lit(s):
            raise NotAnId('%r expected at %d' % (s, self.i))

    def ident(self):
        self.skip()
        m = _IDENT.match(self.t, self.i)
        if not m:
            raise NotAnId('name expected at %d' % self.i)
        self.i = m.end()
        return m.group()

    def word(self, w):
        """A literal word, that is not the beginning of a name, of a nested id or of its output name."""
        self.skip()
        if not self.t.startswith(w, self.i):
            return False
        j = self.i + len(w)
        if j < len(self.t) and (self.t[j].isalnum() or self.t[j] == '_'):
            return False
        k = j
        while k < len(self.t) and self.t[k].isspace():
            k += 1
        if k < len(self.t) and self.t[k] in '(=':
            return False
        self.i = j
        return True

    def attempt(self, rule):
        i = self.i
        try:
            return rule()
        except NotAnId:
            self.i = i
            return None

    def value(self):
        self.skip()
        if self.word('None'):
            return ('none',)
        if self.word('True'):
            return ('bool', True)
        if self.word('False'):
            return ('bool', False)
        m = _NUMBER.match(self.t, self.i)
        if m:
            self.i = m.end()
            try:
                return ('int', int(m.group()))
            except ValueError:
                return ('float', float.__repr__(float(m.group())))
        for w in ('-inf', 'inf', 'nan'):
            if self.word(w):
                return ('float', w)
        for rule in (self.string, self.tuple_, self.list_, self.set_, self.dict_, self.class_, self.id_):
            got = self.attempt(rule)
            if got is not None:
                return got
        raise NotAnId('value expected at %d' % self.i)

    def rawstring(self):
        self.skip()
        i = self.i
        if i >= len(self.t) or self.t[i] != "'":
            raise NotAnId('string expected at %d' % i)
        i += 1
        while i < len(self.t):
            if self.t[i] == '\\':
                i += 2
            elif self.t[i] == "'":
                s = self.t[self.i + 1:i]
                self.i = i + 1
                return s
            else:
                i += 1
        raise NotAnId('unterminated string at %d' % self.i)

    def string(self):
        return ('str', quote(self.rawstring()))

    def elements(self, close):
        """One or more comma separated values and the closing token."""
        out = [self.value()]
        while self.lit(','):
            out.append(self.value())
        self.need(close)
        return out

    def tuple_(self):
        self.need('(')
        return ('tuple', ()) if self.lit(')') else ('tuple', tuple(self.elements(')')))

    def list_(self):
        self.need('[')
        return ('list', ()) if self.lit(']') else ('list', tuple(self.elements(']')))

    def set_(self):
        if self.lit('set()'):
            return ('set', frozenset())
        if self.lit('frozenset()'):
            return ('fset', frozenset())
        got = self.attempt(lambda: self.need('{') or self.elements('}'))
        if got is not None:
            return ('set', elements_set(got))
        self.need('frozenset({')
        return ('fset', elements_set(self.elements('})')))

    def dict_(self):
        self.need('{')
        if self.lit('}'):
            return ('dict', frozenset())
        items = {}
        while True:
            k = self.value()
            self.need(':')
            v = self.value()
            hashable(k)
            items[k] = v
            if not self.lit(','):
                break
        self.need('}')
        elements_set(items)
        return ('dict', frozenset(items.items()))

    def class_(self):
        self.need('<class ')
        s = self.rawstring()
        self.need('>')
        return ('classname', s)

    def id_(self):
        first = self.ident()
        out = None
        if self.lit('='):
            out, first = first, self.ident()
        self.need('(')
        kvs = {}
        if not self.lit(')'):
            while True:
                k = self.ident()
                self.need('=')
                kvs[k] = self.value()
                if not self.lit(','):
                    break
            self.need(')')
        return ('what', first, out, frozenset(kvs.items()))


class NotHashable(Exception):
    """The text is in the language, but python sets and dictionaries cannot hold these elements."""


def elements_set(norms):
    norms = frozenset([hashable(n) for n in norms])
    if len(set(map(_pyeq, norms))) != len(norms):
        raise NotHashable()  # python merges values like 1 and True; what remains is not defined
    return norms


def _pyeq(n):
    if n[0] in ('bool', 'int', 'float'):
        return ('number', float(n[1]) if n[0] == 'float' else n[1])
    if n[0] == 'tuple':
        return ('tuple', tuple(map(_pyeq, n[1])))
    if n[0] in ('set', 'fset'):
        return ('set', frozenset(map(_pyeq, n[1])))
    if n[0] == 'what':
        return ('what', n[1], n[2], frozenset([(k, _pyeq(v)) for k, v in n[3]]))
    return n


def hashable(norm):
    if norm[0] in ('list', 'dict', 'set') or (norm[0] == 'tuple' and any(_unhashable(n) for n in norm[1])):
        raise NotHashable()
    return norm


def _unhashable(n):
    try:
        hashable(n)
        return False
    except NotHashable:
        return True


def parse(text):
    """Normal form of the configuration in an id text; raises NotAnId if it is not an id."""
    p = RefParser(text)
    got = p.id_()
    p.skip()
    if p.i != len(text):
        raise NotAnId('unexpected text at %d' % p.i)
    return got


# --- Tokens, to write the same id with other white space

def tokens(spec):
    """The tokens of the rendered id; white space is allowed around them."""
    kind = spec[0]

    def commas(groups):
        out = []
        for g in groups:
            out += ([','] if out else []) + g
        return out
    if kind in ('list', 'tuple'):
        o, c = '[]' if kind == 'list' else '()'
        return [o] + commas([tokens(s) for s in spec[1]]) + [c]
    if kind == 'dict':
        return ['{'] + commas([tokens(k) + [':'] + tokens(v) for k, v in spec[1]]) + ['}']
    if kind in ('set', 'fset') and not spec[1]:
        return [render(spec)]
    if kind == 'set':
        return ['{'] + commas([tokens(s) for s in spec[1]]) + ['}']
    if kind == 'fset':
        return ['frozenset({'] + commas([tokens(s) for s in spec[1]]) + ['})']
    if kind == 'class':
        text = render(spec)
        return ['<class ', text[7:-1], '>']
    if kind in ('none', 'bool', 'int', 'float', 'str'):
        return [render(spec)]
    if kind == 'what':
        name, out, kvs = spec[1], spec[2], [(k, v) for k, v in spec[3] if k not in spec[4]]
    elif kind == 'whatable':
        name, out, kvs = spec[2], None, [(k, v) for k, v in spec[3] if visible(k)]
    else:
        name, out, kvs = (spec[1] if kind == 'func' else spec[1][1]), None, bound(spec)
    return ([out, '='] if out is not None else []) + [name, '('] + commas([[k, '='] + tokens(v) for k, v in kvs]) + [')']


def class_names(norm):
    """The names of the classes in the normal form of a parsed id."""
    if not isinstance(norm, tuple) and not isinstance(norm, frozenset):
        return []
    if isinstance(norm, tuple) and len(norm) == 2 and norm[0] == 'classname':
        return [norm[1]]
    return [n for x in norm for n in class_names(x)]


def resolve_classes(norm, known):
    """Replaces class names by what they should be parsed to (known: {fully qualified name: class or None})."""
    if isinstance(norm, frozenset):
        return frozenset([resolve_classes(n, known) for n in norm])
    if not isinstance(norm, tuple):
        return norm
    if len(norm) == 2 and norm[0] == 'classname':
        c = known[norm[1]]
        if c is None:
            return ('dict', frozenset([(('str', quote('class')), ('str', quote(norm[1])))]))
        return ('class', c.__module__, c.__qualname__)
    return tuple([resolve_classes(n, known) for n in norm])


# --- Old-style ids

def render_old(spec, rng, ws=False):
    """An old-style id of a configuration (no output names, frozensets nor classes), with nested ids quoted or not."""
    def space():
        return rng.choice(['', '', ' ']) if ws else ''

    def value(s, last):
        kind = s[0]
        if kind in ('list', 'tuple'):
            o, c = '[]' if kind == 'list' else '()'
            return o + (',' + space()).join([value(e, False) for e in s[1]]) + c
        if kind == 'dict':
            return '{' + (',' + space()).join(['%s:%s%s' % (value(k, False), space(), value(v, False)) for k, v in s[1]]) + '}'
        if kind == 'set':
            return '{' + ','.join([value(e, False) for e in s[1]]) + '}' if s[1] else 'set()'
        if kind == 'what':
            return what(s, last) if last and rng.random() < 0.6 else '"%s"' % what(s, True)
        return render(s)

    def what(s, last):
        kvs = s[3]
        return '%s#%s' % (s[1], '#'.join(['%s=%s' % (k, value(v, last and i == len(kvs) - 1)) for i, (k, v) in enumerate(kvs)]))
    return what(spec, True)
