# coding=utf-8
"""C06: the parser accepts exactly the id language and builds the denoted values."""
import collections
import datetime
import decimal
import fractions

from .. import gen, ref, sizes

PROPERTY = 'C06'
TECHNIQUE = ('runtime monitoring: differential fuzzing of the parser against an independent recursive descent '
             'reference recogniser')
RULE = ('ids of random configurations, with random white space, truncations, insertions, deletions, replacements, '
        'splices and token-level edits, and random strings of tokens; acceptance and value compared with a reference '
        'parser; non-trivial: every text whose value or rejection is judged')
REQUIRE = {'large sizes': 1, 'accepted': 500, 'rejected': 500, 'white space': 200, 'mutated accepted': 40, 'characters': 100, 'split': 1200, 'repeated key': 40}
O = gen.Options(nan=True, classes=True)
KNOWN = {'collections.OrderedDict': collections.OrderedDict, 'collections.Counter': collections.Counter,
         'datetime.date': datetime.date, 'decimal.Decimal': decimal.Decimal, 'fractions.Fraction': fractions.Fraction,
         'dict': dict, 'str': str, 'list': list, 'bytes': bytes, 'bool': bool, 'object': object, 'type': type, 'ValueError': ValueError, 'int': int,
         'no_such_module_here.Klass': None, 'collections.NoSuchClass': None, 'NoSuchBuiltin': None}
TOKENS = ['f', 'x', 'g', 'out', 'inf', 'nan', '-inf', 'None', 'True', 'False', '(', ')', '(', ')', '[', ']', '{', '}', ',', '=',
          '=', ':', "'a'", "'", "\\", '1', '-1', '2.5', '1e5', '1.', '.5', '+1', ' ', '\n', '\t', 'set()', 'frozenset()',
          'frozenset({', '})', '<class ', '>', "'dict'", '"', '#', 'Nonex', '_', u'\xe9', '0x1', '--1', '1_000', '1j',
          '1e', '1.5e', 'e5', u'\u0661', '\x0b', '\x0c', u'\xa0']


def judge(t, text, origin):
    import whatami as wm
    from arpeggio import NoMatch
    try:
        expected = ref.parse(text)
        names = ref.class_names(expected)
        if any(n not in KNOWN for n in names):
            return None  # what these classes are depends on what is importable
        expected = ref.resolve_classes(expected, KNOWN)
    except ref.NotAnId:
        expected = None
    except ref.NotHashable:
        return None  # in the language, but python cannot hold the value
    out = t.call('parse_whatid', wm.parse_whatid, text)
    if expected is None:
        t.event('rejected')
        if not out.failed:
            t.fail('a string out of the language is accepted', text=text, got=ref.norm_obj(out.value), origin=origin)
        t.check(isinstance(out.exc, NoMatch), 'a string out of the language fails with %r' % out.exc, text=text)
    else:
        t.event('accepted')
        if out.failed:
            t.fail('an id is rejected with %r' % out.exc, text=text, expected=expected, origin=origin)
        t.same(ref.norm_obj(out.value), expected, 'an id is parsed to other value', text=text, origin=origin)
    t.seen(text)
    return expected is not None


def white_space(t, rng, i):
    spec = gen.what(rng, O, 3)
    if any(c not in KNOWN for c in ref.class_names(ref.parse(ref.render(spec)))):
        return
    judge(t, ref.render(spec), 'id')
    tokens = ref.tokens(spec)
    for style in range(2):
        text = ''
        for token in tokens:
            text += ''.join(rng.choice(' \t\n\r') for _ in range(rng.randrange(1, 4) if style or rng.random() < 0.2 else 0))
            text += token
        text += rng.choice(['', ' ', '\n '])
        t.event('white space')
        t.check(judge(t, text, 'white space') is not False, 'the reference should accept', text=text)
    t.sample(text)


def mutations(t, rng, i):
    text = ref.render(gen.what(rng, O, rng.randrange(0, 3)))
    other = ref.render(gen.what(rng, O, 1))
    for _ in range(6):
        s = text
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            a, b = sorted([rng.randrange(0, len(s) + 1), rng.randrange(0, len(s) + 1)])
            op = rng.randrange(9)
            if op == 0:
                s = s[:a]                                                   # truncation
            elif op == 1:
                s = s[:a] + s[a + 1:]                                       # deletion
            elif op == 2:
                s = s[:a] + rng.choice(TOKENS) + s[a:]                      # insertion
            elif op == 3:
                s = s[:a] + rng.choice(TOKENS) + s[a + 1:]                  # replacement
            elif op == 4 and b - a < 40:
                s = s[:a] + s[b:]
            elif op == 5 and b - a < 40:
                s = s[:b] + s[a:b] + s[b:]                                  # repetition
            elif op == 6:
                s = s[:a] + other + s[a:]                                   # splice
            elif op == 7:
                s = s + rng.choice(TOKENS)                                  # extension
            elif len(s) > 1 and a + 1 < len(s):
                s = s[:a] + s[a + 1] + s[a] + s[a + 2:]                     # transposition
            if not s:
                break
        if judge(t, s, text) and s != text:
            t.event('mutated accepted')


def token_soup(t, rng, i):
    for _ in range(4):
        head = rng.choice(['', 'f(', 'f(x=', 'o=f(x=[', 'f(x={', 'f(x=(', "f(x={'a':", 'f(x=1,'])
        body = ''.join(rng.choice(TOKENS) for _ in range(rng.randrange(0, 6)))
        tail = rng.choice(['', ')', '])', '})', '))', ')', ')'])
        judge(t, head + body + tail, 'tokens')


def values(t, rng, i):
    """Any literal in any position."""
    v = rng.choice(['None', 'True', 'False', 'inf', '-inf', 'nan', '-nan', '1', '-1', '--1', '1.', '1.5', '.5', '1e5', '1e+5',
                    '1E-5', '-0', '-0.0', '007', '010', '-010', '0777', '00', '-00', '012.5', '089', '0100', '0010e2', '0b11', '0o7', '1.e5', '1_0', '0x1F', '1j', '+1', 'none', 'true', 'NULL', 'Infinity',
                    'NaN', 'NAN', 'Nan', 'Inf', 'INF', '-Inf', '-INF', 'iNf', 'TRUE', 'tRUE', 'FALSE', 'NONE', 'nONE', 'null', 'infinity', '-infinity', '1E', '1E5', '1L', 'Set()', 'SET()', 'FrozenSet()', "<CLASS 'int'>", "<Class 'int'>", 'inf_', 'nano', 'nan1', 'None1', 'Nonee', 'Trueish', 'None()', 'True()', 'inf()', 'nan()', 'None(x=1)',
                    'inf=f()', 'None=g()', 'nan =g()', 'True (x=1)', "''", "'a'", '"a"', "'\\''", "'\\\\'", "'\\'", "'''",
                    "'a''b'", "<type 'int'>", "<klass 'int'>", "<function 'int'>", "<classint>", "<'int'>", "<module 'int'>", "class 'int'", "<class 'int'", "<classes 'int'>", 'set()', 'set ()', 'set( )', 'frozenset()', 'frozenset ()', 'frozenset({})', 'frozenset({1})',
                    'frozenset( {1})', 'frozenset({1} )', '{}', '{ }', '{1}', '{1,}', '{1:2}', '{1:2,}', '{1,2:3}', '()',
                    '(1)', '(1,)', '(1,2)', '[]', '[1]', '[1,]', '[,]', "<class 'int'>", "<class  'int'>", "<class'int'>",
                    "< class 'int'>", '<class "int">', "<class 'int' >", 'f', 'f(', 'f()', 'f( )', 'f(1)', 'f(x)', 'f(x=)', 'f(x=1',
                    'f(x=1,)', 'f(,)', 'f(x=1 y=2)', 'f(x=1,x=2)', 'f(x==1)', 'a=f()', 'a=b=f()', 'a = f ( x = 1 )', 'f()g()',
                    'lambda(x=1)', '<lambda>(x=1)', 'a.b()', 'f(a.b=1)', 'f(1x=1)', '1f()', '', ' ', u'\u0661', u'f\xe9()',
                    'frozenset(x=1)', 'set(x=1)', 'frozenset({1},{2})', '{{1}}', '{[1]}', "{():1}", '{f():1}', '{(1,2):(3,)}'])
    ctx = rng.choice(['f(x=%s)', 'f(x=[%s])', 'f(x=[1,%s,2])', 'f(x=(%s))', 'f(x={%s})', 'f(x={%s:1})', 'f(x={1:%s})', 'o=f(x=%s)',
                      'f(x=g(y=%s))', '%s', 'f(x=frozenset({%s}))', 'f(x=%s,y=%s)', 'f(%s=1)', '%s(x=1)', '%s=f()', 'f(x= %s )'])
    judge(t, ctx.replace('%s', v), 'values')


def not_strings(t, rng, i):
    import whatami as wm
    bad = rng.choice([None, 3, 2.5, [], (), {}, b'f()', object(), wm.What('f', {}), ['f()']])
    out = t.call('parse_whatid', wm.parse_whatid, bad)
    t.check(out.failed, 'something that is not a string is parsed', bad=bad, got=out.value)
    t.same(ref.norm_obj(t.ok('parse_whatid', wm.parse_whatid, "f(x='a')")),
           ('what', 'f', None, frozenset([('x', ('str', "'a'"))])), 'wrong value after an error')
    t.seen(('bad', repr(type(bad))))


CHARACTERS = gen.CHARS + ["'", '\\', '\r\n', '\x1c', u'\u2029', '\x08', u'\uffff', u'\U0010ffff', 'x41', 'u0041', 'N{DIGIT ONE}', '']


def characters(t, rng, i):
    """Any character inside of a string, also escaped, at any place of it."""
    c = CHARACTERS[i % len(CHARACTERS)]
    before, after = rng.choice(['', '', 'a', '\\\\', "\\'", ' ', '\n']), rng.choice(['', '', 'a', '\\\\', "\\'", ' ', '\n'])
    for slashes in range(4):
        text = "'%s'" % (before + '\\' * slashes + c + after)
        judge(t, rng.choice(['f(x=%s)', 'f(x=[%s,1])', 'f(x={%s:1})', 'o=f(x=g(y=%s),z=1)']).replace('%s', text), 'characters')
    t.event('characters')


def split(t, rng, i):
    """White space, or one more separator, at any place of an id, also inside of its tokens."""
    spec = gen.what(rng, O, rng.randrange(0, 3))
    number = rng.choice(['-%d' % rng.randrange(100), '-1.5', '1e+5', '2e-7', '-3.25e-08', '-inf', 'nan', '10', 'True', 'None', "<class 'int'>",
                         'frozenset({1})', 'set()', 'frozenset()'])
    text = rng.choice(['f(x=%s)', 'f(a=[%s,1])', 'o=f(x={%s,2})', 'f(x={%s:1})', 'f(x=g(y=%s),z=1)']).replace('%s', number)
    if rng.random() < 0.5:
        text = ref.render(spec)
    for where in rng.sample(range(len(text) + 1), min(14, len(text) + 1)):
        t.event('split')
        judge(t, text[:where] + rng.choice([' ', ' ', '\n', '\t', '  ', '\r', '_', ',', ';', '.', '+', '-']) + text[where:], 'split')


def repeated(t, rng, i):
    """Dictionaries with the same key several times, maybe with other text."""
    keys = rng.choice([['1', '1'], ["'a'", "'a'"], ['(1,2)', '( 1 , 2 )'], ['None', 'None'], ['1.5', '1.50'], ['10', '1e1'], ['True', 'True'], ["'a'", '"a"'],
                       ['frozenset({1,2})', 'frozenset({2,1})'], ['1', '01'], ['-1', '-1'], ["''", "''"], ["<class 'int'>", "<class 'int'>"]])
    items = ['%s:%s' % (rng.choice(keys), v) for v in rng.sample(['1', '2', 'None', "'z'", '[1]', 'g(y=1)', '{1:2}'], rng.randrange(2, 5))]
    for k in rng.sample(["'other'", '77', '()'], rng.randrange(3)):
        items.insert(rng.randrange(len(items) + 1), '%s:%d' % (k, len(items)))
    t.event('repeated key')
    judge(t, rng.choice(['f(x=%s)', 'f(x=[%s,1])', 'o=f(x=g(y=%s),z=1)', "f(x={'k':%s})"]).replace('%s', '{%s}' % ','.join(items)), 'repeated')


PHASES = [('larger sizes', sizes.parsed, {'quick': 2, 'thorough': 24}),
          ('repeated', repeated, {'quick': 60, 'thorough': 3000}),
          ('split', split, {'quick': 200, 'thorough': 8000}),
          ('characters', characters, {'quick': 160, 'thorough': 4000}),
          ('white space', white_space, {'quick': 200, 'thorough': 9000}),
          ('mutations', mutations, {'quick': 350, 'thorough': 15000}),
          ('token soup', token_soup, {'quick': 300, 'thorough': 12000}),
          ('values', values, {'quick': 700, 'thorough': 12000}),
          ('not strings', not_strings, {'quick': 10, 'thorough': 100})]
