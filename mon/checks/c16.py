# coding=utf-8
"""C16: ids of arrays, data frames, series and random states depend on their contents only."""
import pickle
import random
import re

import numpy as np

from .. import gen, ref

PROPERTY = 'C16'
TECHNIQUE = ('runtime monitoring: metamorphic monitors over the ids of arrays, series, frames and random states rebuilt '
             'through other histories or edited, with snapshots of the objects and generators around each request')
RULE = ('arrays (also masked) of many dtypes, shapes, layouts and classes, series, frames and random states, each rebuilt through several '
        'histories (copies, views, slices, pickles, used objects) and edited in one element, label, type, shape or state, as '
        'values at any depth; distinct by id; non-trivial: not empty')
REQUIRE = {'label': 200, 'strided edited': 90, 'axes': 60, 'typed column': 180, 'masked': 70, 'masked rebuilt': 200, 'masked edited': 180, 'array': 300, 'array rebuilt': 900, 'array edited': 500, 'series': 30, 'series edited': 100, 'frame': 50,
           'frame edited': 250, 'rng': 120, 'rng pairs equal': 30, 'rng pairs different': 120, 'unchanged': 500,
           'history:view': 50, 'history:slice': 50, 'history:pickle': 50, 'history:copy': 50, 'pair different': 150}

SHARDS = {'quick': 4, 'thorough': 7}

DTYPES = ['bool', 'i1', 'u1', '<i4', '>i4', 'i8', 'u8', 'f2', 'f4', 'f8', '>f8', 'c16', 'S3', 'U4', 'M8[ns]', 'M8[D]', 'm8[s]', 'O',
          [('a', 'i4'), ('b', 'f8')], [('a', 'i4'), ('c', 'f8')], [('x', 'U3'), ('y', 'i2', (2,))]]
SHAPES = [(), (0,), (1,), (3,), (7,), (2, 3), (3, 2), (6, 1), (1, 6), (2, 1, 3), (0, 3), (3, 0), (2, 2, 2), (4, 5), (200,), (40, 30)]


def element(rng, dtype):
    """One python value for the dtype."""
    if isinstance(dtype, list):
        return tuple([[element(rng, d[1]) for _ in range(2)] if len(d) == 3 else element(rng, d[1]) for d in dtype])
    k = np.dtype(dtype).kind
    if k == 'b':
        return rng.random() < 0.5
    if k in 'iu':
        return rng.randrange(0, 120)
    if k == 'f':
        return rng.choice([0.5, 1.5, rng.randrange(1, 100) / 4., rng.choice([0.0, -0.0, float('nan'), float('inf'), -float('inf'), -0.5])])
    if k == 'c':
        return complex(rng.randrange(1, 9), rng.randrange(9))
    if k == 'S':
        return rng.choice([b'a', b'ab', b'abc', b''])
    if k == 'U':
        return rng.choice([u'a', u'ab', u'abc', u'', u'\xe9', u'a b'])
    if k in 'Mm':
        return rng.randrange(1, 10 ** 4)
    return rng.choice([1, 'a', 'b', None, 2.5, True, b'x', 10 ** 20])


class Array(object):
    """How to build an array: same recipe, same array."""

    def __init__(self, rng):
        self.dtype = rng.choice(DTYPES)
        self.shape = rng.choice(SHAPES)
        n = int(np.prod(self.shape))
        self.elements = [element(rng, self.dtype) for _ in range(n)]
        self.order = rng.choice('CCF')
        self.cls = rng.choice(['ndarray'] * 5 + ['Sub', 'matrix', 'memmap'])
        if self.cls == 'matrix' and (len(self.shape) != 2 or isinstance(self.dtype, list)):
            self.cls = 'ndarray'
        if self.cls == 'memmap' and (self.dtype == 'O' or n == 0):
            self.cls = 'Sub'

    def base(self):
        a = np.empty(len(self.elements), dtype=self.dtype)
        for i, e in enumerate(self.elements):
            a[i] = tuple(e) if isinstance(self.dtype, list) else e
        return a.reshape(self.shape).copy(order=self.order)

    def klass(self):
        return {'ndarray': np.ndarray, 'Sub': Sub, 'matrix': np.matrix, 'memmap': np.memmap}[self.cls]

    def make(self, history='direct', rng=None):
        """The array, through some history; None when the history does not lead to the same layout."""
        a = self.base()
        if history == 'copy':
            a = a.copy(order='K')
        elif history == 'view':
            a = a[...]
            a = a.T.T
        elif history == 'slice':   # the array is a window over another one
            if not a.ndim or self.order != 'C':
                return None
            big = np.concatenate([a, a, a], axis=0)
            a = big[a.shape[0]:2 * a.shape[0]]
        elif history == 'pickle':
            a = pickle.loads(pickle.dumps(a))
        elif history == 'filled':
            b = np.zeros_like(a)
            b[...] = a
            a = b
        elif history == 'edited back':
            if not a.size or a.ndim == 0:
                return None
            i = tuple([rng.randrange(s) for s in a.shape])
            kept = a[i].copy() if hasattr(a[i], 'copy') else a[i]
            a[i] = a[tuple([0] * a.ndim)] if a.dtype.kind != 'V' else np.zeros((), a.dtype)[()]
            a[i] = kept
        elif history == 'readonly':
            a.flags.writeable = False
        elif history == 'from list':
            if self.dtype == 'O' or isinstance(self.dtype, list) or self.order != 'C' or a.dtype.kind in 'Mm':
                return None
            a = np.array(a.tolist(), dtype=self.dtype).reshape(self.shape)
        elif history == 'strided and back':
            if a.ndim != 1:
                return None
            b = np.zeros(2 * len(a), dtype=a.dtype)
            b[::2] = a
            a = b[::2].copy()
        if self.cls == 'memmap':
            import tempfile
            with tempfile.NamedTemporaryFile() as f:
                m = np.memmap(f.name, dtype=a.dtype, mode='w+', shape=a.shape, order=self.order)
                m[...] = a
            return m
        return a if self.cls == 'ndarray' else a.view(self.klass())


HISTORIES = ['direct', 'copy', 'view', 'slice', 'pickle', 'filled', 'edited back', 'readonly', 'from list', 'strided and back']


class Sub(np.ndarray):
    pass


def identity(a):
    """What the id of an array should tell."""
    content = tuple([repr(x) for x in a.ravel().tolist()]) if a.dtype.hasobject else a.tobytes()
    return (type(a).__name__, repr(a.dtype.descr), a.shape, a.strides, content)


def ask(t, rng, obj):
    """The text that stands for the object as a value, wherever it is."""
    import whatami as wm
    from whatami.plugins import WhatamiPluginManager
    text = t.ok('build_string', WhatamiPluginManager.build_string, obj)
    nest, shown = rng.choice([(lambda v: v, '%s'), (lambda v: [v, 1], '[%s,1]'), (lambda v: (v, v), '(%s,%s)'),
                              (lambda v: {'k': v}, "{'k':%s}"), (lambda v: wm.What('g', {'y': (v,)}), 'g(y=(%s))'),
                              (lambda v: (lambda x=v: x), 'lambda(x=%s)'), (lambda v: Holder(v), 'Holder(y=%s)')])
    whole = t.ok('id', wm.What('f', {'x': nest(obj)}).id)
    t.same(whole, 'f(x=%s)' % shown.replace('%s', text), 'the id depends on where the object is')
    return text


class Holder(object):
    def __init__(self, y):
        self.y = y

    def what(self):
        import whatami as wm
        return wm.What('Holder', {'y': self.y})


def formatted(t, text, name):
    t.check(re.match(r"^%s\(hash='[0-9a-f]{16,}'\)$" % re.escape(name), text) is not None,
            'the id does not show the class and a digest', id=text)
    import whatami as wm
    parsed = t.ok('id2what', wm.id2what, text)
    t.same((parsed.name, sorted(parsed.conf)), (name, ['hash']), 'the id is parsed as something else', id=text)


def edited_array(rng, recipe):
    """Arrays that differ in a single thing."""
    import copy
    other = copy.deepcopy(recipe)
    op = rng.randrange(6)
    if op == 0 and other.elements:
        i = rng.randrange(len(other.elements))
        if isinstance(other.elements[i], float) and other.elements[i] == 0:
            other.elements[i] = -other.elements[i]
        else:
            other.elements[i] = element(rng, other.dtype)
    elif op == 1:
        other.shape = rng.choice([s for s in SHAPES if int(np.prod(s)) == int(np.prod(other.shape))])
        if other.cls == 'matrix' and len(other.shape) != 2:
            other.cls = 'ndarray'
    elif op == 2 and other.dtype in ('i1', 'u1', 'bool', '<i4', '>i4', 'i8', 'u8'):
        other.dtype = rng.choice(['i1', 'u1', '<i4', '>i4', 'i8', 'u8', 'm8[s]', 'f8', 'f4', 'O', 'M8[ns]', 'M8[D]'])
        other.elements = [int(e) for e in other.elements]
        if other.cls == 'memmap' and other.dtype == 'O':
            other.cls = 'ndarray'
    elif op == 3:
        other.cls = rng.choice(['ndarray', 'Sub'])
    elif op == 4 and len(other.elements) > 1:
        i, j = rng.sample(range(len(other.elements)), 2)
        other.elements[i], other.elements[j] = other.elements[j], other.elements[i]
    elif op == 5 and len(other.shape) > 1:
        other.order = 'F' if other.order == 'C' else 'C'
    return other


def arrays(t, rng, i):
    recipe = Array(rng)
    a = recipe.make()
    t.event('array')
    before = identity(a)
    text = ask(t, rng, a)
    t.event('unchanged')
    t.same(identity(a), before, 'asking for the id changes the array')
    formatted(t, text, recipe.klass().__name__)
    t.same(ask(t, rng, a), text, 'asking again gives another id')
    for history in rng.sample(HISTORIES, 5):
        b = recipe.make(history, rng)
        if b is None or identity(b) != before:
            continue
        t.event('array rebuilt')
        t.event('history:' + history)
        t.same(ask(t, rng, b), text, 'equal arrays with different ids', history=history, array=repr(a), dtype=str(a.dtype))
    for _ in range(3):
        b = edited_array(rng, recipe).make()
        same = identity(b) == before
        if a.dtype.hasobject and (same or identity(b)[:3] + identity(b)[4:] == before[:3] + before[4:]):
            continue   # for python objects, sharing and layout are not told
        t.event('array edited')
        other = ask(t, rng, b)
        t.check((other == text) == same, 'equal arrays with different ids' if same else 'different arrays with the same id',
                one=repr(before)[:400], other=repr(identity(b))[:400], id=text)
    if a.ndim > 1 and a.size > 1 and not a.dtype.hasobject and type(a) is np.ndarray and recipe.order == 'C':
        # the same shape and memory, with the axes in another order
        for axes in set([tuple(rng.sample(range(a.ndim), a.ndim)) for _ in range(3)] + [tuple(range(a.ndim))[::-1]]):
            shape = [a.shape[k] for k in axes]
            b = np.frombuffer(a.tobytes(), dtype=a.dtype).reshape(shape).transpose(np.argsort(axes))
            if b.shape == a.shape and b.tobytes() != a.tobytes():
                t.event('axes')
                t.check(ask(t, rng, b) != text, 'different arrays with the same id', one=repr(a)[:400], other=repr(b)[:400])
    if a.size and a.ndim and a.dtype.kind in 'iuf' and np.isfinite(a).all():      # the same object, changed in place
        index = tuple([rng.randrange(s) for s in a.shape])
        kept = a[index]
        a[index] = kept + 1
        t.check(ask(t, rng, a) != text, 'an array changed in place keeps its id', array=repr(a))
        a[index] = kept
        t.same(ask(t, rng, a), text, 'restoring the array should restore the id', array=repr(a))
    if a.size:
        t.seen(text)
        t.sample('%s %s %s' % (text, recipe.dtype, recipe.shape))


def large(t, rng, i):
    """Arrays with many elements, that differ in only one of them, anywhere."""
    n = rng.choice([1000, 10 ** 4, 10 ** 5, 10 ** 6])
    dtype = rng.choice(['f8', 'i4', 'u1', 'f4'])
    a = np.random.RandomState(i).randint(0, 100, size=n).astype(dtype)
    text = ask(t, rng, a)
    t.same(ask(t, rng, a.copy()), text, 'equal arrays with different ids')
    for where in (0, 1, n - 1, n - 2, n // 2, rng.randrange(n), rng.randrange(n)):
        b = a.copy()
        b[where] += 1
        t.event('array edited')
        t.check(ask(t, rng, b) != text, 'different arrays with the same id', size=n, where=where)
    t.seen(text)


# --- Series and frames

INDEXES = ['range', 'from', 'steps', 'named', 'ints', 'strings', 'dates']


def values(rng, kind, n):
    import pandas as pd
    if kind == 'int':
        return np.array([rng.randrange(100) for _ in range(n)], dtype='i8')
    if kind == 'float':
        return np.array([rng.choice([0.5, 1.25, 3.]) * rng.randrange(1, 50) for _ in range(n)])
    if kind == 'str':
        return np.array([rng.choice(['a', 'b', 'cc', "d'e", '']) for _ in range(n)], dtype=object)
    if kind == 'bool':
        return np.array([rng.random() < .5 for _ in range(n)])
    if kind == 'date':
        return np.array([rng.randrange(10 ** 4) for _ in range(n)], dtype='M8[D]').astype('M8[ns]')
    if kind == 'i4':
        return np.array([rng.randrange(100) for _ in range(n)], dtype='i4')
    if kind == 'cat':
        return pd.Categorical([rng.choice('uvw') for _ in range(n)], categories=list('uvw'))
    raise ValueError(kind)


KINDS = ['int', 'float', 'str', 'bool', 'date', 'i4']


def index(kind, n, labels):
    import pandas as pd
    if kind == 'range':
        return pd.RangeIndex(n)
    if kind == 'from':
        return pd.RangeIndex(labels, labels + n)
    if kind == 'steps':
        return pd.RangeIndex(3, 3 + n * (1 + labels % 7), 1 + labels % 7)
    if kind == 'named':
        return pd.RangeIndex(n, name='name %d' % (labels % 5))
    if kind == 'ints':
        return pd.Index([10 * i + labels % 7 for i in range(n)])
    if kind == 'strings':
        return pd.Index(['r%d_%d' % (labels % 5, i) for i in range(n)])
    return pd.to_datetime(['2020-01-%02d' % (1 + labels % 5 + i) for i in range(n)])


class Table(object):
    """How to build a series or a frame."""

    def __init__(self, rng, series=False):
        self.n = rng.choice([0, 1, 2, 3, 5, 20])
        self.index = rng.choice(INDEXES)
        if self.n == 20 and self.index == 'dates':
            self.index = 'ints'
        self.labels = rng.randrange(100)
        self.names = rng.sample(['a', 'b', 'c', 'long name', 'x'], rng.randrange(1, 5))
        self.columns = [(rng.choice(KINDS), rng.randrange(10 ** 6)) for _ in self.names]
        self.series = series

    def make(self):
        import pandas as pd
        columns = [values(random.Random(seed), kind, self.n) for kind, seed in self.columns]
        idx = index(self.index, self.n, self.labels)
        if self.series:
            return pd.Series(columns[0], index=idx, name=self.names[0])
        return pd.DataFrame(dict(zip(self.names, columns)), index=idx, columns=list(self.names))


def table_identity(x):
    import pandas as pd
    if isinstance(x, pd.Series):
        return ('series', str(x.dtype), repr(x.name), tuple([repr(v) for v in x.tolist()]), type(x.index).__name__,
                tuple([repr(v) for v in x.index.tolist()]), repr(x.index.name))
    return ('frame', tuple([repr(c) for c in x.columns]), tuple([str(d) for d in x.dtypes]),
            tuple([tuple([repr(v) for v in x.iloc[:, j].tolist()]) for j in range(x.shape[1])]), type(x.index).__name__,
            tuple([repr(v) for v in x.index.tolist()]), repr(x.index.name))


def use(x):
    """Things that fill the caches of pandas."""
    x.index.is_unique
    len(x)
    repr(x)
    x.describe() if len(x) else None
    if len(x):
        x.index.get_loc(x.index[0])
        x.iloc[0]
    if hasattr(x, 'columns'):
        x.columns.get_loc(x.columns[0])
        x[x.columns[0]]
        x[x.columns[0]].sum() if x.dtypes.iloc[0].kind in 'if' else None
    x == x


def edited_table(rng, recipe):
    import copy
    other = copy.deepcopy(recipe)
    op = rng.randrange(7)
    if op == 0:
        j = 0 if other.series else rng.randrange(len(other.columns))
        other.columns[j] = (other.columns[j][0], rng.randrange(10 ** 6))
    elif op == 1:
        other.index = rng.choice([k for k in INDEXES if k != 'dates' or other.n < 20])
    elif op == 2:
        other.labels += rng.randrange(1, 5)
    elif op == 3:
        other.names[0] = other.names[0] + rng.choice(' xX')
    elif op == 4 and len(other.names) > 1:
        other.names[0], other.names[1] = other.names[1], other.names[0]
    elif op == 5:
        other.n += 1 if not (other.index == 'dates' and other.n > 5) else -1
    else:
        j = 0 if other.series else rng.randrange(len(other.columns))
        kind, seed = other.columns[j]
        other.columns[j] = ({'int': 'i4', 'i4': 'int'}.get(kind, rng.choice(KINDS)), seed)
    return other


def tables(t, rng, i):

    series = rng.random() < 0.4
    recipe = Table(rng, series)
    t.event('series' if series else 'frame')
    x = recipe.make()
    before = table_identity(recipe.make())   # N.B. reading from the index could change it, see dates
    text = ask(t, rng, x)
    t.event('unchanged')
    t.same(table_identity(x), before, 'asking for the id changes the object')
    formatted(t, text, 'Series' if series else 'DataFrame')
    for _ in range(2):
        y = recipe.make()
        if rng.random() < 0.5 and recipe.index != 'dates':
            use(y)
        t.same(ask(t, rng, y), text, 'the same %s with different ids' % before[0], table=repr(x))
    if recipe.index == 'dates':   # known finding, see the last phase
        x = recipe.make()
    else:
        use(x)
    t.same(ask(t, rng, x), text, 'using the %s changes its id' % before[0], table=repr(x))
    if series and recipe.index == 'range' and recipe.columns[0][0] in ('int', 'float'):
        for y in (x.copy(), x[:], x.rename('other').rename(x.name)):
            t.same(ask(t, rng, y), text, 'equal series with different ids', table=repr(x))
    for _ in range(4):
        y = edited_table(rng, recipe).make()
        same = table_identity(y) == before
        if same:
            continue
        t.event('series edited' if series else 'frame edited')
        t.check(ask(t, rng, y) != text, 'different contents with the same id', one=before, other=table_identity(y), id=text)
    if recipe.n and recipe.columns[0][0] in ('int', 'float'):
        row = rng.randrange(recipe.n)
        if series:
            kept = x.iloc[row]
            x.iloc[row] = kept + 1
        else:
            kept = x.iloc[row, 0]
            x.iloc[row, 0] = kept + 1
        t.check(ask(t, rng, x) != text, 'an object changed in place keeps its id', table=repr(x))
    if recipe.n:
        t.seen(text)
        t.sample('%s %s' % (text, recipe.__dict__))


def permuted(t, rng, i):
    """The same columns in other orders, and the same values under other times."""
    import pandas as pd
    m, n = rng.choice([2, 3, 4, 5, 8, 20]), rng.choice([1, 2, 5])
    kind = rng.choice(['i8', 'f8', 'M8[ns]', 'bool', object])
    data = np.array([[rng.randrange(100) for _ in range(m)] for _ in range(n)])
    data[0] = range(m)
    data = (data % 2 == 0) if kind == 'bool' else np.array([['s%d' % v for v in row] for row in data], dtype=object) if kind is object else data.astype(kind)
    names = rng.choice([['c%02d' % j for j in range(m)], list(range(m)), list('zyxwvutsrqponmlkjihgfedcba'[:m])])

    def make(order):
        return pd.DataFrame(data[:, order].copy(), columns=[names[j] for j in order])
    texts = {}
    orders = [list(range(m)), list(range(m))[::-1], list(range(1, m)) + [0]]
    for _ in range(4):
        order = list(range(m))
        rng.shuffle(order)
        orders.append(order)
    for order in orders:
        text = ask(t, rng, make(order))
        t.event('columns permuted')
        t.check(texts.setdefault(text, order) == order, 'frames with columns in other orders with the same id', one=texts[text], other=order)
        t.same(ask(t, rng, make(order)), text, 'the same frame with different ids')
    moments = [[(1 + j) * 86400 + rng.choice([0, 3600, 7200, 61]) for j in range(4)] for _ in range(2)]
    kept = list(moments[0])
    kept[rng.randrange(4)] += rng.choice([1, 60, 3600, 1e-3, 1e-9])
    moments.append(kept)
    texts = {}
    frame = rng.random() < 0.5
    for seconds in moments:
        def series():
            index = pd.DatetimeIndex(np.array([int(s) * 10 ** 9 + int(round(s % 1 * 1e9)) for s in seconds], 'M8[ns]'))
            return pd.DataFrame({'a': range(4)}, index=index) if frame else pd.Series(range(4), index=index)
        text = ask(t, rng, series())
        t.event('moments')
        t.check(texts.setdefault(text, seconds) == seconds, 'different times with the same id', one=texts[text], other=seconds)
    t.seen(('permuted', sorted(texts)))


def pairs(t, rng, i):
    """Objects of different kinds over the same data."""
    import pandas as pd
    data = [rng.randrange(100) for _ in range(rng.randrange(2, 6))]
    n = len(data)
    objs = {
        'array': np.array(data), 'column': np.array(data)[:, None], 'row': np.array(data)[None], 'floats': np.array(data, 'f8'),
        'big endian': np.array(data, '>i8'), 'i4': np.array(data, 'i4'), 'objects': np.array(data, object),
        'strings': np.array([str(d) for d in data]), 'sub': np.array(data).view(Sub), 'series': pd.Series(data),
        'frame': pd.DataFrame({'a': data}), 'frame 0': pd.DataFrame(data), 'named': pd.Series(data, name='a'),
        'times': np.array(data, 'M8[ns]'), 'deltas': np.array(data, 'm8[ns]'), 'u8': np.array(data, 'u8'),
        'bytes': np.frombuffer(np.array(data).tobytes(), 'u1'), 'padded': np.array(data + [0]),
        'masked': np.ma.array(data), 'fields': np.array([(d,) for d in data], [('a', 'i8')]),
        'other field': np.array([(d,) for d in data], [('b', 'i8')]), 'index': pd.Series(data, index=['i%d' % j for j in range(n)]),
        'swapped': np.array(data, 'i8').view('>i8'), 'same bytes f8': np.array(data, 'i8').view('f8'), 'same bytes S8': np.array(data, 'i8').view('S8'),
        'same bytes M8': np.array(data, 'i8').view('M8[us]'), 'same bytes m8': np.array(data, 'i8').view('m8[s]'), 'transposed': pd.DataFrame([data]), 'reverse strides': np.array(data[::-1])[::-1] if n > 1 else np.zeros(9)}
    texts = {}
    for k, o in objs.items():
        text = ask(t, rng, o)
        t.event('pair different', len(texts))
        t.check(text not in texts, 'different objects with the same id', one=k, other=texts.get(text), id=text)
        texts[text] = k
    t.seen(sorted(texts))


# --- Random states

def draw(rng, r):
    how = rng.randrange(9)
    if how == 0:
        r.random_sample(rng.randrange(1, 700))
    elif how == 1:
        r.normal()
    elif how == 2:
        r.randn(rng.randrange(1, 4))
    elif how == 3:
        r.randint(0, 1000, size=rng.randrange(1, 5))
    elif how == 4:
        r.permutation(rng.randrange(2, 20))
    elif how == 5:
        r.shuffle(np.arange(5))
    elif how == 6:
        r.choice(5, size=2)
    elif how == 7:
        r.bytes(3)
    else:
        r.random_sample()


def state(r):
    kind, key, pos, has, cached = r.get_state()
    return (kind, key.tobytes(), pos, has, cached)


def states(t, rng, i):
    cls = type('MyRandom', (np.random.RandomState,), {}) if rng.random() < 0.15 else np.random.RandomState
    pool = []
    steps = rng.randrange(10 ** 6)
    seed = rng.randrange(3)
    for _ in range(4):
        how = rng.randrange(4)
        r = cls(seed)
        for _ in range(rng.choice([0, 0, 1, 2])):
            draw(random.Random(steps), r)
        if how == 1:
            s = cls(99)
            s.set_state(r.get_state())
            r = s
        elif how == 2 and cls is np.random.RandomState:
            r = pickle.loads(pickle.dumps(r))
        elif how == 3:
            draw(rng, r)
        pool.append(r)
    for _ in range(3):   # minimally different: the position, one word of the key, the gaussian kept for the next draw
        kind, key, pos, has, cached = rng.choice(pool).get_state()
        how = rng.randrange(4)
        if how == 0:
            pos = (pos + rng.choice([1, 7, 623])) % 625
        elif how == 1:
            key = key.copy()
            key[rng.choice([0, 1, 300, 622, 623])] ^= np.uint32(1 << rng.randrange(32))
        elif has and how == 2:
            cached = rng.choice([-cached, cached + 1e-9, -2.5])
        else:
            has, cached = 1, rng.choice([-0.75, 0.75, 1.5, -1.5, 1e-3])
        r = cls(99)
        r.set_state((kind, key, pos, has, cached))
        pool.append(r)
        t.event('minimally different state')
    known = []
    for r in pool:
        before = state(r)
        t.event('rng')
        glob = np.random.get_state()[1].tobytes(), np.random.get_state()[2], random.getstate()
        text = ask(t, rng, r)
        t.event('unchanged')
        t.same(state(r), before, 'asking for the id changes the state')
        t.check(glob == (np.random.get_state()[1].tobytes(), np.random.get_state()[2], random.getstate()),
                'asking for the id changes the global random generators')
        t.check(text.startswith(cls.__name__ + '(state='), 'the id does not show the class and state', id=text[:200])
        for other, other_text in known:
            t.event('rng pairs equal' if other == before else 'rng pairs different')
            t.check((other == before) == (text == other_text), 'ids do not correspond to the states of the generators',
                    same_state=other == before, positions=(other[2], before[2]))
        known.append((before, text))
    # a request between draws does not change what is drawn
    a, b = cls(seed), cls(seed)
    for _ in range(3):
        x = a.normal(size=rng.randrange(1, 4))
        y = b.normal(size=len(x))
        t.same(y.tolist(), x.tolist(), 'asking for the id consumes random numbers')
        ask(t, rng, b)
    t.seen([text for _, text in known])


def global_state(t, rng, i):
    """The random state of numpy itself."""
    r = np.random.mtrand._rand
    np.random.seed(i)
    one = ask(t, rng, r)
    t.same(ask(t, rng, r), one, 'asking for the id consumes random numbers')
    np.random.random_sample()
    t.check(ask(t, rng, r) != one, 'the id does not depend on the state')
    np.random.seed(i)
    t.same(ask(t, rng, r), one, 'same states with different ids')
    t.same(ask(t, rng, np.random.RandomState(i)), one, 'same states with different ids')
    t.seen(one)


def blocks(t, rng, i):
    """Known finding: the id of a frame depends on how its columns are kept together in memory."""
    import pandas as pd
    columns = {'a': [1, 2], 'b': [3, 4]}
    one = pd.DataFrame(columns)
    two = pd.DataFrame({'a': columns['a']})
    two['b'] = columns['b']
    t.check(one.equals(two), 'the probe is wrong')
    t.check(ask(t, rng, one) == ask(t, rng, two), 'equal frames built column by column have different ids',
            finding='frame-block-layout')


def caches(t, rng, i):
    """Known finding: the id of pandas objects with dates as index depends on whether these were read."""
    import pandas as pd
    one = pd.DataFrame({'x': [1, 2]}, index=pd.to_datetime(['2020-01-01', '2020-01-02']))
    text = ask(t, rng, one)
    one.index[0]
    t.check(ask(t, rng, one) == text, 'reading from the index of a frame changes its id', finding='dates-index-cache')


blocks.unsharded = True
caches.unsharded = True
global_state.unsharded = True

def masked(t, rng, i):
    """Masked arrays also tell what they mask."""
    while True:
        recipe = Array(rng)
        if recipe.dtype != 'O':
            break
    recipe.cls = 'ndarray'
    base = recipe.base()
    mask = np.zeros(base.shape, np.ma.make_mask_descr(base.dtype))
    names = mask.dtype.names

    def flip(m, n):
        m = m.copy()
        flat = m.reshape(-1)
        if names:
            flat[names[n % len(names)]][n // len(names) % max(1, len(flat))] ^= True
        else:
            flat[n % len(flat)] ^= True
        return flat.reshape(base.shape)

    if base.size:
        for _ in range(rng.randrange(4)):
            mask = flip(mask, rng.randrange(10 ** 4))
    empty = not mask.tobytes().strip(b'\0')

    def make(m, data=None):
        return np.ma.MaskedArray(recipe.base() if data is None else data, mask=m.copy(), keep_mask=False)
    a = make(mask)
    shown = ask(t, rng, a)
    formatted(t, shown, 'MaskedArray')
    t.event('masked')
    t.check(np.array_equal(np.ma.getmaskarray(a), mask), 'asking for the id changes the mask', array=repr(a))
    again = [('direct', make(mask)), ('copy', make(mask).copy(order='K') if recipe.order == 'C' else make(mask)), ('view', make(mask)[...])]
    hard = make(mask)
    hard.harden_mask()
    again.append(('hard mask', hard))
    if empty:
        again.append(('no mask', np.ma.MaskedArray(recipe.base())))
    if base.ndim and base.size and recipe.order == 'C' and not names:
        later = np.ma.MaskedArray(recipe.base())
        for index in np.argwhere(mask):
            later.mask = np.ma.getmaskarray(later) | (np.arange(base.size).reshape(base.shape) == np.ravel_multi_index(tuple(index), base.shape))
        again.append(('masked later', later))
    for history, b in again:
        if b.data.strides != base.strides or b.data.tobytes() != base.tobytes():
            continue
        t.event('masked rebuilt')
        t.same(ask(t, rng, b), shown, 'equal arrays with different ids', history=history, array=repr(a), dtype=str(a.dtype))
    if base.size:
        t.check(ask(t, rng, base) != shown, 'different arrays with the same id', array=repr(a))
        for _ in range(3):
            other = flip(mask, rng.randrange(10 ** 4))
            t.event('masked edited')
            t.check(ask(t, rng, make(other)) != shown, 'different arrays with the same id', one=repr(a), mask=repr(other))
        other = edited_array(rng, recipe)
        if other.dtype == recipe.dtype and other.shape == recipe.shape and other.base().tobytes() != base.tobytes():
            t.event('masked edited')
            t.check(ask(t, rng, make(mask, other.base())) != shown, 'different arrays with the same id', one=repr(a))
    t.seen(shown)


LABELS = [lambda: 1, lambda: '1', lambda: 1.5, lambda: '1.5', lambda: 'None', lambda: ('a', 'b'), lambda: "('a', 'b')", lambda: '', lambda: ' ',
          lambda: 'a', lambda: 'A', lambda: b'a', lambda: True, lambda: 'True', lambda: -1, lambda: -2, lambda: 2 ** 61 - 2]


def labels(t, rng, i):
    """Labels of any kind: names, column labels and index labels."""
    import pandas as pd
    data = [rng.randrange(10) for _ in range(rng.choice([1, 2, 3]))]
    where = rng.choice(['name', 'column', 'index name', 'index label', 'columns name'])

    def make(label):
        if where == 'name':
            return pd.Series(data, name=label)
        if where == 'column':
            frame = pd.DataFrame({'x': data, 'y': data})
            frame.columns = pd.Index(['x', label], dtype=object, tupleize_cols=False)
            return frame
        index = pd.Index(['r%d' % n for n in range(len(data) - 1)] + [label if where == 'index label' else 'last'], dtype=object,
                         tupleize_cols=False)
        if where == 'index name':
            index.name = label
        frame = pd.DataFrame({'x': data}, index=index)
        if where == 'columns name':
            frame.columns.name = label
        return frame['x'] if as_series and where != 'columns name' else frame
    as_series = rng.random() < 0.4
    seen = {}
    for n in rng.sample(range(len(LABELS)), 9):
        text = ask(t, rng, make(LABELS[n]()))
        t.event('label')
        t.check(seen.setdefault(text, n) == n, 'different labels with the same id', where=where, one=repr(LABELS[seen[text]]()), other=repr(LABELS[n]()))
        t.same(ask(t, rng, make(LABELS[n]())), text, 'equal labels with different ids', where=where)
    t.seen(sorted(seen))


def typed_columns(t, rng, i):
    """The same information as other types, in other units or zones."""
    import pandas as pd
    n = rng.choice([1, 2, 5])
    dates = pd.date_range('2020-0%d-01' % rng.randrange(1, 9), periods=n)
    ints = [rng.randrange(1, 4) for _ in range(n)]
    letters = [rng.choice('ab') for _ in range(n)]
    family = rng.choice(['dates', 'numbers', 'texts', 'intervals'])
    if family == 'dates':
        variants = [pd.Series(dates), pd.Series(dates.tz_localize('UTC')), pd.Series(dates.tz_localize('UTC').tz_convert('Europe/Madrid')),
                    pd.Series(dates.tz_localize('Europe/Madrid')), pd.Series(dates.to_period('D')), pd.Series(dates.values.astype('i8')),
                    pd.Series(dates).astype(object), pd.Series(dates).astype(str), pd.Series(dates + pd.Timedelta(1, 'ns'))]
    elif family == 'numbers':
        variants = [pd.Series(ints, dtype=d) for d in ('i8', 'i4', 'i2', 'u8', 'f8', 'f4', 'c16', object, 'Int64', 'Int32', 'm8[ns]')]
        variants += [pd.Series(ints).astype('category'), pd.Series([str(v) for v in ints])]
    elif family == 'texts':
        variants = [pd.Series(letters, dtype=object), pd.Series(letters, dtype='string'), pd.Series([v.encode() for v in letters])]
        variants += [pd.Series(pd.Categorical(letters, categories=list(c), ordered=o)) for c in ('ab', 'ba', 'abc') for o in (False, True)]
    else:
        variants = [pd.Series(pd.interval_range(0, n, closed=c)) for c in ('left', 'right', 'both')] + [pd.Series(pd.interval_range(1, n + 1))]
    as_frame = rng.choice([None, 'only', 'more', 'index'])

    def make(variant):
        if as_frame is None:
            return variant
        if as_frame == 'index':
            return pd.DataFrame({'x': range(n)}, index=pd.Index(variant))
        return pd.DataFrame({'v': variant} if as_frame == 'only' else {'first': range(n), 'v': variant, 'last': letters})
    seen, seen_types = {}, set()
    for k, variant in enumerate(variants):
        one = make(variant.copy())
        text = ask(t, rng, one)
        t.event('typed column')
        t.same(ask(t, rng, make(variant.copy())), text, 'equal objects with different ids', family=family, frame=as_frame)
        if as_frame == 'index':    # indexes are only of some types
            if str(one.index.dtype) in seen_types:
                continue
            seen_types.add(str(one.index.dtype))
        t.check(seen.setdefault(text, k) == k, 'different objects with the same id', family=family, frame=as_frame,
                one=variants[seen[text]].dtype, other=variant.dtype)
    t.seen(('typed', family, sorted(seen)))


def strided(t, rng, i):
    """Windows with any steps over arrays with any number of dimensions."""
    ndim = rng.choice([1, 2, 3, 3, 4, 4])
    shape = [rng.randrange(2, 6) for _ in range(ndim)]
    dtype = rng.choice(['i4', 'f8', 'u1', '>i2', 'bool', 'c16', 'M8[s]'])
    window = tuple([slice(None, None, rng.choice([1, 2, -1, -2, 2])) for _ in shape])
    axes = rng.sample(range(ndim), ndim)
    data = np.array([rng.randrange(2) for _ in range(int(np.prod(shape)))]).astype(dtype).reshape(shape)

    def make(data, spare=None):
        base = data.copy()
        if spare is not None:
            seen = np.zeros(shape, bool)
            seen[window] = True
            base[~seen] = np.array(spare).astype(dtype)
        return base[window].transpose(axes)
    a = make(data)
    before = identity(a)
    text = ask(t, rng, a)
    t.same(identity(a), before, 'asking for the id changes the array')
    for spare in (0, 1):
        t.event('strided rebuilt')
        t.same(ask(t, rng, make(data, spare)), text, 'equal arrays with different ids', window=window, axes=axes)
    for _ in range(4):
        b = make(data)
        index = tuple([rng.randrange(s) for s in b.shape])
        b[index] = np.array(1 - int(b[index].astype('i8'))).astype(dtype)
        t.event('strided edited')
        t.check(ask(t, rng, b) != text, 'different arrays with the same id', window=window, axes=axes, index=index, shape=b.shape, dtype=dtype)
    t.seen((shape, str(window), axes, text))


PHASES = [('permuted', permuted, {'quick': 30, 'thorough': 1500}),
          ('strided', strided, {'quick': 40, 'thorough': 1500}),
          ('typed', typed_columns, {'quick': 40, 'thorough': 1500}),
          ('labels', labels, {'quick': 40, 'thorough': 1500}),
          ('arrays', arrays, {'quick': 500, 'thorough': 15000}),
          ('masked', masked, {'quick': 120, 'thorough': 4000}),
          ('large', large, {'quick': 8, 'thorough': 100}),
          ('tables', tables, {'quick': 150, 'thorough': 5000}),
          ('pairs', pairs, {'quick': 12, 'thorough': 200}),
          ('states', states, {'quick': 50, 'thorough': 1500}),
          ('global', global_state, {'quick': 3, 'thorough': 20}),
          ('blocks', blocks, {'quick': 1, 'thorough': 1}),
          ('caches', caches, {'quick': 1, 'thorough': 1})]
