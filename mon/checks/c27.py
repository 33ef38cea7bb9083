# coding=utf-8
"""C27: extracting id parameters into data frame columns is faithful."""
from .. import gen, ref, sizes

PROPERTY = 'C27'
TECHNIQUE = ('runtime monitoring: every cell of the data frames given back is compared with a model of the ids of its row, and the rest '
             'of the frame with a snapshot taken before')
RULE = ('frames with random ids (repeated, heterogeneous, nested, with missing parameters), indices (repeated, textual, dates, multiple), '
        'other columns, parameters chosen or not (names, tuples, lists), prefixes and suffixes, in place or not; distinct by ids and '
        'arguments; non-trivial: more than one different value in some column')
REQUIRE = {'large sizes': 1, 'extract': 400, 'cell': 4000, 'missing cell': 800, 'column': 1000, 'nested column': 120, 'list as column': 40, 'in place': 120,
           'copy': 120, 'default columns': 80, 'prefixed': 100, 'postfixed': 100, 'no prefix': 40, 'repeated index': 60, 'repeated id': 200,
           'empty frame': 8, 'no columns': 10, 'collection cell': 100, 'configuration cell': 60, 'again': 70}
O = gen.Options(whatables=False, funcs=False, nonids=False)
SHARDS = {'quick': 3}


def prepare():
    import pandas  # noqa


ANYTHING = ('anything',)


def lookup(spec, path):
    """Spec of the value of a parameter, or None if it is not there."""
    for n, key in enumerate(path):
        if spec[0] == 'what':
            found = [v for k, v in spec[3] if k == key]
        elif spec[0] in ('list', 'tuple') and isinstance(key, int) and n:
            found = spec[1][key:key + 1]
        elif spec[0] == 'str' and isinstance(key, int) and n and key < 2 * len(spec[1]):
            return ANYTHING        # a character (quotes come back escaped), maybe
        elif spec[0] == 'dict' and n:
            found = [v for k, v in spec[1] if k == ('str', key) or (isinstance(key, int) and k[0] in ('bool', 'int', 'float') and k[1] == key)]
        else:
            found = []
        if not found:
            return None
        spec = found[0]
    return spec


def population(rng):
    """Similar configurations."""
    keys = []
    for _ in range(rng.randrange(1, 5)):
        k = gen.ident(rng) if rng.random() < 0.94 else rng.choice(['whatid', 'score', 'label', 'index', 'columns', 'inplace'])
        if k not in keys:
            keys.append(k)
    simple = {k: rng.random() < 0.5 for k in keys}
    families = {k: rng.choice(['int', 'float', 'str', 'bool', 'mixed']) for k in keys}

    def value(k):
        f = families[k]
        if simple[k]:
            return {'int': lambda: ('int', rng.randrange(-5, 60)), 'float': lambda: ('float', rng.choice([0.5, 1.0, -2.25, 1e-7])),
                    'str': lambda: ('str', rng.choice(['a', 'b', 'hi there', '3', ''])), 'bool': lambda: ('bool', rng.random() < .5),
                    'mixed': lambda: gen.atom(rng, O)}[f]()
        if f == 'int':
            return ('what', 'In', None, [(j, gen.atom(rng, O)) for j in rng.sample(['p', 'q', 'alpha'], rng.randrange(4))], [])
        if f == 'float':
            return ('dict', [(('str', j), gen.atom(rng, O)) for j in rng.sample(['p', 'q', 'alpha'], rng.randrange(4))])
        if f == 'str':
            return ('list', [gen.atom(rng, O) for _ in range(rng.randrange(4))])
        return gen.value(rng, O, 2)

    specs, name = [], gen.name(rng)
    for _ in range(rng.choice([1, 2, 4, 8])):
        specs.append(('what', name if rng.random() < 0.7 else gen.name(rng), gen.ident(rng) if rng.random() < .15 else None,
                      [(k, value(k)) for k in keys if rng.random() < 0.8], []))
    return keys, specs


def frame(rng, pd, ids):
    n = len(ids)
    how = rng.randrange(6)
    index = [None, ['r%d' % rng.randrange(3) for _ in range(n)], list(range(n))[::-1], pd.date_range('2018-01-01', periods=n),
             pd.MultiIndex.from_tuples([(j % 2, 'x%d' % j) for j in range(n)]) if n else None, [7] * n][how]
    columns = [('whatid', ids), ('score', [rng.random() for _ in range(n)]), ('label', [rng.choice(['u', 'v', None]) for _ in range(n)]),
               ('n!', [rng.randrange(9) for _ in range(n)]), (33, [[1]] * n)]
    columns = columns[:1] + rng.sample(columns[1:], rng.randrange(5))
    rng.shuffle(columns)
    df = pd.DataFrame({k: pd.Series(v, dtype=object if k in ('whatid', 'label') else None) for k, v in columns},
                      columns=[k for k, _ in columns])
    if index is not None:
        df.index = index
    return df, how in (1, 5) and n > 1


def snapshot(df):
    return [(c, str(df[c].dtype), [repr(v) for v in df[c].values]) for c in df.columns], [repr(x) for x in df.index], df.index.name


def cells(t, rng, i):
    import numpy as np
    import pandas as pd
    from whatami import whatid2columns
    keys, specs = population(rng)
    n = rng.choice([0, 1, 3, 6, 12, 20])
    rows = [rng.choice(specs) for _ in range(n)]
    ids = []
    for s in rows:
        kvs = list(s[3])
        if rng.random() < 0.5:
            rng.shuffle(kvs)
        ids.append(('%s=' % s[2] if s[2] else '') + '%s(%s)' % (s[1], ','.join('%s=%s' % (k, ref.render(v)) for k, v in kvs)))
    if len(set(ids)) < len(ids):
        t.event('repeated id')
    df, repeated = frame(rng, pd, ids)
    if repeated:
        t.event('repeated index')
    if not n:
        t.event('empty frame')
    kw, prefix, postfix = {}, '', ''
    if rng.random() < 0.5:
        prefix = rng.choice(['pre_', 'x.', '', 'model=', keys[0][:1], keys[0], keys[-1][:2]])
        kw['prefix'] = prefix
        if prefix:
            t.event('prefixed')
    elif rng.random() < 0.3:
        kw['prefix'] = None
        t.event('no prefix')
    if rng.random() < 0.5:
        postfix = rng.choice(['_post', '.y', '', ' (2)', keys[0][-1:], keys[-1]])
        kw['postfix'] = postfix
        if postfix:
            t.event('postfixed')
    elif rng.random() < 0.3:
        kw['postfix'] = None
    inplace = True
    if rng.random() < 0.7:
        inplace = kw['inplace'] = rng.random() < 0.5
    t.event('in place' if inplace else 'copy')

    # what should be there: {name of the column: path}
    wanted = {}
    if rng.random() < 0.3:
        t.event('default columns')
        for s in rows:
            for k, _ in s[3]:
                wanted[k] = (k,)
    else:
        columns = []
        for _ in range(rng.randrange(1, 5) if rng.random() < 0.94 else 0):
            r = rng.random()
            k = rng.choice(keys)
            if r < 0.45:
                column = k
            elif r < 0.55:
                column = rng.choice(['not_there', (k, 'not_there'), ('not', 'there')])
            else:
                column = (k, rng.choice(['p', 'q', 'alpha', 0, 1, 1]))
                if rng.random() < 0.4:
                    t.event('list as column')
                    column = list(column)
                t.event('nested column')
            name = column if isinstance(column, str) else '_'.join([str(c) for c in column])
            path = (column,) if isinstance(column, str) else tuple(column)
            if name in wanted:
                continue
            wanted[name] = path
            columns.append(column)
        kw['columns'] = columns if rng.random() < 0.7 else tuple(columns)
        if not columns:
            t.event('no columns')
    taken = set(df.columns)
    if any(prefix + name + postfix in taken for name in wanted):
        return
    before, original = snapshot(df), list(df.columns)
    argument = list(kw['columns']) if 'columns' in kw else None
    got = t.ok('extract', lambda: whatid2columns(df, 'whatid', **kw))
    if inplace:
        t.check(got is df, 'working in place gives another frame')
    else:
        t.check(got is not df, 'not working in place gives the same frame')
        t.same(snapshot(df), before, 'the original frame changes')
    if argument is not None:
        t.same(list(kw['columns']), argument, 'the columns argument changes')
    t.check(list(got.columns)[:len(original)] == original, 'existing columns are not kept', columns=list(got.columns))
    t.check(snapshot(got[original]) == before, 'the existing columns or the index change', now=snapshot(got[original]), before=before)
    added = list(got.columns)[len(original):]
    names = {prefix + name + postfix: path for name, path in wanted.items()}
    t.check(len(added) == len(set(added)), 'columns are repeated', added=added)
    if argument is not None:
        t.check(sorted(added) == sorted(names), 'wrong columns are added', added=added, expected=sorted(names), kw=kw)
    else:
        t.check(set(names) <= set(added), 'top level parameters are lacking', added=added, expected=sorted(names))
        # there can be nested parameters too, under their joined names
        known = {}
        for s in rows:
            _nested(s, (), known)
        for name in added:
            if name not in names:
                paths = known.get(name[len(prefix):len(name) - len(postfix)] if postfix else name[len(prefix):], set())
                t.check(name.startswith(prefix) and name.endswith(postfix) and paths, 'a column does not come from the ids', name=name)
                if len(paths) == 1:
                    names[name] = list(paths)[0]
        collisions = [name for name in wanted if len(known.get(name, {(name,)}) | {(name,)}) > 1]
        for name in collisions:
            names.pop(prefix + name + postfix)
    varied = False
    for name, path in names.items():
        t.event('column')
        column = got[name]
        t.check(len(column) == n, 'wrong length')
        seen = set()
        floats = column.dtype.kind == 'f'
        for row, cell in zip(rows, list(column.values)):
            t.event('cell')
            spec = lookup(row, path)
            if spec is not None and spec[0] in ('list', 'tuple', 'dict', 'set', 'fset'):
                t.event('collection cell')
            if spec is not None and spec[0] == 'what':
                t.event('configuration cell')
            if spec is None:
                t.event('missing cell')
            if spec is ANYTHING:
                continue
            seen.add(None if spec is None else ref.render(spec))
            t.check(good(np, cell, spec, floats), 'wrong value in a cell', name=name, path=path, cell=cell, type=type(cell),
                    expected='nothing' if spec is None else ref.render(spec), row=ref.render(row))
        varied = varied or len(seen) > 1
    if varied:
        t.seen((ids, repr(kw)))
    t.sample('%r %r -> %r' % (ids[:2], kw, added), 4)


def _nested(spec, path, known):
    if spec[0] == 'what':
        for k, v in spec[3]:
            known.setdefault('_'.join(path + (k,)), set()).add(path + (k,))
            _nested(v, path + (k,), known)


def good(np, cell, spec, floats):
    if spec is None or spec[0] == 'none':
        return cell is None or (isinstance(cell, (float, np.floating)) and np.isnan(cell))
    if spec[0] == 'bool':
        return isinstance(cell, (bool, np.bool_)) and bool(cell) == spec[1]
    if spec[0] in ('int', 'float'):
        if isinstance(cell, (bool, np.bool_)) or not isinstance(cell, (int, float, np.number)):
            return False
        # pandas makes floats of columns that mix numbers
        return cell == spec[1] or (floats and float(cell) == float(spec[1]))
    return ref.norm_obj(cell) == ref.norm_spec(spec)


def again(t, rng, i):
    """Extracting again, over the columns of before, gives the values of now."""
    import pandas as pd
    from whatami import whatid2columns
    n = rng.choice([1, 2, 5])
    keys = rng.sample(['x', 'y', 'z', 'alpha', 'n_jobs'], rng.randrange(1, 4))

    def ids():
        return ['f(%s)' % ','.join(['%s=%d' % (k, rng.randrange(1000)) for k in keys]) for _ in range(n)]
    kw = {}
    if rng.random() < 0.5:
        kw.update(prefix=rng.choice(['p_', keys[0]]), postfix=rng.choice(['', '_q', keys[0]]))
    if rng.random() < 0.5:
        kw['columns'] = list(keys)
    df = pd.DataFrame({'whatid': ids(), 'other': range(n)})
    if rng.random() < 0.3:    # there is something else there
        for k in keys:
            df[kw.get('prefix', '') + k + kw.get('postfix', '')] = rng.choice([0, None, 'old'])
    for _ in range(3):
        new = ids()
        df['whatid'] = new
        inplace = rng.random() < 0.5
        got = t.ok('extract', lambda: whatid2columns(df, 'whatid', inplace=inplace, **kw))
        t.event('again')
        for k in keys:
            expected = [int(text[2:-1].split(',')[keys.index(k)].split('=')[1]) for text in new]
            t.same(list(got[kw.get('prefix', '') + k + kw.get('postfix', '')]), expected, 'not the values of now', key=k, kw=kw)
        t.same(list(got['whatid']), new, 'the ids change')
        t.same(list(got['other']), list(range(n)), 'another column changes')
        if not inplace:     # they are independent
            got['other'].values[0] = -1
            got.loc[n - 1, 'other'] = -2
            t.same(list(df['other']), list(range(n)), 'modifying the result changes the original frame')
            got['other'] = list(range(n))
        df = got
    t.seen(('again', new, sorted(kw)))


PHASES = [('larger sizes', sizes.frames, {'quick': 2, 'thorough': 24}),
          ('again', again, {'quick': 40, 'thorough': 2000}),
          ('cells', cells, {'quick': 700, 'thorough': 20000})]
