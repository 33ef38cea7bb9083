# coding=utf-8
"""C34: core identification works without the optional scientific libraries."""
import builtins
import functools
import itertools
import json
import os
import random
import subprocess
import sys

from .. import gen, ref
from ..core import VERIF, show, text

PROPERTY = 'C34'
TECHNIQUE = ('runtime monitoring with fault injection: the same recorded workload is run in processes where the imports of numpy, '
             'pandas and scikit-learn are made to fail, and every event is compared with the run that has them all')
RULE = ('random workloads (ids, parsing, exports, hashing, registries, records, sorting, matching, migrations, call snapshots) in '
        'fresh processes without each combination of the libraries, absent or failing in other ways when imported; non-trivial: '
        'every event of a process without some library')
REQUIRE = {'process': 7, 'id': 300, 'parse': 300, 'hash': 250, 'registry': 80, 'recorder': 80, 'export': 80, 'sort': 24,
           'without numpy': 3, 'without pandas': 3, 'without sklearn': 3, 'names the library': 6, 'broken library': 1,
           'with numpy': 1, 'with pandas': 1}
LIBRARIES = ('numpy', 'pandas', 'sklearn')
COMBOS = [c for n in (1, 2, 3) for c in itertools.combinations(LIBRARIES, n)]
PLAIN = gen.Options(whatables=False, funcs=False, classes=False, hashable_whats=False, nonids=False)
SHARDS = {'quick': 3, 'thorough': 7}


class Thing(object):
    def __init__(self, **kwargs):
        self.__dict__.update(kwargs)


class ArrayLike(object):
    """Looks like something of the optional libraries, without them."""
    dtype = 'float64'
    shape = (2, 2)
    ndim = 2
    size = 4
    values = (1, 2)
    columns = index = ['a', 'b']
    name = 'like'

    def __array__(self, *args):
        raise TypeError('no arrays here')

    def __len__(self):
        return 2

    def get_params(self, deep=False):
        raise TypeError('no parameters here')

    def __getstate__(self):
        return {'like': 1}

    def __str__(self):
        return 'ArrayLike()'

    __repr__ = __str__


def attempt(fn, *args, **kwargs):
    try:
        return fn(*args, **kwargs)
    except Exception as ex:
        return 'raised %s' % type(ex).__name__


def workload(seed, without):
    """[(what was done, what came back)], all of them strings."""
    import whatami as wm
    from whatami import misc, What, Recorder, WhatamiRegistry, whatable
    from whatami.minijoblib.hashing import hasher
    rng = random.Random(seed)
    log = []

    def record(op, fn, *args, **kwargs):
        got = attempt(fn, *args, **kwargs)
        log.append([op, got if isinstance(got, str) else repr(got)])
        return got

    whatids = []
    for _ in range(25):
        spec = gen.what(rng, gen.Options(nonids=True, classes=False), 2)
        what = gen.build(spec, rng)
        whatid = record('id', what.id)
        log[-1].append(ref.render(spec))
        record('id', what.id, nonids_too=True)
        log[-1].append(ref.render(spec, nonids_too=True))
        record('id', what.id, maxlength=20)
        record('positional', what.positional_id)
        log[-1].append(ref.positional(spec))
        record('flatten', lambda: [(str(k), What('v', {'v': v}).id()) for k, v in zip(*what.flatten(collections_too=True))])
        parsed = record('parse', wm.parse_whatid, whatid)
        if not isinstance(parsed, str):
            record('parse', lambda: (parsed.id(), parsed == wm.id2what(whatid)))
        bad = whatid[:rng.randrange(len(whatid))] + rng.choice(['', '(', "'", 'x'])
        record('parse', wm.parse_whatid, bad)
        record('export', lambda: What('x', {'x': wm.id2dict(whatid)}).id())
        record('what2id', wm.what2id, what)
        whatids.append(whatid)
    for _ in range(12):
        value = gen.build(gen.value(rng, PLAIN, 3), rng)
        record('hash', hasher, value)
        record('hash', hasher, [value, {'k': value, 'l': Thing(a=value, b={1, 'x'})}, range(3)], hash_name='sha1')
        record('what2id', lambda: wm.what2id([value]))
        record('id', What('h', {'o': Thing(a=value), 'l': [value], 'm': functools.partial(sorted, reverse=True), 'n': sorted,
                                'r': random.Random(3).random(), 'c': Thing}).id)
    for value in (Thing(), Thing(a=1), random.Random(2), os, 3 + 2j, b'bytes', bytearray(b'x'), Ellipsis, range(3), slice(1, 2), iter(()),
                  ArrayLike(), [ArrayLike()], {'x': ArrayLike()}):
        record('id', lambda: What('odd', {'v': value}).id() if ' at 0x' not in repr(value) else type(value).__name__)
        record('hash', hasher, value) if not isinstance(value, type(iter(()))) else None

    @whatable
    class W(object):
        def __init__(self, a):
            self.a = a
            self._b = 2

    @whatable
    def f(x, y=3, z=W(1)):
        return misc.call_dict()

    record('whatable', lambda: (W(3).what().id(), f.what().id(), sorted(f(1, y=2)), f.__name__))
    record('whatable', lambda: What('n', {'w': W([f]), 'p': functools.partial(f, y=8)}).id())
    for _ in range(4):
        registry = WhatamiRegistry()
        for whatid in rng.sample(whatids, 8) * 2:
            record('registry', lambda: registry.register(wm.id2what(whatid), rng.choice('abcdefg')).id())
        record('registry', registry.list)
        record('registry', lambda: [registry.nick_or_id(w) for w in whatids])
        recorder = Recorder(id_extractor=wm.what2id, who='me')
        for n in range(5):
            ids = rng.sample(whatids, 2)
            record('recorder', lambda: recorder.add(ids, x=[n, n + 1], y={ids[0]: n}, z='z'))
        record('recorder', lambda: (len(recorder), sorted(map(str, recorder.unique('x'))), recorder.get(*whatids)))
        record('recorder', lambda: recorder.padd(x=3)(['new'])['new'])
        ids = ['A(x=%d,y=B(z=%r))' % (rng.randrange(3), rng.choice('xyz')) for _ in range(6)]
        record('sort', wm.sort_whatids, ids, 'x', ('y', 'z'))
        record('match', lambda: wm.match_whatids(ids, ids[0], ignored_keys=('x',)))
        record('add', lambda: wm.whatadd(wm.id2what(ids[0]), 'out', ['a', 'b']))
    record('old', wm.id2whatami4, "out=a#G#im=True#p=('x', 'y')#t=\"H#a=1\"")
    record('call', lambda: [wm.call2what().id() for x in (1,)][0][:1])
    record('mlexp', lambda: sorted(misc.mlexp_info_helper('t', data_setup=W(2))))
    return log


def needing(seed, without):
    """The events that need some library: {library: [...]} for those available, and the errors for those missing."""
    import whatami as wm
    from whatami import What, Recorder
    rng = random.Random(seed)
    out = {}
    if 'numpy' not in without:
        import numpy as np
        a = np.arange(rng.randrange(1, 9)).astype(rng.choice(['f4', 'i8']))
        out['numpy'] = [What('a', {'a': a, 'b': [a, {'k': a}], 'r': np.random.RandomState(3), 's': np.float64(2.5)}).id()]
        if 'pandas' not in without:
            import pandas as pd
            df = pd.DataFrame({'a': [1, 2], 'b': ['x', 'y']})
            recorder = Recorder()
            recorder.add(['a', 'b'], x=[1, 2])
            ids = pd.DataFrame({'id': ['A(x=1)', "B(x='a')"]})
            out['pandas'] = [What('d', {'d': df, 's': df['a']}).id(), recorder.to_df().to_csv(),
                             wm.whatid2columns(ids, 'id').to_csv()]
    errors = []
    if 'pandas' in without or 'numpy' in without:
        recorder = Recorder()
        recorder.add(['a', 'b'], x=[1, 2])
        try:
            recorder.to_df()
            errors.append(['pandas', 'no error', ''])
        except Exception as ex:
            errors.append(['pandas', 'ImportError' if isinstance(ex, ImportError) else type(ex).__name__, text(ex)])
        # and it was not damaged
        errors.append(['pandas', 'ImportError' if len(recorder) == 2 and recorder.get('a')[0]['x'] == 1 else 'damaged', 'pandas'])
    if 'numpy' in without or 'sklearn' in without:
        try:
            from whatami.wrappers.what_sklearn import whatamize_sklearn
            whatamize_sklearn()
            errors.append(['sklearn', 'no error', ''])
        except Exception as ex:
            errors.append(['sklearn', 'ImportError' if isinstance(ex, ImportError) else type(ex).__name__, text(ex)])
    elif without:
        from whatami.wrappers.what_sklearn import whatamize_sklearn
        whatamize_sklearn()
        from sklearn.cluster import KMeans
        errors.append(['sklearn', 'ImportError' if KMeans(3).what()['n_clusters'] == 3 else 'wrong configuration', 'sklearn'])
    out['errors'] = errors
    return out


class Breaker(object):
    """Makes the imports of some libraries fail in other ways."""

    def __init__(self, names, error):
        self.names = names
        self.error = error

    def find_spec(self, name, path=None, target=None):
        if name.partition('.')[0] in self.names:
            raise self.error("No module named '%s'" % name)
        return None


def child():
    given = json.loads(sys.stdin.read())
    sys.meta_path.insert(0, Breaker(given['without'], getattr(builtins, given['error'] or 'ModuleNotFoundError')))
    log = workload(given['seed'], given['without'])
    loaded = [name for name in given['without'] if name in sys.modules]
    print(json.dumps([log, needing(given['seed'], given['without']), loaded]))


def alone(t, rng, i):
    combo = COMBOS[i % len(COMBOS)]
    error = None if i < len(COMBOS) else rng.choice([None, 'ImportError', 'ValueError', 'RuntimeError', 'AttributeError', 'OSError'])
    seed = rng.randrange(10 ** 9)
    here = workload(seed, ())
    for op, got, *expected in here:
        if expected:
            t.same(got, expected[0], 'wrong result with all the libraries')
    given = json.dumps(dict(seed=seed, without=combo, error=error))
    env = dict(os.environ, PYTHONHASHSEED=str(i))
    proc = subprocess.run([sys.executable, '-W', 'ignore', '-c', 'from mon.checks import c34; c34.child()'], env=env, cwd=VERIF,
                          input=given.encode('utf-8'), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    t.event('process')
    if error is not None:
        t.event('broken library')
    if proc.returncode != 0:
        t.fail('the package does not work without %s' % ', '.join(combo), error=error,
               stderr=proc.stderr.decode('utf-8', 'replace')[-2500:])
    there, needs, loaded = json.loads(proc.stdout.decode('utf-8').strip().splitlines()[-1])
    t.check(not loaded, 'the harness did not take the libraries away', loaded=loaded)
    t.same(len(there), len(here), 'not the same events')
    for n, ((op, got), (op_here, got_here)) in enumerate(zip([e[:2] for e in there], [e[:2] for e in here])):
        t.event(op)
        t.check(op == op_here and got == got_here, 'other result without %s' % ', '.join(combo), op=op, there=got, here=got_here)
        t.seen((combo, error, op, got))
    for name in combo:
        t.event('without ' + name)
    if not {'numpy', 'pandas'} & set(combo):
        t.event('with pandas')
    full = needing(seed, ())
    for name in ('numpy', 'pandas'):
        if name in needs:
            t.event('with ' + name)
            t.same(needs[name], full[name], 'other result without %s' % ', '.join(combo))
    for name, kind, message in needs['errors']:
        if name == 'sklearn' and error is not None:
            continue
        t.event('names the library')
        t.same(kind, 'ImportError', 'needing %s does not fail with an import error' % name, error_message=message, without=combo,
               error=error)
        t.check(any(lib in message for lib in combo + (name,)), 'the error does not name the library', message=message,
                without=combo)
    t.sample('without %s (%s): %d events; %s' % (', '.join(combo), error or 'missing', len(there), show(there[0])))


PHASES = [('alone', alone, {'quick': 10, 'thorough': 700})]
