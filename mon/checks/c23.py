# coding=utf-8
"""C23: estimator ids reflect exactly their result-relevant parameters."""
import copy
import functools
import pickle

from .. import gen, ref, sk
from ..sktable import TABLE

PROPERTY = 'C23'
TECHNIQUE = ('runtime monitoring: an independent table of names and irrelevant parameters, and a reference renderer, judge the ids of '
             'random estimators observed along histories of parameter changes, cloning, copying, nesting and fitting')
RULE = ('instances of all public estimators, kernels and splitters with random parameters (nested estimators, pipelines, kernels and '
        'lists of them), then set_params, set attributes, clones, copies, pickles and rebuilds in other orders, ids compared to the '
        'reference after each step; distinct by id; non-trivial: with parameters')
REQUIRE = {'class seen': 120, 'short name': 60, 'with irrelevant': 150, 'nested': 120, 'relevant changed': 150, 'irrelevant changed': 60,
           'clone': 60, 'copied': 100, 'inside': 100, 'splitter': 20, 'kernel': 20, 'fitted': 6, 'user class': 20, 'derives from a known one': 10, 'all classes': 120}
SHARDS = {'quick': 2}


def prepare():
    sk.quiet()
    from whatami.wrappers.what_sklearn import whatamize_sklearn
    whatamize_sklearn()
    sk.classes()


def has_nested(spec):
    return any(s[0] == 'what' for _, v in spec[3] for s in _walk(v))


def _walk(spec):
    yield spec
    for s in gen.children(spec):
        for x in _walk(s):
            yield x


def judge(t, x, spec, log=None):
    what = t.ok('what', x.what)
    t.same(t.ok('id', what.id), ref.render(spec), 'wrong id', of=x, log=log)
    t.same(t.ok('id', lambda: what.id(nonids_too=True)), ref.render(spec, nonids_too=True), 'wrong id with all the parameters', of=x, log=log)
    return what


def note(t, x, spec):
    from sklearn.gaussian_process.kernels import Kernel
    t.event('class seen')
    if TABLE.get(type(x).__name__, (type(x).__name__,))[0] != type(x).__name__:
        t.event('short name')
    if [k for k, _ in spec[3] if k in spec[4]]:
        t.event('with irrelevant')
    if has_nested(spec):
        t.event('nested')
    if not hasattr(x, 'get_params'):
        t.event('splitter')
    if isinstance(x, Kernel):
        t.event('kernel')
    if spec[3]:
        t.seen(ref.render(spec, nonids_too=True))


def everything(t, rng, i):
    """All the classes, in turn."""
    classes = sk.classes()
    made = sk.make(rng, classes[i % len(classes)], 0, change=rng.choice([0, 0.3, 1]))
    if made is None:
        return
    t.event('all classes')
    note(t, *made)
    judge(t, *made)
    t.sample(ref.render(made[1]), 4)


def histories(t, rng, i):
    from sklearn.base import clone
    from whatami import What, id2what, obj2what, what2id
    x, spec = sk.estimator(rng, rng.choice([0, 1, 2]))
    note(t, x, spec)
    log = []
    judge(t, x, spec, log)
    for step in range(rng.randrange(1, 6)):
        op = rng.choice(['set', 'set', 'set', 'attribute', 'clone', 'copy', 'rebuild', 'inside', 'coerce', 'mutate'])
        log.append(op)
        if op in ('set', 'attribute') and spec[3]:
            before = t.ok('id', lambda: x.what().id())
            relevant = rng.random() < 0.5
            keys = [k for k, _ in spec[3] if (k not in spec[4]) == relevant] or [k for k, _ in spec[3]]
            key = rng.choice(keys)
            obj, vspec = sk.value(rng, rng.choice([0, 0, 1]))
            if op == 'set' and hasattr(x, 'set_params') and type(x).__name__ not in ('Pipeline', 'FeatureUnion', 'VotingClassifier',
                                                                                   'ColumnTransformer') and '__' not in key:
                try:
                    x.set_params(**{key: obj})
                except Exception:  # noqa
                    setattr(x, key, obj)
            else:
                try:
                    setattr(x, key, obj)
                except AttributeError:
                    continue
            if getattr(x, key) is not obj:
                return
            old = dict(spec[3])[key]
            spec = spec[:3] + ([(k, vspec if k == key else s) for k, s in spec[3]], spec[4])
            log.append((key, vspec))
            after = t.ok('id', lambda: x.what().id())
            if key in spec[4]:
                t.event('irrelevant changed')
                t.same(after, before, 'changing an irrelevant parameter changes the id', log=log)
            elif ref.render(old) != ref.render(vspec):
                t.event('relevant changed')
                t.check(after != before, 'changing a relevant parameter does not change the id', log=log, id=after)
        elif op == 'clone' and hasattr(x, 'get_params'):
            try:
                cloned = clone(x)
            except Exception:  # noqa, not all can be cloned with any parameter
                continue
            t.event('clone')
            t.same(t.ok('id', lambda: cloned.what().id()), t.ok('id', lambda: x.what().id()), 'clones have different ids', log=log)
            if rng.random() < .5 and not has_nested(spec):
                x = cloned
        elif op == 'copy':
            how = rng.choice([copy.copy, copy.deepcopy, lambda o: pickle.loads(pickle.dumps(o, protocol=2))])
            try:
                other = how(x)
            except Exception:  # noqa
                continue
            t.event('copied')
            judge(t, other, spec, log)
            x = other
        elif op == 'rebuild':
            made = sk.make(rng, type(x), 0)
            if made is not None:
                judge(t, made[0], made[1], log)
        elif op == 'inside':
            t.event('inside')
            holder = ('what', 'Exp', None, [('model', spec), ('many', ('list', [spec, ('int', 1)])), ('z', ('dict', [(('str', 'm'), spec)]))], [])
            t.same(t.ok('id', lambda: What('Exp', {'z': {'m': x}, 'model': x, 'many': [x, 1]}).id()), ref.render(holder),
                   'wrong id with nested estimator', log=log)
            p = functools.partial(_train, model=x)
            t.same(t.ok('what2id', lambda: what2id(p)), '_train(model=%s)' % ref.render(spec), 'wrong id of partial with estimator', log=log)
        elif op == 'coerce':
            t.same(t.ok('what2id', lambda: what2id(x)), ref.render(spec), 'wrong what2id', log=log)
            t.same(t.ok('obj2what', lambda: obj2what(x)).id(), ref.render(spec), 'wrong obj2what', log=log)
            from whatami import is_whatable
            t.check(t.ok('is_whatable', lambda: is_whatable(x)) is True, 'it is not whatable', x=x)
            parsed = t.ok('id2what', lambda: id2what(ref.render(spec)))
            t.same(parsed.name, spec[1], 'the name does not survive parsing')
        elif op == 'mutate':
            what = t.ok('what', x.what)
            what.conf['mutated'] = 1
            for k in list(what.conf)[:1]:
                what.conf[k] = 'mutated'
            what.non_id_keys.add('n_estimators')
            what.non_id_keys.update(k for k, _ in spec[3])
        judge(t, x, spec, log)
    t.sample(repr((ref.render(spec)[:250], [o for o in log if isinstance(o, str)])), 4)


def _train(model, data=None):
    """A function to make partials of."""


# data is not in the id because partial only shows known parameters
_train.__defaults__ = None


def fits(t, rng, i):
    import numpy as np
    from sklearn.cluster import KMeans
    from sklearn.decomposition import PCA
    from sklearn.linear_model import LinearRegression, Ridge
    from sklearn.naive_bayes import GaussianNB
    from sklearn.pipeline import Pipeline
    from sklearn.preprocessing import MinMaxScaler, StandardScaler
    from sklearn.tree import DecisionTreeClassifier
    state = np.random.RandomState(rng.randrange(1000))
    X, y = state.rand(20, 3), state.randint(2, size=20)
    cls = [LinearRegression, Ridge, GaussianNB, DecisionTreeClassifier, StandardScaler, MinMaxScaler, PCA, KMeans, Pipeline][i % 9]
    if cls is Pipeline:
        x = Pipeline([('scale', StandardScaler()), ('model', Ridge(alpha=rng.choice([1, 2])))])
    else:
        x = cls(**({'n_clusters': 2} if cls is KMeans else {}))
    spec = sk.conf_spec(x)
    judge(t, x, spec)
    try:
        x.fit(X, y)
    except Exception:  # noqa
        return
    t.event('fitted')
    judge(t, x, spec)
    t.seen(('fit', cls.__name__, i))


def users(t, rng, i):
    """Classes of the user deriving from those in scikit-learn."""
    from sklearn.base import BaseEstimator, ClassifierMixin
    t.event('user class')
    keys = []
    for _ in range(rng.randrange(0, 5)):
        k = gen.pyident(rng)
        if k not in keys and k not in ('what', 'self', 'get_params', 'set_params') and not k.startswith('_') and '__' not in k:
            keys.append(k)
    if rng.random() < 0.5:
        keys += [k for k in rng.sample(['n_jobs', 'verbose', 'copy_X', 'copy', 'cache_size', 'warm_start', 'random_state', 'max_iter'], 4) if k not in keys]     # relevant unless registered
    env = {}
    specs = {k: gen.value(rng, sk.O, 1) for k in keys}
    env['D'] = {k: gen.build(s, rng) for k, s in specs.items()}
    src = 'def __init__(self%s):\n%s' % (''.join(', %s=D[%r]' % (k, k) for k in keys),
                                        ''.join('    self.%s = %s\n' % (k, k) for k in keys) or '    pass\n')
    exec(src, env)
    name = rng.choice(['My', 'My', '_', '__']) + rng.choice(['SVC', 'Model', 'Rfc', 'KMeans', 'Ridge'])
    if rng.random() < 0.3:      # only registered under the exact name
        name = rng.choice(['SVC', 'KMeans', 'Ridge', 'PCA']) + rng.choice(['_', '__', '2', 'V2', 'Model'])
    elif rng.random() < 0.2:
        name = rng.choice(['svc', 'kmeans', 'Svc', 'RIDGE', 'pca', 'rfc'])
    base = rng.choice([(BaseEstimator,), (ClassifierMixin, BaseEstimator), (BaseEstimator, ClassifierMixin)])
    if rng.random() < 0.4:   # the irrelevant parameters of one class say nothing of the classes that derive from it
        from sklearn import cluster, decomposition, ensemble, linear_model, svm
        base = (rng.choice([linear_model.Ridge, linear_model.LogisticRegression, cluster.KMeans, svm.SVC, decomposition.PCA,
                            ensemble.RandomForestClassifier, ensemble.ExtraTreesRegressor]),)
        t.event('derives from a known one')
    cls = type(name, base, {'__init__': env['__init__'], 'noise': 3, '__module__': __name__})
    if rng.random() < 0.4:
        cls = type(name + 'Sub', (cls,), {'__module__': __name__})
    x = cls()
    x.fitted_ = 3
    x.other = 'not a parameter'
    spec = ('what', cls.__name__, None, [(k, specs[k]) for k in keys], [])
    judge(t, x, spec)
    if keys:
        k = rng.choice(keys)
        obj, vspec = sk.value(rng, 1)
        x.set_params(**{k: obj})
        spec = spec[:3] + ([(kk, vspec if kk == k else s) for kk, s in spec[3]], [])
        judge(t, x, spec)
        t.seen(ref.render(spec))


PHASES = [('all classes', everything, {'quick': 200, 'thorough': 4000}),
          ('histories', histories, {'quick': 500, 'thorough': 12000}),
          ('fitted', fits, {'quick': 18, 'thorough': 90}),
          ('user classes', users, {'quick': 60, 'thorough': 2000})]
