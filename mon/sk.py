# coding=utf-8
"""Random scikit-learn objects, each with the spec of the configuration that it should show."""
import inspect
import types
import warnings

from . import gen
from .sktable import TABLE

O = gen.Options(nonids=False, whatables=False, funcs=False, classes=True)


class NoSpec(Exception):
    """A value with no simple rendering (e.g. an array)."""


def quiet():
    warnings.simplefilter('ignore')
    warnings.warn = lambda *args, **kwargs: None    # at import time sklearn resets the filters
    import logging
    logging.getLogger('whatami.wrappers').setLevel(logging.ERROR)


def bases():
    from sklearn.base import BaseEstimator
    from sklearn.gaussian_process.kernels import Kernel
    from sklearn.model_selection import BaseCrossValidator
    from sklearn.model_selection._split import BaseShuffleSplit, _RepeatedSplits
    return [BaseEstimator, Kernel, BaseCrossValidator, BaseShuffleSplit, _RepeatedSplits]


def subclasses(cls, acc=None):
    acc = [] if acc is None else acc
    for sub in cls.__subclasses__():
        if sub not in acc:
            acc.append(sub)
            subclasses(sub, acc)
    return acc


_CLASSES = []


def classes():
    """All the public concrete classes of scikit-learn that support should cover."""
    if not _CLASSES:
        import sklearn.pipeline, sklearn.calibration, sklearn.multioutput, sklearn.multiclass, sklearn.svm, sklearn.tree  # noqa
        import sklearn.compose, sklearn.impute, sklearn.preprocessing, sklearn.isotonic, sklearn.kernel_ridge  # noqa
        import sklearn.neural_network, sklearn.mixture, sklearn.manifold, sklearn.random_projection, sklearn.semi_supervised  # noqa
        found = []
        for base in bases():
            for cls in subclasses(base):
                if cls not in found and cls.__module__.startswith('sklearn.') and not cls.__name__.startswith('_') and \
                        not inspect.isabstract(cls) and not cls.__name__.startswith('Base'):
                    found.append(cls)
        _CLASSES.extend(sorted(found, key=lambda c: (c.__module__, c.__name__)))
    return _CLASSES


def to_spec(x):
    """Spec of a value that was not generated here."""
    import numpy as np
    if x is None:
        return ('none',)
    if isinstance(x, (bool, np.bool_)):
        return ('bool', bool(x))
    if isinstance(x, (int, np.integer)):
        return ('int', int(x))
    if isinstance(x, (float, np.floating)):
        return ('float', float(x))
    if isinstance(x, str):
        return ('str', x)
    if type(x) in (list, tuple):
        return ('list' if type(x) is list else 'tuple', [to_spec(e) for e in x])
    if type(x) is dict:
        return ('dict', [(to_spec(k), to_spec(v)) for k, v in x.items()])
    if isinstance(x, type):
        return ('class', x)
    if isinstance(x, types.FunctionType):
        ps = inspect.signature(x).parameters.values()
        return ('func', x.__name__, [(p.name, to_spec(p.default)) for p in ps if p.default is not p.empty], [])
    if isinstance(x, tuple(bases())):
        return conf_spec(x)
    raise NoSpec(type(x))


def names(cls):
    if cls.__init__ is object.__init__:
        return []
    init = getattr(cls.__init__, 'deprecated_original', cls.__init__)
    return [p.name for p in inspect.signature(init).parameters.values()
            if p.name != 'self' and p.kind not in (p.VAR_KEYWORD, p.VAR_POSITIONAL)]


def conf_spec(x, known=()):
    """The configuration of an estimator, kernel or splitter (known: [(object, spec)] of the values with known specs)."""
    cls = type(x)
    short, nonids = TABLE.get(cls.__name__, (cls.__name__, ()))
    if hasattr(cls, 'get_params'):
        values = [(k, getattr(x, k)) for k in names(cls)]
    else:
        values = [(k, v) for k, v in vars(x).items() if not k.startswith('_') and not k.endswith('_')]
    kvs = []
    for k, v in values:
        spec = next((s for o, s in known if o is v and type(o) is type(v)), None)
        kvs.append((k, spec if spec is not None else to_spec(v)))
    return ('what', short, None, kvs, list(nonids))


def value(rng, depth):
    """A parameter value: (object, spec)"""
    r = rng.random()
    if depth > 0 and r < 0.22:
        return estimator(rng, depth - 1)
    if depth > 0 and r < 0.3:
        things = [estimator(rng, depth - 1) if rng.random() < .6 else value(rng, 0) for _ in range(rng.randrange(1, 3))]
        return [o for o, _ in things], ('list', [s for _, s in things])
    if depth > 0 and r < 0.34:
        obj, spec = estimator(rng, depth - 1)
        return {'k': obj}, ('dict', [(('str', 'k'), spec)])
    spec = gen.value(rng, O, 1) if r < 0.6 else gen.atom(rng, O)
    return gen.build(spec, rng), spec


# Classes that demand some structure to their parameters
def _steps(rng, depth, last=False):
    from sklearn.preprocessing import StandardScaler, MinMaxScaler
    from sklearn.linear_model import Ridge, LogisticRegression
    from sklearn.decomposition import PCA
    steps = []
    for n in range(rng.randrange(1, 4)):
        steps.append(('s%d' % n, make(rng, rng.choice([StandardScaler, MinMaxScaler, PCA]), depth)))
    if last:
        steps.append(('model', make(rng, rng.choice([Ridge, LogisticRegression]), depth)))
    objs = [(n, o) for n, (o, _) in steps]
    return objs, ('list', [('tuple', [('str', n), s]) for n, (_, s) in steps])


def _special(rng, cls, depth):
    name = cls.__name__
    if name == 'Pipeline':
        return {'steps': _steps(rng, depth, last=True)}
    if name == 'FeatureUnion':
        return {'transformer_list': _steps(rng, depth)}
    if name == 'VotingClassifier':
        return {'estimators': _steps(rng, depth)}
    if name == 'ColumnTransformer':
        obj, spec = _steps(rng, depth)
        return {'transformers': ([(n, o, [0]) for n, o in obj],
                                 ('list', [('tuple', s[1] + [('list', [('int', 0)])]) for s in spec[1]]))}
    if name in ('Sum', 'Product'):
        return {k: make(rng, rng.choice(_kernels()), depth) for k in ('k1', 'k2')}
    if name == 'Exponentiation':
        return {'kernel': make(rng, rng.choice(_kernels()), depth)}
    if name == 'CompoundKernel':
        ks = [make(rng, rng.choice(_kernels()), depth) for _ in range(2)]
        return {'kernels': ([o for o, _ in ks], ('list', [s for _, s in ks]))}
    if name == 'RidgeCV' or name == 'RidgeClassifierCV':
        return {'alphas': ([0.1, 1.0], ('list', [('float', 0.1), ('float', 1.0)]))}
    if name == 'GridSearchCV':
        return {'param_grid': ({'C': [1, 2]}, ('dict', [(('str', 'C'), ('list', [('int', 1), ('int', 2)]))]))}
    if name in ('LeavePOut', 'LeavePGroupsOut', 'KFold', 'StratifiedKFold', 'GroupKFold', 'TimeSeriesSplit', 'ShuffleSplit',
                'StratifiedShuffleSplit', 'GroupShuffleSplit', 'RepeatedKFold', 'RepeatedStratifiedKFold'):
        out = {}
        n = rng.randrange(2, 12)
        for k in ('p', 'n_groups', 'n_splits'):
            out[k] = (n, ('int', n))
        b = rng.random() < 0.5
        out['shuffle'] = (b, ('bool', b))
        r = rng.choice([0, 1, 33])
        out['random_state'] = (r, ('int', r))
        return out
    return {}


def _kernels():
    from sklearn.gaussian_process.kernels import RBF, DotProduct, Matern, WhiteKernel, RationalQuadratic
    return [RBF, DotProduct, Matern, WhiteKernel, RationalQuadratic]


def make(rng, cls, depth, change=0.4):
    """An instance of the class with random parameters, or None if it is not accepted: (object, spec)"""
    special = _special(rng, cls, depth)
    init = getattr(cls.__init__, 'deprecated_original', cls.__init__)
    ps = {} if init is object.__init__ else inspect.signature(init).parameters
    for attempt in (0, 1):
        args, known = {}, []
        splitter = not hasattr(cls, 'get_params')
        for p in ps.values():
            if p.name == 'self' or p.kind in (p.VAR_KEYWORD, p.VAR_POSITIONAL):
                continue
            if p.name in special and (p.default is p.empty or rng.random() < 0.6 or type(special[p.name][0]) in (list, tuple, dict)):
                obj, spec = special[p.name]
            elif p.default is p.empty or (not attempt and not splitter and rng.random() < change):
                obj, spec = value(rng, depth)
            else:
                continue
            args[p.name] = obj
            known.append((obj, spec))
        keys = list(args)
        rng.shuffle(keys)
        try:
            x = cls(**{k: args[k] for k in keys})
            return x, conf_spec(x, known)
        except NoSpec:
            return None
        except Exception:  # noqa, values that it does not accept
            continue
    return None


def estimator(rng, depth):
    while True:
        made = make(rng, rng.choice(classes()), depth)
        if made is not None:
            return made
