# coding=utf-8
"""C24: enabling library support covers all estimators and is safe to repeat."""
import abc
import json
import subprocess
import sys
import types

from .. import core, gen, sk

PROPERTY = 'C24'
TECHNIQUE = ('runtime monitoring: monitors over fresh processes that enable the support after random preparations, and over histories of '
             'requests, replacements and new classes in one process, against a model of who provides each configuration')
RULE = ('fresh processes with configuration methods given beforehand to bases, classes and user subclasses, enabling with each option '
        'several times; histories of whatamize_sklearn and whatamize_object over classes, instances, functions, modules and importable or '
        'unavailable names; distinct by plan; non-trivial: with something that has its own configuration method')
REQUIRE = {'fresh process': 3, 'library class': 400, 'user class': 60, 'own method kept': 40, 'object': 400, 'kept': 80, 'given': 150,
           'forced': 80, 'by name': 100, 'unavailable module': 25, 'unavailable member': 25, 'others unaffected': 300, 'again': 60,
           'defined later': 60, 'base patched': 10}
SHARDS = {'quick': 2}


def fresh(t, rng, i):
    plan = dict(own_bases=[n for n in range(5) if rng.random() < 0.2], before=rng.random() < 0.7, own_class=rng.random() < 0.5,
                enable=[rng.choice(['plain', 'plain', 'check', 'log']) for _ in range(rng.choice([1, 1, 2, 3]))],
                seed=rng.randrange(1000))
    out = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'mon.skchild', json.dumps(plan)], cwd=core.VERIF,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    lines = [line for line in out.stdout.decode('utf-8', 'replace').splitlines() if line.startswith('ANSWER ')]
    if not lines:
        err = out.stderr.decode('utf-8', 'replace')
        if out.returncode < 0 or 'MemoryError' in err:
            raise core.Inconclusive('a process was killed')
        t.fail('enabling the support fails', plan=plan, error=err[-1500:])
    answer = json.loads(lines[0][len('ANSWER '):])
    t.event('fresh process')
    names = ['BaseEstimator', 'Kernel', 'BaseCrossValidator', 'BaseShuffleSplit', '_RepeatedSplits']

    def provider(bases):
        # BaseEstimator goes first, and no class has two bases
        for n in bases:
            if n in plan['own_bases']:
                return 'what:Own' + names[n]
        return None

    for kind, n, when, name, got in answer['users']:
        t.event('user class')
        if kind == 'plain':
            t.same(got, provider([n]) or 'what:' + name, 'wrong configuration of a user class', user=name, plan=plan)
        else:
            t.event('own method kept')
            t.same(got, 'what:own%d%s' % (n, when), 'the configuration method of a user class is replaced', user=name, plan=plan)
    for name, bases, has, got, short in answer['classes']:
        t.event('library class')
        t.check(has, 'a class of the library has no configuration method', which=name, plan=plan)
        if name == 'Ridge' and plan['own_class']:
            t.same(got, 'what:OwnRidge', 'the configuration method of a class is replaced', plan=plan)
        elif got is not None:
            t.same(got, provider(bases) or 'what:' + short, 'wrong configuration of a class of the library', which=name, plan=plan)
    if plan['own_class']:
        t.same(answer['own_class'], 'what:OwnRidge', 'the configuration method of a class is replaced', plan=plan)
    if plan['own_bases'] or plan['before'] or plan['own_class']:
        t.seen(plan)
    t.sample(repr(plan), 3)


def prepare():
    sk.quiet()
    from whatami.wrappers.what_sklearn import whatamize_sklearn
    whatamize_sklearn()
    sk.classes()


def again(t, rng, i):
    """Enabling again, while the user defines classes and replaces configuration methods."""
    from whatami import What
    from whatami.wrappers.what_sklearn import whatamize_sklearn
    bases = sk.bases()
    originals = [(b, b.__dict__.get('what')) for b in bases]
    log = []
    expected = []          # (object, name of its configuration)
    patched = {}
    counter = [0]

    def own(name):
        return lambda self: What(name, {})

    try:
        for step in range(rng.randrange(2, 8)):
            op = rng.choice(['again', 'again', 'class', 'class', 'patch', 'instance', 'library'])
            log.append(op)
            if op == 'again':
                t.event('again')
                t.ok('whatamize_sklearn', whatamize_sklearn)
            elif op == 'class':
                t.event('defined later')
                counter[0] += 1
                n = rng.choice([0, 0, 1, 4])
                name = 'User%d' % counter[0]
                mixin = type('Mixin', (object,), {'what': own('mixin')})
                kind = rng.choice(['plain', 'own', 'mixin first', 'mixin last', 'sub'])
                members = {'__init__': lambda self: None, '__call__': lambda self: 1, 'diag': lambda self: 1,
                           'is_stationary': lambda self: True}
                if kind == 'own':
                    cls = type(name, (bases[n],), dict(members, what=own('own')))
                    expected.append((cls(), lambda: 'own'))
                elif kind == 'mixin first':
                    cls = type(name, (mixin, bases[n]), members)
                    expected.append((cls(), lambda: 'mixin'))
                else:
                    cls = type(name, (bases[n], mixin) if kind == 'mixin last' else (bases[n],), members)
                    if kind == 'sub':
                        cls = type(name, (cls,), {})
                    expected.append((cls(), lambda n=n, name=name: patched.get(n, name)))
            elif op == 'patch':
                t.event('base patched')
                n = rng.randrange(5)
                patched[n] = 'patched%d' % step
                bases[n].what = own(patched[n])
            elif op == 'instance':
                from sklearn.naive_bayes import GaussianNB
                x = GaussianNB()
                x.what = lambda: What('instance', {})
                expected.append((x, lambda: 'instance'))
            else:
                from sklearn.gaussian_process.kernels import RBF
                from sklearn.model_selection import KFold, ShuffleSplit
                from sklearn.svm import SVC
                cls, n, name = rng.choice([(SVC, 0, 'svc'), (RBF, 1, 'RBF'), (KFold, 2, 'KFold'), (ShuffleSplit, 3, 'ShuffleSplit')])
                expected.append((cls(), lambda n=n, name=name: patched.get(n, name)))
            for x, who in expected:
                what = t.ok('what', x.what)
                t.check(isinstance(what, What), 'it does not give a configuration', x=x, log=log)
                t.same(what.name, who(), 'the configuration does not come from where it should', of=x, log=log)
    finally:
        for b, what in originals:
            b.what = what
    if patched or len(expected) > 1:
        t.seen((i, log))


def objects(t, rng, i):
    from whatami import What, is_whatable, whatamize_object
    t.event('object')
    name = 'whatami_mon_c24_%d' % i
    made = []

    def own(who):
        def what(*args):
            return What(who, {})
        return what

    Parent = type('Parent', (object,), {})
    WithWhat = type('WithWhat', (object,), {'what': own('withwhat')})
    Thing = type('Thing', (rng.choice([object, Parent, WithWhat]),), {})
    Sub = type('Sub', (Thing,), {})
    Sibling = type('Sibling', Thing.__bases__, {})
    Slots = type('Slots', (object,), {'__slots__': ['what', 'x']})
    Abstract = abc.ABCMeta('Abstract', (rng.choice([Parent, Thing, Sub, Sibling]),), {'f': abc.abstractmethod(lambda self: None)})
    Meta = type('Meta', (type,), {})('Meta', (rng.choice([Parent, Thing, Sub, Sibling]),), {})
    Static = type('Static', (object,), {'what': staticmethod(own('static'))})

    class Empty(object):   # a provider that seems false
        def __call__(self, *args):
            return What('empty', {})

        def __len__(self):
            return 0

    Prop = type('Prop', (object,), {'what': property(lambda self: own('prop'))})
    Falsy = type('Falsy', (object,), {'what': Empty()})
    ClassLevel = type('ClassLevel', (object,), {'what': classmethod(own('classlevel'))})

    def f():
        pass

    target = rng.choice([Thing, Thing, Thing(), WithWhat, WithWhat(), Sub, f, types.ModuleType('m'), Slots(), Static,
                         Prop, Prop, Falsy, Falsy(), ClassLevel, Abstract, Abstract, Meta, Meta()])
    zoo = [Abstract, Meta, Thing, Sub, Sibling, Parent, WithWhat, Slots, Static, Prop, Falsy, ClassLevel, f]
    module = types.ModuleType(name)
    nested = types.ModuleType(name + '.sub')
    nested.__path__ = module.__path__ = []
    force = rng.random() < 0.4
    fails = rng.random() < 0.5
    by_name = rng.random() < 0.5
    kw = {}
    if force or rng.random() < 0.3:
        kw['force'] = force
    if not fails or rng.random() < 0.5:
        kw['fail_on_import_error'] = fails
    sys.modules[name] = module
    sys.modules[name + '.sub'] = nested
    try:
        owner, where = (module, name) if rng.random() < .5 else (nested, name + '.sub')
        owner.target = target
        owner.other = Sibling
        had = hasattr(target, 'what')
        previous = getattr(target, 'what', None)
        state = [(o, o.__dict__.get('what')) for o in zoo if o is not target]
        new = own('new')
        if by_name:
            t.event('by name')
            if rng.random() < 0.4:
                kind = rng.choice(['module', 'member'])
                t.event('unavailable ' + kind)
                ref = (where + '.nope.target' if rng.random() < .5 else 'not_there_%s.target' % name) if kind == 'module' else where + '.nope'
                if fails:
                    t.raises('whatamize_object', Exception, lambda: whatamize_object(ref, new, **kw))
                else:
                    t.ok('whatamize_object', lambda: whatamize_object(ref, new, **kw))
                t.check(not hasattr(owner, 'nope'), 'the missing member is created')
                t.check(hasattr(target, 'what') == had and (not had or getattr(target, 'what') == previous),
                        'an object that was not asked for is given a configuration method')
                expected = None
            else:
                t.ok('whatamize_object', lambda: whatamize_object(where + '.target', new, **kw))
                expected = 'new' if force or not had else 'kept'
        else:
            t.ok('whatamize_object', lambda: whatamize_object(target, new, **kw))
            expected = 'new' if force or not had else 'kept'
        t.check(owner.target is target and owner.other is Sibling, 'the module changes')
        if expected == 'new':
            t.event('forced' if had else 'given')
            got = target.__dict__.get('what') if hasattr(target, '__dict__') else target.what
            t.check(got is new, 'it is not given the configuration method', target=target, kw=kw, had=had)
            instance = type('Concrete', (Abstract,), {'f': lambda self: 1})() if target is Abstract else \
                target() if isinstance(target, type) and target is not Slots else target
            t.same(t.ok('what', instance.what).name, 'new', 'it does not give the new configuration', target=target)
            t.check(t.ok('is_whatable', lambda: is_whatable(instance)), 'it is not whatable', target=target)
        elif expected == 'kept':
            t.event('kept')
            t.check(getattr(target, 'what') == previous, 'its own configuration method is replaced', target=target, kw=kw)
        t.event('others unaffected')
        for o, before in state:
            t.check(o.__dict__.get('what') is before, 'another object is affected', other=o, target=target)
        t.check(not hasattr(object, 'what'), 'all the objects are affected')
        # again: now it has one
        if expected is not None:
            again = own('again')
            current = getattr(target, 'what')
            t.ok('whatamize_object', lambda: whatamize_object(where + '.target' if by_name else target, again))
            t.check(getattr(target, 'what') == current, 'the configuration method is replaced without asking for it', target=target)
        if had:
            t.seen((i, force, fails, by_name))
    finally:
        del sys.modules[name], sys.modules[name + '.sub']


PHASES = [('fresh', fresh, {'quick': 6, 'thorough': 100}),
          ('again', again, {'quick': 120, 'thorough': 6000}),
          ('objects', objects, {'quick': 900, 'thorough': 40000})]
