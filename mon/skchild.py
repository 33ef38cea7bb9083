# coding=utf-8
"""What happens when scikit-learn support is enabled in a fresh process: python -m mon.skchild JSON, prints JSON.

The plan says which configuration methods exist before enabling, how it is enabled, and how many times;
the answer tells what each class does then. It is judged by the monitor of C24.
"""
import json
import sys


def main(plan):
    from mon import sk
    sk.quiet()
    from whatami import What

    class Own(object):
        """A configuration method."""
        def __init__(self, name):
            self.name = name

        def make(self):
            name = self.name
            return lambda self: What(name, {'own': 1})

    events = []
    bases = sk.bases()
    names = ['BaseEstimator', 'Kernel', 'BaseCrossValidator', 'BaseShuffleSplit', '_RepeatedSplits']
    for n in plan['own_bases']:
        bases[n].what = Own('Own' + names[n]).make()
    before = {}

    def user_classes(when):
        for n, base in enumerate(bases):
            if n in (2, 3):
                members = {'split': lambda self: [], 'get_n_splits': lambda self: 1, '_iter_indices': lambda self: None}
            elif n == 1:
                members = {'__call__': lambda self: 1, 'diag': lambda self: 1, 'is_stationary': lambda self: True}
            else:
                members = {}
            init = {'__init__': lambda self: None}
            plain = type('Plain%d%s' % (n, when), (base,), dict(members, **init))
            own = type('Own%d%s' % (n, when), (base,), dict(members, what=Own('own%d%s' % (n, when)).make(), **init))
            inherits = type('Inherits%d%s' % (n, when), (own,), {})
            before['plain', n, when] = plain
            before['own', n, when] = own
            before['inherits', n, when] = inherits
    if plan['before']:
        user_classes('Before')
    own_class = None
    if plan['own_class']:
        from sklearn.linear_model import Ridge
        Ridge.what = Own('OwnRidge').make()
        own_class = Ridge

    from whatami.wrappers import what_sklearn
    for how in plan['enable']:
        events.append(['enable', how])
        if how == 'check':
            what_sklearn.whatamize_sklearn(check=True)
        elif how == 'log':
            what_sklearn.whatamize_sklearn(log=True)
        else:
            what_sklearn.whatamize_sklearn()
    user_classes('After')

    def ask(cls, obj):
        try:
            what = obj.what()
            return 'what:' + what.name if isinstance(what, What) else 'not a configuration: %r' % (what,)
        except Exception as ex:  # noqa
            return 'failed: %s: %s' % (type(ex).__name__, ex)

    answer = {'users': [], 'classes': [], 'method': [], 'own_class': None}
    for (kind, n, when), cls in sorted(before.items()):
        answer['users'].append([kind, n, when, cls.__name__, ask(cls, cls())])
    import random
    rng = random.Random(plan['seed'])
    for cls in sk.classes():
        base = [n for n, b in enumerate(bases) if issubclass(cls, b)]
        has = callable(getattr(cls, 'what', None))
        made = sk.make(rng, cls, 0, change=0)
        answer['classes'].append([cls.__name__, base, has, ask(cls, made[0]) if made else None, made[1][1] if made else None])
    if own_class is not None:
        answer['own_class'] = ask(own_class, own_class())
    print('ANSWER ' + json.dumps(answer))


if __name__ == '__main__':
    main(json.loads(sys.argv[1]))
