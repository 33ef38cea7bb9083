# coding=utf-8
"""C30: call snapshots report exactly the parameters of the inspected call."""
import threading

from .. import funcs, sizes
from ..core import unsharded
from ..funcs import Signature, special

PROPERTY = 'C30'
TECHNIQUE = ('runtime monitoring: snapshots taken inside running generated functions are compared with what python bound to the '
             'parameters and with the local variables that the function itself recorded at that moment')
RULE = ('functions with random signatures (positional-only, keyword-only, variadic), methods, generators, closures and '
        'recursions that rebind parameters, define variables and take snapshots at random depths with random ignored names and '
        'overrides, also from several threads; non-trivial: with rebound parameters, extra arguments, depth or overrides')
REQUIRE = {'large sizes': 1, 'underscores': 100, 'call_dict': 700, 'call2what': 500, 'rebound': 200, 'extra keywords': 80, 'variadic refused': 30,
           'variadic skipped': 11, 'ignored': 50, 'overrides': 65, 'over overrides': 65, 'overridden twice': 7, 'deeper': 250,
           'recursive': 100, 'method': 40, 'generator': 40, 'lambda': 40, 'unnamed frames': 60, 'later change': 200, 'keyword-only': 100, 'threads': 10,
           'non-id': 80, 'closure variable': 60}


UNDERSCORED = ['_p', '__p', '__dunder__', '_', '__', '_q_']


def often_special(rng):
    return rng.choice([None, None, False, 0, '', (), []]) if rng.random() < 0.3 else special(rng)


def capture_options(rng, sig, taken):
    """Keyword arguments for call_dict and what they do to the parameters."""
    kwargs = {}
    ignores = ('cls', 'self')
    if rng.random() < 0.4:
        ignores = rng.sample(sig.params + ['not_there', 'self', 'cls'], rng.randrange(0, min(3, len(sig.params)) + 1))
        ignores = rng.choice([tuple, list, set, iter])(ignores)
        names = list(ignores) if not hasattr(ignores, '__next__') else None
        if names is None:
            names = list(ignores)
            ignores = iter(names)
        kwargs['ignores'] = ignores
    else:
        names = list(ignores)
    if rng.random() < 0.5:
        kwargs['ignore_varargs'] = rng.random() < 0.6
    overrides, over = None, {}
    if rng.random() < 0.4:
        overrides = {n: often_special(rng) for n in rng.sample(sig.params + taken + ['new_one', 'depth', 'ignores', 'overrides', 'self'],
                                                          rng.randrange(0, min(3, len(sig.params) + 1) + 1))}
        kwargs['overrides'] = overrides
    if rng.random() < 0.3:
        names_over = [n for n in sig.params + taken + ['new_one', 'another', 'self']
                      if n not in ('depth', 'ignores', 'ignore_varargs', 'overrides')]
        over = {n: often_special(rng) for n in rng.sample(names_over, rng.randrange(1, 3))}
        if overrides and rng.random() < 0.6:
            over.update({n: often_special(rng) for n in overrides if n in names_over})
        kwargs.update(over)
    return kwargs, names, overrides or {}, over


def rebindings(rng, sig, others=0):
    """Statements that give values to parameters and variables, and what they do."""
    lines, changes, values = [], {}, []
    names = [n for n in sig.params if rng.random() < 0.3] + ['local_%d' % n for n in range(rng.randrange(others + 1))]
    for n in names:
        values.append(special(rng))
        changes[n] = values[-1]
        lines.append('%s = _v_[%d]' % (n, len(values) - 1))
    return lines, changes, values


def exact(t, got, expected, message, **detail):
    t.check(type(got) is dict, 'not a dictionary', got=got)
    t.check(sorted(got) == sorted(expected) and all(got[k] is expected[k] for k in expected), message, got=got,
            expected=expected, **detail)


def params(t, rng, i):
    """call_dict in functions, methods and generators, from the function itself or from helpers."""
    import whatami.misc as misc
    names = funcs.NAMES if rng.random() < 0.7 else [n for n in UNDERSCORED if n != '__p'] + ['_a_p', '_b_p', 'x', 'y', 'z']     # mangled in methods
    value = rng.choice([special, special, often_special])
    sig = Signature(rng, value=lambda: value(rng), names=names)
    if rng.random() < 0.6:
        while not (sig.varargs and sig.varkw):
            sig = Signature(rng, value=lambda: value(rng), names=names)
    args, kwargs = funcs.arguments(rng, sig, wild=0, Value=lambda: value(rng))
    while sig.binding(args, kwargs) is None or not set(sig.params) <= set(sig.binding(args, kwargs)[0]) | set(sig.defaults):
        args, kwargs = funcs.arguments(rng, sig, wild=0, Value=lambda: value(rng))
    if sig.varkw and rng.random() < 0.3 and not {sig.varkw, sig.varargs} & set(['depth', 'ignores', 'ignore_varargs', 'overrides']):
        t.event('variadic names as keywords')
        kwargs = dict(kwargs, **{n: special(rng) for n in (sig.varkw, sig.varargs) if n and rng.random() < 0.7})
    lines, changes, values = rebindings(rng, sig, others=2)
    options, ignored, overrides, over = capture_options(rng, sig, [k for k in kwargs if k not in sig.params])
    depth = rng.choice([None, 1, 2, 3])
    overrides_before = dict(overrides)

    def capture(d=1):
        return misc.call_dict(depth=d + 1, **options) if d != 1 else misc.call_dict(depth=2, **options)

    def direct():
        return capture()

    def farther():
        return capture(2)

    taker = {None: misc.call_dict, 1: misc.call_dict, 2: capture, 3: farther}[depth]
    if depth is None:
        call = '_t_(**_o_)'
    elif depth == 1:
        call = '_t_(depth=1, **_o_)'
    else:
        call = '_t_()'
    kind = rng.choice(['function', 'function', 'method', 'generator', 'closure', 'lambda'])
    if kind == 'lambda':
        lines, changes, values = [], {}, []
    if depth in (2, 3) and rng.random() < 0.4:      # other kinds of frames in between
        t.event('unnamed frames')
        call = {2: rng.choice(['(lambda: _call_(depth=2, **_o_))()', '[_call_(depth=2, **_o_) for _ in (1,)][0]', 'next(_call_(depth=2, **_o_) for _ in (1,))',
                               '{1: _call_(depth=2, **_o_) for _ in (1,)}[1]']),
                3: rng.choice(['(lambda: [_call_(depth=3, **_o_) for _ in (1,)][0])()', '(lambda: (lambda: _call_(depth=3, **_o_))())()'])}[depth]
    body = lines + (['yield _rec_(%s)' % call] if kind == 'generator' else ['return _rec_(%s)' % call])
    if kind == 'closure':
        # parameters used from inner functions live somewhere else
        body = ['inner = lambda: (%s)' % ''.join('%s, ' % p for p in sig.params)] + body
    elif kind == 'generator' and rng.random() < 0.5:
        body = ['yield None'] + body
    env = dict(_v_=values, _t_=taker, _o_=options, _rec_=lambda x: x, _call_=misc.call_dict)
    expected = dict(sig.defaults)
    bound, _ = sig.binding(args, kwargs)
    expected.update(bound)
    expected.update({k: v for k, v in changes.items() if k in expected})
    extra = {k: v for k, v in kwargs.items() if k not in expected}
    overflow = len(args) > len(sig.pos)
    if kind == 'method':
        if 'self' in sig.params + [sig.varargs, sig.varkw] or sig.nposonly or 'self' in kwargs:
            return
        f = _method(sig, body, env)
        if 'self' not in ignored:
            expected['self'] = f.__self__
    else:
        f = funcs.function(sig, 'lambda' if kind == 'lambda' else 'f', '\n'.join(body), env)
    for n in ignored:
        expected.pop(n, None)
    expected.update(extra)
    expected.update(overrides)
    expected.update(over)

    def run():
        if kind != 'generator':
            return f(*args, **kwargs)
        return [g for g in f(*args, **kwargs)][-1]

    t.event(kind)
    if overflow and not options.get('ignore_varargs', False):
        t.event('variadic refused')
        t.raises('call_dict', ValueError, run)
        return
    got = t.ok('call_dict', run)
    exact(t, got, expected, 'wrong parameters', kind=kind, signature=sig.text(), body='\n'.join(body), depth=depth,
          options=options)
    t.check(overrides == overrides_before, 'the overrides are changed')
    for cond, name in ((overflow, 'variadic skipped'), (set(changes) & set(sig.params), 'rebound'), (extra, 'extra keywords'),
                       (set(ignored) & set(sig.params), 'ignored'), (overrides, 'overrides'), (over, 'over overrides'),
                       (set(over) & set(overrides), 'overridden twice'), (depth in (2, 3), 'deeper'),
                       (sig.kwonly, 'keyword-only')):
        if cond:
            t.event(name)
            t.seen((i, 'params'))
    # the dictionary is only ours
    got['changed'] = 1
    got.pop(next(iter(got)))
    if 'ignores' in options and hasattr(options['ignores'], '__next__'):
        options['ignores'] = iter(ignored)
    again = t.ok('call_dict', run)
    exact(t, again, expected if kind != 'method' else dict(expected), 'the second snapshot is not as the first', kind=kind)
    t.sample('%s def f(%s) -> %r' % (kind, sig.text(), sorted(expected)))


def _method(sig, body, env):
    env = dict(env, _d_=sig.defaults)
    text = 'class C(object):\n    def f(self%s):\n%s' % (', ' + sig.text() if sig.text() else '',
                                                         '\n'.join('        ' + line for line in body))
    exec(text, env)
    return env['C']().f


def local_variables(t, rng, i):
    """call2what holds the name and all the local variables, now and for ever."""
    import whatami as wm
    sig = Signature(rng, value=lambda: special(rng), posonly=False, names=funcs.NAMES + UNDERSCORED if rng.random() < 0.7 else UNDERSCORED + ['x', 'y', 'z', 'w', 'v'])
    if any(n.startswith('_') for n in sig.params):
        t.event('underscores')
    prefix = rng.choice(['local_', 'local_', '__local_', '_local', '__'])
    args, kwargs = funcs.arguments(rng, sig, wild=0, Value=lambda: special(rng))
    while sig.binding(args, kwargs) is None or not set(sig.params) <= set(sig.binding(args, kwargs)[0]) | set(sig.defaults):
        args, kwargs = funcs.arguments(rng, sig, wild=0, Value=lambda: special(rng))
    name = rng.choice(['f', 'stuff', '_private', 'call2what', 'What'])
    records, captures, values = [], [], []
    body = []
    depth = rng.choice([1, 1, 2])
    nonids = rng.choice([None, None, 'list', 'set'])
    candidates = sig.params + [prefix + '0', 'not_there']
    nonids = None if nonids is None else {'list': list, 'set': set}[nonids](rng.sample(candidates, min(2, len(candidates))))

    def helper():
        return wm.call2what(depth=2, **({} if nonids is None else {'non_id_keys': nonids}))

    take = '_h_()' if depth == 2 else rng.choice(['_c_(non_id_keys=_n_)', '_c_(1, _n_)', '_c_(depth=1, non_id_keys=_n_)'])
    moments = rng.randrange(1, 4)
    closure = sig.params and rng.random() < 0.3
    if closure:
        body.append('inner = lambda: %s' % sig.params[0])
        t.event('closure variable')
    cells = [n for n in range(3) if rng.random() < 0.25]
    for n in cells:     # local variables used from inner functions
        body.append('inner_%d = %s' % (n, rng.choice(['lambda: %s%d' % (prefix, n), '[lambda: %s%d]' % (prefix, n)])))
        t.event('closure variable')
    free = rng.random() < 0.25 and not set(sig.params + [sig.varargs, sig.varkw]) & {'free_1', 'free_2'}
    if free:            # and variables of outer functions
        body.append('used = free_1, free_2')
        t.event('closure variable')
    for _ in range(moments):
        for n in [n for n in sig.params if rng.random() < 0.3] + (['%s%d' % (prefix, rng.randrange(3))] if rng.random() < 0.7 else []):
            values.append(special(rng))
            body.append('%s = _v_[%d]' % (n, len(values) - 1))
        body.append('_r_.append(dict(locals()))')
        body.append('_s_.append(%s)' % take)
    if rng.random() < 0.5:
        for n in sig.params[:2] + [prefix + '9']:
            body.append('%s = None' % n)
    env = dict(_v_=values, _h_=helper, _c_=wm.call2what, _n_=nonids, _r_=records, _s_=captures)
    if sig.varargs in ('_r_', '_s_'):
        return
    f = (enclosed if free else funcs.function)(sig, name, '\n'.join(body + ['return None']), env)
    t.ok('call2what', f, *args, **kwargs)
    t.event('deeper' if depth == 2 else 'direct')
    t.same(len(captures), moments, 'lost captures')
    for n, (what, expected) in enumerate(zip(captures, records)):
        if n:
            t.event('later change')
        t.same(what.name, name, 'wrong name')
        t.check(what.out_name is None, 'unexpected output name')
        exact(t, dict(what.conf), expected, 'wrong local variables', body='\n'.join(body), moment=n)
        t.check(set(what.non_id_keys) == set(nonids or ()), 'wrong non-id keys', got=what.non_id_keys)
    if nonids:
        t.event('non-id')
    # captures are independent
    if moments > 1:
        captures[0].conf.clear()
        captures[0].non_id_keys.add('more')
        for n in range(1, moments):
            exact(t, dict(captures[n].conf), records[n], 'captures share state', moment=n)
            t.check('more' not in captures[n].non_id_keys, 'captures share non-id keys')
        t.seen((i, 'locals'))


def enclosed(sig, name, body, env):
    """A function that uses variables of another one."""
    env = dict(env, _d_=sig.defaults, _f_=[funcs.Value(), funcs.Value()])
    text = 'def outer(free_1):\n    free_2 = _f_[1]\n    def %s(%s):\n%s\n    return %s\n' % (
        name, sig.text(), '\n'.join('        ' + line for line in body.splitlines()), name)
    exec(text, env)
    return env['outer'](env['_f_'][0])


def recursion(t, rng, i):
    """Each level of a recursion, or of nested calls, has its own."""
    import whatami as wm
    from whatami import misc
    levels = rng.randrange(2, 7)
    asked = rng.randrange(1, levels + 1)
    values = [[special(rng), special(rng), special(rng)] for _ in range(levels)]
    records = {}

    def down(n, a, b=None, **extra):
        local = values[n][2]
        if rng.random() < 0.5:
            b = local
        records[n] = dict(n=n, a=a, b=b), dict(extra), local
        if n == 0:
            return misc.call_dict(depth=asked), wm.call2what(depth=asked)
        result = down(n - 1, values[n - 1][0], **({'b': values[n - 1][1]} if n % 2 else {'more': values[n - 1][1]}))
        return result

    snapshot = t.ok('call_dict', down, levels - 1, values[-1][0])
    t.event('recursive')
    t.event('deeper')
    params_, extra, local = records[asked - 1]
    exact(t, snapshot[0], dict(params_, **extra), 'parameters of another call', levels=levels, asked=asked)
    what = snapshot[1]
    t.event('call2what')
    t.same(what.name, 'down', 'wrong name')
    conf = dict(what.conf)
    for k, v in params_.items():
        t.check(conf[k] is v, 'variables of another call', key=k, levels=levels, asked=asked)
    t.check(conf['local'] is local, 'variables of another call', levels=levels, asked=asked)
    t.check(conf['extra'] == extra, 'variables of another call', levels=levels, asked=asked)
    t.check('result' not in conf, 'variables from the future')

    # nested calls of different functions
    names = ['one', 'two', 'three', 'four']
    rng.shuffle(names)
    env = dict(call2what=wm.call2what, call_dict=misc.call_dict)
    vs = {n: special(rng) for n in names}
    env['vs'] = vs
    text = 'def %s(p):\n    here = vs[%r]\n    return call2what(asked), call_dict(asked)\n' % (names[0], names[0])
    for inner, outer in zip(names, names[1:]):
        text += 'def %s(p):\n    here = vs[%r]\n    return %s(here)\n' % (outer, outer, inner)
    asked = rng.randrange(1, 5)
    env['asked'] = asked
    exec(text, env)
    last = special(rng)
    what, params_ = t.ok('call2what', env[names[-1]], last)
    caller = names[asked - 1]
    t.same(what.name, caller, 'wrong function')
    p = vs[names[asked]] if asked < 4 else last
    exact(t, dict(what.conf), {'p': p, 'here': vs[caller]}, 'variables of another function', asked=asked)
    exact(t, params_, {'p': p}, 'parameters of another function', asked=asked)
    t.seen((levels, asked, tuple(names)))


@unsharded
def threads(t, rng, i):
    """Snapshots taken at once from several threads."""
    import whatami as wm
    from whatami import misc
    barrier = threading.Barrier(4)
    wrong, counts = [], []

    def f(x, y=None, **z):
        k = x
        cd = misc.call_dict()
        what = wm.call2what()
        conf = dict(what.conf)
        return cd, {n: conf.get(n) for n in ('x', 'y', 'z', 'k')}

    def work(n):
        barrier.wait()
        for m in range(30):
            x, y = (n, m), [n, m]
            cd, conf = f(x, y=y, w=m)
            if cd != {'x': x, 'y': y, 'w': m} or conf != {'x': x, 'y': y, 'z': {'w': m}, 'k': x}:
                wrong.append((n, m, cd, conf))
            counts.append(1)
    ts = [threading.Thread(target=work, args=(n,)) for n in range(4)]
    for th in ts:
        th.start()
    for th in ts:
        th.join()
    t.check(not wrong, 'snapshots are mixed', wrong=wrong[:3])
    t.same(len(counts), 120, 'a thread failed')
    t.event('threads', len(counts))


PHASES = [('larger sizes', sizes.calls, {'quick': 2, 'thorough': 24}),
          ('params', params, {'quick': 600, 'thorough': 30000}),
          ('locals', local_variables, {'quick': 400, 'thorough': 20000}),
          ('recursion', recursion, {'quick': 200, 'thorough': 8000}),
          ('threads', threads, {'quick': 1, 'thorough': 10})]
