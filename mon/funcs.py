# coding=utf-8
"""Generation of python functions with all kinds of signatures."""
from . import gen


class Value(object):
    """Values are recognised by identity."""
    count = 0

    def __init__(self):
        Value.count += 1
        self.n = Value.count

    def __repr__(self):
        return 'Value(%d)' % self.n


class Hostile(object):
    """Not to be compared, tested, printed, hashed or asked for anything."""

    def refuse(self, *_):
        raise RuntimeError('hostile')
    __eq__ = __ne__ = __bool__ = __len__ = __iter__ = __hash__ = __str__ = __call__ = __getattr__ = refuse

    def __repr__(self):
        return 'Hostile()'


SPECIALS = [None, NotImplemented, Ellipsis, False, True, 0, 1, '', 'text', (), int, object(), Hostile(), float('nan'), Value, [], {}, b'']


def special(rng):
    return rng.choice(SPECIALS) if rng.random() < 0.15 else Value()


NAMES = gen.IDS + ['obj', 'self', 'cls', 'args', 'kwargs', 'func', 'fn', 'what', 'whatablefunc', 'c', 'positional', 'keywords',
                   'depth', 'ignores', 'overrides', 'data', 'this', 'f', 'non_id_keys', 'maxlength', 'excludes']


class Signature(object):
    def __init__(self, rng, posonly=True, maxargs=5, names=NAMES, value=Value, varargs=True):
        names = [n for n in dict.fromkeys(names) if n not in gen.PYWORDS]
        rng.shuffle(names)
        self.pos = [names.pop() for _ in range(rng.randrange(0, maxargs))]
        self.nposonly = rng.randrange(0, len(self.pos) + 1) if posonly and rng.random() < 0.2 else 0
        self.kwonly = [names.pop() for _ in range(rng.randrange(1, 4))] if rng.random() < 0.35 else []
        self.varargs = names.pop() if varargs and rng.random() < 0.25 else None
        self.varkw = names.pop() if varargs and rng.random() < 0.25 else None
        first = rng.randrange(0, len(self.pos) + 1)
        self.defaults = {n: value() for n in self.pos[first:]}
        self.defaults.update({n: value() for n in self.kwonly if rng.random() < 0.6})

    @property
    def params(self):
        return self.pos + self.kwonly

    def text(self):
        parts = []
        for i, n in enumerate(self.pos):
            parts.append('%s=_d_[%r]' % (n, n) if n in self.defaults else n)
            if i + 1 == self.nposonly:
                parts.append('/')
        if self.varargs:
            parts.append('*' + self.varargs)
        elif self.kwonly:
            parts.append('*')
        parts += ['%s=_d_[%r]' % (n, n) if n in self.defaults else n for n in self.kwonly]
        if self.varkw:
            parts.append('**' + self.varkw)
        return ', '.join(parts)

    def binding(self, args, kwargs):
        """What python would bind: ({param: value}, overflow) or None when it would be rejected.
        Required parameters can lack. Overflow tells if something goes to the variadic ones."""
        bound = dict(zip(self.pos, args))
        overflow = False
        if len(args) > len(self.pos):
            if not self.varargs:
                return None
            overflow = True
        for k, v in kwargs.items():
            if k in self.pos[self.nposonly:] or k in self.kwonly:
                if k in bound:
                    return None
                bound[k] = v
            elif self.varkw:
                overflow = True
            else:
                return None
        return bound, overflow


def function(sig, name='f', body=None, env=None, doc=None):
    """Makes the function; by default it gives its parameters as a dictionary."""
    env = dict(env or {})
    env['_d_'] = sig.defaults
    env['__name__'] = env.get('__name__', 'made.up.module')
    if body is None:
        body = 'return dict(locals())'
    lines = ['    ' + line for line in ([repr(doc)] if doc is not None else []) + body.split('\n')]
    if name == 'lambda':
        assert body.startswith('return ')
        return eval('lambda %s: %s' % (sig.text(), body[7:]), env)
    exec('def %s(%s):\n%s' % (name, sig.text(), '\n'.join(lines)), env)
    return env[name]


def arguments(rng, sig, wild=0.15, Value=Value):
    """Arguments for a call, mostly right."""
    npos = rng.randrange(sig.nposonly, len(sig.pos) + 1)
    args = [Value() for _ in range(npos)]
    kwargs = {}
    for n in sig.pos[npos:]:
        if n not in sig.defaults or rng.random() < 0.5:
            kwargs[n] = Value()
    for n in sig.kwonly:
        if n not in sig.defaults or rng.random() < 0.5:
            kwargs[n] = Value()
    if npos == len(sig.pos) and sig.varargs and rng.random() < 0.5:
        args += [Value() for _ in range(rng.randrange(1, 3))]
    if sig.varkw and rng.random() < 0.5:
        kwargs['extra_%d' % rng.randrange(5)] = Value()
    if rng.random() < wild:
        op = rng.randrange(4)
        if op == 0:
            args += [Value() for _ in range(3)]
        elif op == 1 and kwargs:
            del kwargs[rng.choice(list(kwargs))]
        elif op == 2:
            kwargs['unexpected'] = Value()
        elif sig.pos:
            kwargs[sig.pos[0]] = Value()
    return args, kwargs
