# coding=utf-8
"""C09: long ids are replaced by their digest exactly when they exceed the limit."""
import hashlib

from .. import gen, ref

PROPERTY = 'C09'
TECHNIQUE = 'runtime monitoring: every (positional) id asked with a limit is compared with a sha1 oracle around the boundary'
RULE = ('random configurations (ASCII and not) asked for their ids and positional ids, with and without non-id '
        'parameters and output names, with limits at, around and far from the exact length of the id in characters and '
        'in bytes; distinct by id; non-trivial: at least one limit trims and another one does not')
REQUIRE = {'large': 20, 'other integer': 1000, 'trimmed': 1000, 'untouched': 1000, 'trimmed non-ascii': 150, 'exactly at the limit': 300, 'unlimited': 500}
O = gen.Options(nonids=True, nan=True, classes=True)


def expected(text, maxlength):
    return hashlib.sha1(text.encode('utf-8', 'surrogatepass')).hexdigest() if 0 < maxlength < len(text) else text


def limits(rng, text):
    n, b = len(text), len(text.encode('utf-8', 'surrogatepass'))
    fixed = [n - 1, n, n + 1, 1, 2, 0, -1, -n, b - 1, b, b + 1, 40, 39, 41, n // 2, n * 2, 255, 10 ** 6, 2 ** 63, -10 ** 9]
    return fixed + [rng.randrange(1, 2 * n + 2) for _ in range(3)]


class OwnInt(int):
    pass


def typed(rng, n):
    """The same limit, in any type of integer."""
    if abs(n) >= 2 ** 31 or rng.random() < 0.6:
        return n
    import numpy as np
    if n in (0, 1) and rng.random() < 0.4:
        return bool(n)
    return rng.choice([OwnInt, np.int64, np.int32, np.int64])(n)


def boundaries(t, rng, i):
    spec = gen.what(rng, O, 2)
    if rng.random() < 0.15:
        t.event('empty output name')
        spec = spec[:2] + ('',) + spec[3:]
    if rng.random() < 0.3:   # surely not ascii
        spec = spec[:3] + ([(k, v) for k, v in spec[3] if k != 'uni'] +
                           [('uni', ('str', rng.choice([u'\xe9', u'\u6f22\u5b57', u'\U0001f600', u'\xdf\u0301'])))],) + spec[4:]
    if rng.random() < 0.1:
        spec = spec[:3] + ([('long', ('str', gen.text(rng) + 'ab c' * rng.choice([10, 80, 3000])))],) + spec[4:]
    w = gen.build(spec, rng)
    for op, fn, kw, render in (('id', w.id, 'nonids_too', ref.render), ('positional_id', w.positional_id, 'non_ids_too', ref.positional)):
        for nonids in (False, True):
            text = render(spec, nonids_too=nonids)
            for n in limits(rng, text):
                how = {kw: nonids, 'maxlength': typed(rng, n)}
                if type(how['maxlength']) is not int:
                    t.event('other integer')
                if not nonids and rng.random() < 0.5:
                    del how[kw]
                want = expected(text, n)
                t.same(t.ok(op, fn, **how), want, 'wrong %s with a limit of %d, being its length %d' % (op, n, len(text)),
                       spec=spec)
                t.event('unlimited' if n <= 0 else 'exactly at the limit' if n == len(text) else
                        'untouched' if want == text else 'trimmed' if len(text.encode('utf-8', 'surrogatepass')) == len(text)
                        else 'trimmed non-ascii')
                if n > len(text):
                    t.event('untouched')
            t.same(t.ok(op, fn, **{kw: nonids}), text, 'wrong %s without limit' % op, spec=spec)
    t.seen(ref.render(spec, True))
    t.sample('%s -> %s' % (ref.render(spec)[:200], hashlib.sha1(ref.render(spec).encode('utf-8', 'surrogatepass')).hexdigest()))


def nested(t, rng, i):
    """Only the whole id is trimmed, never its parts; the digest of an id does not depend on what was asked before."""
    from whatami import What
    inner = gen.what(rng, O, 1)
    w = gen.build(inner, rng)
    text = ref.render(inner)
    t.same(t.ok('id', w.id, maxlength=1), expected(text, 1), 'wrong digest')
    outer = What('outer', {'x': w, 'xs': [w]}, out_name='o' if i % 2 else None)
    full = '%souter(x=%s,xs=[%s])' % ('o=' if i % 2 else '', text, text)
    for n in (len(full), len(text), len(full) - 1, 0):
        t.same(t.ok('id', outer.id, maxlength=n), expected(full, n), 'wrong id of nested configurations', inner=inner)
    t.seen(('nested', full))


def large(t, rng, i):
    """Very long ids: everything in them counts."""
    from whatami import What
    n = rng.choice([1 << 12, 1 << 15, 1 << 16, 1 << 17, 1 << 18, 10 ** 6]) + rng.randrange(-3, 4)
    filler = rng.choice(['a', 'ab c', u'\xe9', u'\U0001f600x'])
    body = (filler * (n // len(filler) + 1))[:n]
    where = rng.choice([0, n // 2, n - 1, n - 1, n - 2, rng.randrange(n)])
    other = body[:where] + '#' + body[where + 1:]
    digests = set()
    for s in (body, other, body + '#'):
        text = "f(x='%s')" % s
        w = What('f', {'x': s})
        t.event('large')
        digest = t.ok('id', w.id, maxlength=rng.choice([1, 40, n, len(text) - 1]))
        t.same(digest, expected(text, 1), 'wrong digest of a long id', size=n, where=where)
        t.same(t.ok('positional_id', w.positional_id, maxlength=rng.choice([1, 40])),
               expected(t.ok('positional_id', w.positional_id), 1), 'wrong digest of a long positional id', size=n)
        t.same(t.ok('id', w.id, maxlength=len(text)), text, 'a long id within the limit is trimmed')
        digests.add(digest)
    t.same(len(digests), 3, 'different ids with the same digest', size=n, where=where)
    t.seen(('large', n, filler, where))


PHASES = [('large', large, {'quick': 12, 'thorough': 400}),
          ('boundaries', boundaries, {'quick': 150, 'thorough': 8000}),
          ('nested', nested, {'quick': 100, 'thorough': 5000})]
