# coding=utf-8
"""C08: identification and parsing are safe to use from several threads."""
import sys
import threading
import time

from .. import gen, ref
from ..core import text

PROPERTY = 'C08'
TECHNIQUE = ('runtime monitoring: multi-threaded stress with barriers and tiny switch intervals; every answer checked '
             'against the reference computed beforehand')
RULE = ('2 to 8 threads, released by a barrier, running random scripts of ids, positional ids, parses (valid, rejected, '
        'wrongly typed), old-style migrations, flattening, exports, template matching and hashing over own and shared '
        'configurations; every answer compared with the one expected when running alone; non-trivial: cases in which '
        'the executions of several threads overlapped')
REQUIRE = {'overlapped calls': 300, 'parse': 300, 'id': 300, 'old': 50, 'reject': 50, 'match': 20, 'first old parse': 1, 'partial': 1500}
O = gen.Options()
OLD = gen.Options(whatables=False, funcs=False, outs=False, frozensets=False, hashable_whats=False)


def script(rng, n, specs):
    """A list of (operation, callable, expected normal form)."""
    import whatami as wm
    from arpeggio import NoMatch
    from .c07 import old_spec
    from whatami.plugins import hasher
    out = []
    for _ in range(n):
        op = rng.choice(['parse', 'parse', 'parse', 'id', 'id', 'old', 'reject', 'type', 'flatten', 'dict', 'match', 'hash',
                         'what2id', 'roundtrip'])
        spec = rng.choice(specs) if rng.random() < 0.5 else gen.what(rng, O, 2)
        text = ref.render(spec)
        if op == 'parse':
            out.append((op, lambda text=text: ref.norm_obj(wm.parse_whatid(text)), ref.norm_spec(spec)))
        elif op == 'id':
            w = gen.build(spec, rng)
            out.append((op, w.id, text))
        elif op == 'roundtrip':
            out.append((op, lambda text=text: wm.id2what(text).id(), text))
        elif op == 'old':
            s = old_spec(rng, 1)
            old = ref.render_old(s, rng)
            out.append((op, lambda old=old: ref.norm_obj(wm.oldid2what(old)), ref.norm_spec(s)))
        elif op == 'reject':
            def reject(text=text + ')'):
                try:
                    return wm.parse_whatid(text)
                except NoMatch:
                    return 'NoMatch'
            out.append((op, reject, 'NoMatch'))
        elif op == 'type':
            def wrong():
                try:
                    return wm.parse_whatid(None)
                except Exception:
                    return 'failed'
            out.append((op, wrong, 'failed'))
        elif op == 'flatten':
            w = gen.build(spec, rng)
            expected = [k for k, _ in sorted(spec[3])]
            out.append((op, lambda w=w: [k for k in w.keys() if not isinstance(k, tuple)], expected))
        elif op == 'dict':
            out.append((op, lambda text=text: sorted(wm.id2dict(text)['whatami_conf']), sorted(k for k, _ in spec[3])))
        elif op == 'match':
            if 'nan' in text:
                continue
            out.append((op, lambda text=text: wm.match_whatids([text, text, 'zzz()'], text), [text, text]))
        elif op == 'hash':
            value = {'a': [1, (2, text)], text: {3}}
            out.append((op, lambda value=value: hasher(value), hasher(value)))
        else:
            w = gen.build(spec, rng)
            out.append((op, lambda w=w: wm.what2id(w), text))
    return out


def run_threads(t, scripts, timeout=120):
    barrier = threading.Barrier(len(scripts))
    results = [[] for _ in scripts]
    spans = [None] * len(scripts)

    def work(n):
        barrier.wait()
        start = time.time()
        try:
            for op, fn, expected in scripts[n]:
                try:
                    got = fn()
                except Exception as ex:  # noqa
                    got = ('raised', type(ex).__name__, text(ex)[:300])
                results[n].append(got)
        finally:
            spans[n] = (start, time.time())

    threads = [threading.Thread(target=work, args=(n,)) for n in range(len(scripts))]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        for th in threads:
            th.daemon = True
            th.start()
        for th in threads:
            th.join(timeout)
            if th.is_alive():
                t.fail('the threads do not finish (deadlock?) in %d s' % timeout)
    finally:
        sys.setswitchinterval(old)
    overlapped = max(s for s, _ in spans) < min(e for _, e in spans)
    for n, sc in enumerate(scripts):
        for (op, _, expected), got in zip(sc, results[n]):
            t.event(op)
            if overlapped:
                t.event('overlapped calls')
            t.same(got, expected, 'a call gives another result when running with other threads', op=op, thread=n)
    return overlapped


def stress(t, rng, i):
    nthreads = rng.choice([2, 3, 4, 8])
    specs = [gen.what(rng, O, 2) for _ in range(3)]
    scripts = [script(rng, 25, specs) for _ in range(nthreads)]
    if run_threads(t, scripts):
        t.seen((i, nthreads, tuple(op for op, _, _ in scripts[0])))
    t.sample('%d threads: %s' % (nthreads, ' '.join(op for op, _, _ in scripts[0])))


def shared(t, rng, i):
    """All the threads over the very same objects."""
    import whatami as wm
    specs = [gen.what(rng, O, 3) for _ in range(3)]
    sc = []
    for spec in specs:
        w, text = gen.build(spec, rng), ref.render(spec)
        sc += [('id', w.id, text), ('id', lambda w=w: str(w), text), ('parse', lambda text=text: ref.norm_obj(wm.parse_whatid(text)),
                                                                     ref.norm_spec(spec))]
    scripts = []
    for _ in range(4):
        own = sc * 3
        rng.shuffle(own)
        scripts.append(own)
    if run_threads(t, scripts):
        t.seen(('shared', i))


def nested_keys(t, rng, i):
    """All the threads flatten nested configurations."""
    from whatami import What
    scripts = []
    for n in range(6):
        a = 'a%d' % n
        w = What('f', {a: What('g%d' % n, {'x%d' % k: [k, What('h', {'y': k, 'z': (n, k)})] for k in range(5)}), 'b': {'k': [n]}})
        expected = [a]
        for k in range(5):
            x = (a, 'x%d' % k)
            expected += [x, x + (0,), x + (1,), x + (1, 'y'), x + (1, 'z'), x + (1, 'z', 0), x + (1, 'z', 1)]
        expected += ['b', ('b', 'k'), ('b', 'k', 0)]
        scripts.append([('keys', lambda w=w: w.keys(collections_too=True), expected)] * 150)
    if run_threads(t, scripts):
        t.seen(('nested keys', i))


def both_ids(t, rng, i):
    """All the threads ask for all the ids of a single configuration."""
    from whatami import What
    conf = {'k%d' % k: rng.choice([[k] * 5, 'x%d' % k, k, (k, {'a': k})]) for k in range(rng.choice([3, 20, 60]))}
    hidden = ['n', 'm', 'k1']
    w = What('f', dict(conf, n=1, m=[2]), non_id_keys=hidden, out_name=rng.choice([None, 'o']))
    asks = [('id', w.id), ('id', lambda: w.id(nonids_too=True)), ('id', w.positional_id), ('id', lambda: w.positional_id(non_ids_too=True)),
            ('id', lambda: sorted(w.conf)), ('id', lambda: sorted(map(str, w.keys()))), ('id', lambda: sorted(w.flatten()[0], key=str)), ('id', lambda: sorted(w.to_dict())),
            ('id', lambda: str(w)), ('id', lambda: w.copy().id(nonids_too=True)), ('id', lambda: w.id(maxlength=10)), ('id', lambda: repr(w))]
    sc = [(op, fn, fn()) for op, fn in asks]
    scripts = []
    for n in range(6):
        own = (sc if n % 2 else [sc[0], sc[1]] * 4) * 15
        rng.shuffle(own)
        scripts.append(own)
    if run_threads(t, scripts):
        t.seen(('both ids', i))


def partials(t, rng, i):
    """All the threads ask for the ids of applied functions."""
    import functools
    import toolz
    import whatami as wm
    scripts = []
    for n in range(6):
        names = ['p%d_%d' % (n, k) for k in range(12)]
        env = {}
        exec('def fun_%d(%s):\n    return 3' % (n, ', '.join('%s=None' % p for p in names)), env)
        f = env['fun_%d' % n]
        sc = []
        for _ in range(40):
            args = [rng.randrange(1000) for _ in range(rng.randrange(1, 12))]
            byname = {k: rng.randrange(1000) for k in names[len(args):] if rng.random() < 0.7}
            c = functools.partial(f, *args, **byname)
            if rng.random() < 0.5:
                half = rng.randrange(len(args) + 1)
                c = functools.partial(toolz.curry(f, *args[:half], **byname), *args[half:])
            values = dict.fromkeys(names)
            values.update(zip(names, args))
            values.update(byname)
            expected = 'fun_%d(%s)' % (n, ','.join('%s=%s' % kv for kv in sorted(values.items())))
            sc.append(('partial', lambda c=c: wm.whatareyou(c).id(), expected))
            sc.append(('partial', lambda c=c: wm.What('g', {'x': c}).id(), 'g(x=%s)' % expected))
        scripts.append(sc * 3)
    if run_threads(t, scripts):
        t.seen(('partials', i))


def first_call(t, rng, i):
    """The lazily created parser of old-style ids is created while other threads need it."""
    from whatami import whatutils
    import whatami as wm
    from .c07 import old_spec
    if hasattr(whatutils, 'OLD_WHATID_PARSER'):
        whatutils.OLD_WHATID_PARSER = None
    scripts = []
    for _ in range(6):
        sc = []
        for _ in range(4):
            s = old_spec(rng, 1)
            sc.append(('old', lambda old=ref.render_old(s, rng): ref.norm_obj(wm.oldid2what(old)), ref.norm_spec(s)))
        scripts.append(sc)
    t.event('first old parse')
    if run_threads(t, scripts):
        t.seen(('first', i))


PHASES = [('stress', stress, {'quick': 24, 'thorough': 1500}),
          ('shared', shared, {'quick': 12, 'thorough': 600}),
          ('both ids', both_ids, {'quick': 6, 'thorough': 300}),
          ('nested keys', nested_keys, {'quick': 5, 'thorough': 200}),
          ('partials', partials, {'quick': 8, 'thorough': 300}),
          ('first call', first_call, {'quick': 8, 'thorough': 200})]
