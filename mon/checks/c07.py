# coding=utf-8
"""C07: parsing does not depend on what was parsed before."""
import json
import os
import subprocess
import sys

from .. import gen, ref
from ..core import VERIF, unsharded

PROPERTY = 'C07'
TECHNIQUE = ('runtime monitoring: history monitor of parse requests against a stateless reference parser, with injected '
             'failures and mutation of the results')
RULE = ('random histories of parse requests (valid, rejected, wrongly typed, with custom or failing parsers and visitors, '
        'new and old syntax), with previous results being modified; every answer compared with what the text alone says; '
        'non-trivial: histories with at least one failure before a successful parse')
REQUIRE = {'class found': 60, 'class missing': 30, 'valid': 400, 'rejected': 100, 'not a string': 60, 'custom parser': 40, 'custom visitor': 40, 'old': 60,
           'failing visitor': 40, 'modified': 100, 'reparsed': 100, 'fresh process': 30}
O = gen.Options()
OLD = gen.Options(whatables=False, funcs=False, outs=False, frozensets=False, hashable_whats=False)


def poison(obj, rng, depth=0):
    """Changes everything that can be changed in a parsed configuration."""
    if depth > 6:
        return
    if type(obj).__name__ == 'What':
        poison(obj.conf, rng, depth + 1)
        obj.non_id_keys.add('poison')
        obj.name = 'poison'
        obj.out_name = 'poison'
    elif isinstance(obj, list):
        for o in obj:
            poison(o, rng, depth + 1)
        obj.append('poison')
        obj.reverse()
    elif isinstance(obj, dict):
        for o in list(obj.values()):
            poison(o, rng, depth + 1)
        obj.clear()
        obj['poison'] = 'poison'
    elif isinstance(obj, set):
        obj.clear()
        obj.add('poison')
    elif isinstance(obj, tuple):
        for o in obj:
            poison(o, rng, depth + 1)


def old_spec(rng, depth=2):
    while True:
        spec = gen.what(rng, OLD, depth)
        names = [n[1] for n in (gen.at(spec, p) for p in gen.paths(spec)) if n[0] == 'what']
        if not set(names) & {'inf', 'nan', 'None', 'True', 'False', 'out', 'set'}:
            return spec


def histories(t, rng, i):
    import whatami as wm
    from whatami.parsers import build_whatami_parser, WhatamiTreeVisitor
    from arpeggio import NoMatch

    class Failing(WhatamiTreeVisitor):
        def __init__(self, exc):
            super(Failing, self).__init__()
            self.exc = exc

        def visit_a_string(self, node, _):
            raise self.exc

        visit_kv = visit_a_string

    class Shouting(WhatamiTreeVisitor):
        @staticmethod
        def visit_a_string(node, _):
            return node.value[1:-1].upper()

    pool = []
    for _ in range(4):
        spec = gen.what(rng, O, 2)
        pool.append((ref.render(spec), ref.norm_spec(spec)))
    olds = []
    for _ in range(2):
        spec = old_spec(rng)
        olds.append((ref.render_old(spec, rng), ref.norm_spec(spec)))
    results = []
    trace = []
    failures = 0
    own = None
    for _ in range(20):
        op = rng.choice(['valid', 'valid', 'valid', 'rejected', 'not a string', 'custom parser', 'custom visitor', 'old',
                         'failing visitor', 'modified', 'modified', 'failing parser', 'new parser'])
        text, expected = rng.choice(pool)
        trace.append(op)
        t.event(op)
        if op == 'valid':
            got = t.ok('parse_whatid', rng.choice([wm.parse_whatid, wm.id2what]), text)
            t.same(ref.norm_obj(got), expected, 'the result depends on the history', text=text, trace=trace)
            results.append((got, expected))
            if failures:
                t.seen((text, tuple(trace)))
        elif op == 'rejected':
            bad = rng.choice([text[:-1], text + ')', text.replace('(', '[', 1), '', 'f(x=', "f(x='a", 'f(x=[1,2)'])
            t.raises('parse_whatid', NoMatch, wm.parse_whatid, bad)
            failures += 1
        elif op == 'not a string':
            t.raises('parse_whatid', Exception, wm.parse_whatid,
                     rng.choice([None, 3, b'f(x=1)', ['f()'], object(), {'a': 1}]))
            failures += 1
        elif op in ('custom parser', 'new parser'):
            if own is None or op == 'new parser':
                own = build_whatami_parser()
            got = t.ok('parse_whatid', wm.parse_whatid, text, parser=own)
            t.same(ref.norm_obj(got), expected, 'other result with an own parser', text=text, trace=trace)
            results.append((got, expected))
        elif op == 'custom visitor':
            got = t.ok('parse_whatid', wm.parse_whatid, "f(x='a',y=[None,'b'])", visitor=Shouting())
            t.same(got.conf, {'x': 'A', 'y': [None, 'B']}, 'the visitor is not used')
        elif op == 'failing visitor':
            exc = rng.choice([TypeError, ValueError, KeyError, ZeroDivisionError])('injected')
            out = t.call('parse_whatid', wm.parse_whatid, "f(x='a')", visitor=Failing(exc))
            t.check(out.exc is exc, 'the failure of the visitor is lost', got=out)
            failures += 1
        elif op == 'failing parser':
            class Broken(object):
                def parse(self, _):
                    raise TypeError('injected')
            t.raises('parse_whatid', TypeError, wm.parse_whatid, text, parser=Broken())
            failures += 1
        elif op == 'old':
            text, expected = rng.choice(olds)
            got = t.ok('oldid2what', wm.oldid2what, text)
            t.same(ref.norm_obj(got), expected, 'the result depends on the history (old syntax)', text=text, trace=trace)
            t.same(t.ok('id2whatami4', wm.id2whatami4, 'not#an(id'), 'not#an(id', 'wrong migration')
            results.append((got, expected))
        elif op == 'modified' and results:
            n = rng.randrange(len(results))
            poison(results.pop(n)[0], rng)
    # nothing changed the results that were not modified, and everything can be parsed again
    for got, expected in results:
        t.same(ref.norm_obj(got), expected, 'the result of a parse changed later', trace=trace)
    for text, expected in pool:
        t.event('reparsed')
        t.same(ref.norm_obj(t.ok('parse_whatid', wm.parse_whatid, text)), expected, 'the history changed the result',
               text=text, trace=trace)
    t.sample(' '.join(trace))


def two_syntaxes(t, rng, i):
    """What one of the syntaxes rejects does not change what the other one answers."""
    import whatami as wm
    from whatami.parsers import build_whatami_parser
    new, old = gen.what(rng, O, 2), old_spec(rng)
    texts = [ref.render(new), ref.render_old(old, rng), 'nothing like an id (', 'f()', 'f#x=1#y=2', "f#x='a'"]
    answers = {}
    own = build_whatami_parser()
    asks = {'new': wm.parse_whatid, 'new too': wm.id2what, 'old': wm.oldid2what, 'migrate': wm.id2whatami4,
            'own': lambda text: wm.parse_whatid(text, parser=own)}
    for _ in range(30):
        text, how = rng.choice(texts), rng.choice(sorted(asks))
        out = t.call('two syntaxes', asks[how], text)
        answer = 'failed' if out.failed else out.value if how == 'migrate' else ref.norm_obj(out.value)
        family = {'new too': 'new', 'own': 'new'}.get(how, how)
        t.same(answer, answers.setdefault((text, family), answer), 'another answer the second time', text=text, how=how)
        if text == texts[0] and family == 'new':
            t.same(answer, ref.norm_spec(new), 'wrong answer', text=text, how=how)
        if text == texts[1] and family == 'old':
            t.same(answer, ref.norm_spec(old), 'wrong answer', text=text, how=how)
        if text == texts[2] and family in ('old', 'new'):
            t.same(answer, 'failed', 'this is not an id', text=text, how=how)
        if text == texts[4] and family != 'old':
            t.same(answer, {'new': 'failed', 'migrate': 'f(x=1,y=2)'}[family], 'wrong answer', text=text, how=how)
        t.event('rejected' if answer == 'failed' else 'two')
    t.seen(('two', texts[0], texts[1]))


def aliasing(t, rng, i):
    """Results of separate calls share nothing that can be modified."""
    import whatami as wm
    text, expected = (lambda s: (ref.render(s), ref.norm_spec(s)))(gen.what(rng, O, 3))
    one, two = t.ok('parse_whatid', wm.parse_whatid, text), t.ok('parse_whatid', wm.parse_whatid, text)
    poison(one, rng)
    t.event('modified')
    t.same(ref.norm_obj(two), expected, 'changing a result changes another one', text=text)
    t.same(ref.norm_obj(t.ok('parse_whatid', wm.parse_whatid, text)), expected, 'changing a result changes later parses',
           text=text)
    t.seen(('alias', text))


def old_aliasing(t, rng, i):
    """Neither do the migrated ones, whatever their number."""
    import whatami as wm
    names = ['old%d' % k for k in range(120)]
    rng.shuffle(names)
    kept = []
    for n, name in enumerate(names):
        out = rng.choice([None, None, 'o'])
        conf = rng.choice([{}, {}, {'a': 1}, {'a': [1]}])
        text = ('out=o#' if out else '') + '%s#%s' % (name, '#'.join('%s=%r' % kv for kv in conf.items()))
        got = t.ok('oldid2what', wm.oldid2what, text)
        if out:
            conf = dict(conf, out=out)
        t.same((got.name, got.conf, got.out_name, sorted(got.non_id_keys)), (name, conf, None, []), 'wrong migration', text=text)
        if rng.random() < 0.4:
            poison(got, rng)
        else:
            kept.append((got, (name, conf, None, [])))
        t.event('old')
    for got, expected in kept:
        t.same((got.name, got.conf, got.out_name, sorted(got.non_id_keys)), expected, 'a migrated configuration changed later')
    t.seen(('old aliasing', i))


def child():
    import whatami as wm
    out = []
    for text in json.loads(sys.stdin.read()):
        try:
            got = wm.parse_whatid(text)
            out.append([repr(got), got.id()])
        except Exception as ex:
            out.append([type(ex).__name__])
    print(json.dumps(out))


@unsharded
def fresh_process(t, rng, i):
    import whatami as wm
    texts = []
    for _ in range(60):
        text = ref.render(gen.what(rng, gen.Options(sets=False), 2))
        texts.append(text if rng.random() < 0.7 else text[:rng.randrange(len(text))])
    env = dict(os.environ, PYTHONHASHSEED='0')
    proc = subprocess.run([sys.executable, '-W', 'ignore', '-c', 'from mon.checks import c07; c07.child()'], env=env, cwd=VERIF,
                          input=json.dumps(texts).encode('utf-8'), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if proc.returncode != 0:
        t.fail('parsing in a fresh process failed', stderr=proc.stderr.decode('utf-8', 'replace')[-1500:])
    there = json.loads(proc.stdout.decode('utf-8').strip().splitlines()[-1])
    rng.shuffle(texts_order := list(range(len(texts))))
    for n in texts_order:
        out = t.call('parse_whatid', wm.parse_whatid, texts[n])
        t.event('fresh process')
        here = [type(out.exc).__name__] if out.failed else [repr(out.value), out.value.id()]
        t.same(here, there[n], 'other result in a fresh process', text=texts[n])
        t.seen(('fresh', texts[n]))


def late_classes(t, rng, i):
    """Classes are what they are at the time of parsing."""
    import types
    import whatami as wm
    module, name = 'late_module_%d' % rng.randrange(10 ** 9), rng.choice(['C', 'Klass', '_P'])
    text = rng.choice(["f(x=<class '%s.%s'>)", "f(x=[1,{'a':<class '%s.%s'>}])", "o=f(x=1,y=g(z=<class '%s.%s'>))"]) % (module, name)

    def found(x):
        if isinstance(x, wm.What):
            x = x.conf
        if isinstance(x, dict) and set(x) != {'class'}:
            return [f for v in x.values() for f in found(v)]
        if isinstance(x, list):
            return [f for v in x for f in found(v)]
        return [] if x == 1 else [x]
    if rng.random() < 0.3:
        t.same(found(t.ok('parse_whatid', wm.parse_whatid, text)), [{'class': module + '.' + name}], 'wrong class of a module that does not exist')
        t.event('class missing')
        if rng.random() < 0.5:
            t.ok('parse_whatid', wm.parse_whatid, text)
    sys.modules[module] = m = types.ModuleType(module)
    try:
        for _ in range(rng.randrange(2, 6)):
            current = getattr(m, name, None)
            op = rng.choice(['new', 'new', 'remove', 'keep'])
            if op == 'new':
                current = type(name, (object,), {'__module__': module})
                setattr(m, name, current)
            elif op == 'remove' and current is not None:
                delattr(m, name)
                current = None
            got = found(t.ok('parse_whatid', wm.parse_whatid, text))
            if current is None:
                t.event('class missing')
                t.same(got, [{'class': module + '.' + name}], 'wrong class that does not exist')
            else:
                t.event('class found')
                t.check(len(got) == 1 and got[0] is current, 'not the class that is there now', got=got, expected=current)
    finally:
        del sys.modules[module]
    t.seen(('late class', text))


PHASES = [('late classes', late_classes, {'quick': 60, 'thorough': 2000}),
          ('histories', histories, {'quick': 110, 'thorough': 6000}),
          ('two syntaxes', two_syntaxes, {'quick': 40, 'thorough': 2000}),
          ('aliasing', aliasing, {'quick': 150, 'thorough': 6000}),
          ('old aliasing', old_aliasing, {'quick': 8, 'thorough': 60}),
          ('fresh', fresh_process, {'quick': 1, 'thorough': 10})]
