# coding=utf-8
"""C26: template matching selects exactly the ids equal up to the ignored keys."""
import re

from .. import gen, ref, sizes
from .c10 import listed, model, rekey

PROPERTY = 'C26'
TECHNIQUE = ('runtime monitoring: the selections observed are compared online with a reference matcher over configuration trees, and '
             'related to each other (more ignored keys, other options, other orders)')
RULE = ('templates of nested configurations and collections, against populations of edited, rekeyed, renamed, reordered and repeated '
        'variants, with random keys to ignore (top level, nested, inside collections, absent) given as several kinds of collections '
        'and all the options; distinct by template and keys; non-trivial: some selected and some not')
REQUIRE = {'large sizes': 1, 'repeated names': 90, 'match': 800, 'selected': 3000, 'not selected': 2000, 'selected and different': 400, 'ignored top level': 300,
           'ignored nested': 200, 'ignored in collection': 60, 'ignored absent': 60, 'more ignored': 250, 'one-shot keys': 60,
           'collections too': 250, 'not recursive': 150, 'repetition': 300, 'other orders': 100, 'nested names': 50}
O = gen.Options(whatables=False, funcs=False, nonids=False, frozensets=True)


class Ambiguous(Exception):
    """Equal for python, but with different ids (1, True and 1.0): not judged."""


def loose(spec):
    kind = spec[0]
    if kind in ('bool', 'int', 'float'):
        return ('number', spec[1])
    if kind in ('list', 'tuple'):
        return (kind, tuple([loose(s) for s in spec[1]]))
    if kind in ('set', 'fset'):
        return ('set', frozenset([loose(s) for s in spec[1]]))
    if kind == 'dict':
        return (kind, frozenset([(loose(k), loose(v)) for k, v in spec[1]]))
    if kind == 'what':
        return (kind, spec[1], spec[2], frozenset([(k, loose(v)) for k, v in spec[3]]))
    return ('id', ref.render(spec))


def same(a, b):
    if ref.norm_spec(a) == ref.norm_spec(b):
        return True
    if loose(a) == loose(b):
        raise Ambiguous()
    return False


def ignored(address, keys):
    return any(parsed_key(listed(address[:n])) in keys for n in range(1, len(address) + 1))


def parsed_key(key):
    """Parsing keeps the escapes of strings, also when they are keys."""
    if isinstance(key, tuple):
        return tuple([parsed_key(k) for k in key])
    return ref.quote(key)[1:-1] if isinstance(key, str) else key


def matches(spec, template, keys, collections, recursive):
    if spec[1] != template[1]:
        return False
    theirs, ours = [], []
    model(spec, (), False, collections, recursive, theirs)
    model(template, (), False, collections, recursive, ours)
    if [a for a, _ in theirs] != [a for a, _ in ours]:
        return False
    if [[type(k) for k in a] for a, _ in theirs] != [[type(k) for k in a] for a, _ in ours]:
        raise Ambiguous()
    for (address, a), (_, b) in zip(theirs, ours):
        if ignored(address, keys):
            continue
        if a[0] != b[0]:
            if not same(a, b):
                return False
        elif a[0] == 'what':
            if a[1:3] != b[1:3]:
                return False
        elif a[0] in ('list', 'tuple', 'dict') and collections and recursive:
            continue             # its members go apart
        elif not same(a, b):
            return False
    return True


def variant(rng, template, everything):
    """Something similar to the template."""
    r = rng.random()
    if r < 0.12:
        return template
    if r < 0.2:
        return gen.what(rng, O, 2)
    if r < 0.27:
        return ('what', rng.choice(['Other', template[1] + '2', template[1].lower(), template[1] + '_', '_' + template[1], template[1].upper(), template[1][:-1] or 'x'])) + template[2:]
    spec = template
    for _ in range(rng.choice([1, 1, 2, 3])):
        r = rng.random()
        if r < 0.75:
            paths = [p for p in gen.paths(spec) if p]
            if not paths:
                return spec
            path = rng.choice(paths)
            old = gen.at(spec, path)
            new = gen.value(rng, O, 1) if rng.random() < .4 else gen.edit(rng, old) if rng.random() < .6 else (
                ('what', old[1], old[2], [(k, gen.atom(rng, O)) for k, _ in old[3]], []) if old[0] == 'what' else gen.atom(rng, O))
            if new is None:
                continue
            changed = gen.replace(spec, path, new)
            if gen.valid(changed):
                spec = changed
        elif r < 0.85 and spec[3]:
            kvs = list(spec[3])
            del kvs[rng.randrange(len(kvs))]
            spec = spec[:3] + (kvs, [])
        elif r < 0.95:
            k = gen.ident(rng)
            spec = spec[:3] + ([kv for kv in spec[3] if kv[0] != k] + [(k, gen.value(rng, O, 1))], [])
        else:
            spec = spec[:2] + (gen.ident(rng),) + spec[3:]
    return spec


def selections(t, rng, i):
    from whatami import match_whatids
    while True:
        template = rekey(rng, gen.what(rng, O, rng.choice([1, 2, 3])))
        if template[3] and gen.valid(template) and len(ref.render(template)) < 1500:
            break
    full = []
    model(template, (), False, True, True, full)
    # parameters named as the nested ones would be in a table
    flat = []
    for address, _ in full:
        name = '_'.join(map(str, address))
        if len(address) > 1 and re.match('^[A-Za-z_][A-Za-z_0-9]*$', name) and not any(k == name for k, _ in template[3]) and rng.random() < 0.3:
            flat.append((address, name))
            template = template[:3] + (template[3] + [(name, gen.atom(rng, O))], [])
            t.event('named as nested')
            break
    full = []
    model(template, (), False, True, True, full)
    population = [template]
    for _ in range(rng.choice([4, 8, 12])):
        population.append(variant(rng, template, full))
    for _, name in flat:
        population.append(template[:3] + ([(k, ('str', 'another one') if k == name else v) for k, v in template[3]], []))
    for _ in range(rng.randrange(3)):
        population.append(rng.choice(population))
        t.event('repetition')
    rng.shuffle(population)

    def text(spec):
        kvs = list(spec[3])
        rng.shuffle(kvs)
        return ('%s=' % spec[2] if spec[2] else '') + '%s(%s)' % (spec[1], ','.join('%s=%s' % (k, ref.render(v)) for k, v in kvs))

    ids = [text(s) for s in population]
    template_id = text(template)
    chosen = None
    for call in range(3):
        options = dict(collections_too=rng.random() < 0.4, recursive=rng.random() < 0.75, non_ids_too=rng.random() < 0.2)
        collections, recursive = options['collections_too'], options['recursive']
        if rng.random() < 0.3:
            options = {k: v for k, v in options.items() if v != {'collections_too': False, 'recursive': True, 'non_ids_too': False}[k]}
        keys = []
        listing = []
        model(template, (), False, collections, recursive, listing)
        for address, _ in (rng.sample(listing, min(len(listing), rng.choice([0, 1, 1, 2, 3]))) if listing else []):
            keys.append(parsed_key(listed(address)))
            t.event('ignored top level' if len(address) == 1 else 'ignored nested')
            if any(not isinstance(k, str) for k in address):
                t.event('ignored in collection')
        for address, _ in flat:
            if rng.random() < 0.6:
                keys.append(parsed_key(listed(address)))
        if rng.random() < 0.2:
            t.event('ignored absent')
            keys.append(rng.choice(['not_there', ('x', 'not_there'), ('not', 'there', 0)]))
        if chosen is not None and rng.random() < 0.5:
            # ignoring more never selects less
            t.event('more ignored')
            prev_keys, prev_options, prev_selected = chosen
            keys, options = prev_keys + keys, prev_options
            collections, recursive = options.get('collections_too', False), options.get('recursive', True)
        else:
            prev_selected = None
        if collections:
            t.event('collections too')
        if not recursive:
            t.event('not recursive')
        how = rng.randrange(5)
        given = [list, tuple, set, frozenset, iter][how](keys)
        if how == 4 and len(keys) > 1:
            t.event('one-shot keys')
        given_ids = [list, tuple, iter][rng.randrange(3)](ids)
        if keys or how != 0:
            got = t.ok('match', lambda: match_whatids(given_ids, template_id, ignored_keys=given, **options))
        else:
            got = t.ok('match', lambda: match_whatids(given_ids, template_id, **options))
        got = list(got)
        keyset = set(keys)
        verdicts = []
        for spec in population:
            try:
                verdicts.append(matches(spec, template, keyset, collections, recursive))
            except Ambiguous:
                verdicts.append(None)
        # selected, in order and keeping repetitions
        detail = dict(template=template_id, keys=keys, options=options, ids=ids, selected=got)
        if any(v is None for v in verdicts):
            sure = [x for x, v in zip(ids, verdicts) if v]
            doubtful = {x for x, v in zip(ids, verdicts) if v is None}
            t.same([x for x in got if x not in doubtful], [x for x in sure if x not in doubtful], 'wrong ids are selected', **detail)
        else:
            t.same(got, [x for x, v in zip(ids, verdicts) if v], 'wrong ids are selected', **detail)
        t.event('selected', len(got))
        t.event('not selected', len(ids) - len(got))
        t.event('selected and different', sum(1 for s, v in zip(population, verdicts) if v and ref.norm_spec(s) != ref.norm_spec(template)))
        if prev_selected is not None:
            left = list(got)
            for x in prev_selected:
                t.check(x in left, 'ignoring more keys selects less ids', missing=x, before=chosen, **detail)
                left.remove(x)
        t.same(t.ok('match', lambda: match_whatids([template_id], template_id, ignored_keys=list(keys), **options)), [template_id],
               'the template does not match itself', **detail)
        if 0 < len(got) < len(ids):
            t.seen((template_id, repr(keys), repr(sorted(options.items()))))
        chosen = (keys, options, got)
        t.sample('%s ignoring %r: %d of %d' % (template_id[:200], keys, len(got), len(ids)), 4)


def written(rng, items):
    """A dictionary with its items in any order."""
    items = list(items)
    rng.shuffle(items)
    return '{%s}' % ','.join('%s:%s' % kv for kv in items)


def key_text(rng, depth=0):
    r = rng.random()
    if r < 0.6 or depth > 1:
        return 'frozenset({%s})' % ','.join(sorted(rng.sample(["'a'", "'b'", '1', '2', '3'], rng.randrange(1, 3))))
    if r < 0.8:
        return '(%s,%d)' % (key_text(rng, depth + 1), rng.randrange(3))
    return rng.choice(["'x'", 'None', '7'])


def other_orders(t, rng, i):
    """The order in which the items of dictionaries are written does not count, whatever the keys."""
    from whatami import match_whatids
    keys = sorted({key_text(rng) for _ in range(rng.randrange(2, 6))})
    items = [(k, "'v%d'" % n) for n, k in enumerate(keys)]
    nest = rng.choice(['f(x=%s,y=1)', 'f(x=[0,%s],y=1)', "f(x={'k':%s},y=1)", 'f(x=g(z=%s),y=1)'])
    template = nest % written(rng, items)
    equal = [nest % written(rng, items) for _ in range(4)]
    n = rng.randrange(len(items))
    changed = items[:n] + [(items[n][0], "'another'")] + items[n + 1:]
    different = nest % written(rng, changed)
    ids = equal + [different] + equal[:2]
    for options in ({}, {'collections_too': True}, {'collections_too': True, 'recursive': False}):
        if 'recursive' in options and 'g(z=' in nest:
            continue    # the members of nested configurations are not compared
        t.event('other orders')
        got = t.ok('match', lambda: list(match_whatids(ids, template, **options)))
        t.same(got, equal + equal[:2], 'wrong ids are selected', template=template, ids=ids, options=options)
    t.seen(template)


def nested_names(t, rng, i):
    """Nested configurations count with their name, output name and parameters, however few these are."""
    from whatami import match_whatids
    nest = rng.choice(['f(x=%s,y=1)', 'f(x=%s)', 'f(x=g(z=%s),y=1)'])
    inner = ['a()', 'b()', 'o=a()', 'p=a()', 'o=b()', 'a(x=1)', 'o=a(x=1)', 'p=a(x=1)', 'a(x=2)', 'a(x=a())', 'a(x=o=a())', "'a()'", 'a=a()', 'a=a(x=1)', 'a=b()', 'x=a()', 'x=a(x=1)']
    for options in ({}, {'collections_too': True}, {'non_ids_too': True}):
        template = rng.choice(inner)
        population = [rng.choice(inner) for _ in range(15)] + [template]
        t.event('nested names')
        got = t.ok('match', lambda: list(match_whatids([nest % x for x in population], nest % template, **options)))
        t.same(got, [nest % x for x in population if x == template], 'wrong ids are selected', template=nest % template, options=options)
        t.seen((nest, template, tuple(population)))


def repeated_names(t, rng, i):
    """A key to ignore is that of its level, not others with the same name elsewhere."""
    from whatami import match_whatids
    names = rng.sample(['x', 'y', 'n_jobs', 'a_b'], 2)

    def tree(depth):
        if depth == 0:
            return rng.randrange(2)
        return {k: tree(depth - 1 if rng.random() < 0.8 else 0) for k in rng.sample(names, rng.choice([1, 2, 2]))}

    def text(tree, how):
        if not isinstance(tree, dict):
            return str(tree)
        kvs = rng.sample(sorted(tree.items()), len(tree))
        return '%s(%s)' % (how, ','.join(['%s=%s' % (k, text(v, 'g')) for k, v in kvs]))

    def leaves(tree, at=()):
        if not isinstance(tree, dict):
            return [(at, tree)]
        return [x for k, v in sorted(tree.items()) for x in leaves(v, at + (k,))]

    def flipped(tree, which, at=()):
        if not isinstance(tree, dict):
            return 1 - tree if at in which else tree
        return {k: flipped(v, which, at + (k,)) for k, v in tree.items()}
    template = {k: tree(rng.choice([1, 2, 3, 4])) for k in names}
    places = [at for at, _ in leaves(template)]
    inner = sorted({at[:n] for at in places for n in range(1, len(at) + 1)})
    keys = rng.sample(inner, rng.choice([1, 1, 2])) if len(inner) > 1 else inner
    given = [k[0] if len(k) == 1 else k for k in keys]
    population, expected = [], []
    for _ in range(8):
        which = rng.sample(places, rng.choice([0, 1, 1, 2]) if len(places) > 1 else 1)
        other = text(flipped(template, which), 'f')
        population.append(other)
        if all(any(at[:len(k)] == k for k in keys) for at in which):
            expected.append(other)
    t.event('repeated names')
    got = t.ok('match', lambda: list(match_whatids(population, text(template, 'f'), ignored_keys=given)))
    t.same(got, expected, 'wrong ids are selected', template=template, keys=given, ids=population)
    t.seen((repr(template), repr(given)))


PHASES = [('larger sizes', sizes.matches, {'quick': 2, 'thorough': 24}),
          ('repeated names', repeated_names, {'quick': 150, 'thorough': 5000}),
          ('nested names', nested_names, {'quick': 40, 'thorough': 600}),
          ('other orders', other_orders, {'quick': 60, 'thorough': 1500}), ('selections', selections, {'quick': 500, 'thorough': 20000})]
