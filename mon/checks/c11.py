# coding=utf-8
"""C11: copies and derived configurations never alter the original."""
import copy

from .. import gen, ref, sizes

PROPERTY = 'C11'
TECHNIQUE = ('runtime monitoring: random histories of copies, sets, variations and mutations over families of '
             'configurations, all of them checked after each step against a model with explicit sharing')
RULE = ('histories of copy, deep copy, set in place, set on a copy, variation generation and mutation (parameters, non-id '
        'keys, names, output names and everything reachable inside) over families of up to 8 related configurations; '
        'after each step every member is compared with its model; distinct by final ids; non-trivial: a related '
        'configuration was changed')
gen.SUBCLASSES = False
REQUIRE = {'large sizes': 1, 'copy': 200, 'deepcopy': 200, 'set': 150, 'set copy': 150, 'set the same': 30, 'set the same on a copy': 30, 'whatadd': 100, 'whatadd existing': 30, 'whatadd failing': 12,
           'inner mutation': 150, 'mutation': 300, 'checked': 4000, 'aliased': 35, 'empty output name': 10}
O = gen.Options(nonids=True, outs=True)
OV = gen.Options(nonids=True, outs=True, maxkeys=3)


class Member(object):
    """A configuration and its model; value specs are shared between models as values between configurations."""

    def __init__(self, real, name, out, kvs, nonids):
        self.real, self.name, self.out, self.kvs, self.nonids = real, name, out, kvs, nonids

    def spec(self):
        return 'what', self.name, self.out, self.kvs, self.nonids

    def clone(self, real, deep=False):
        kvs = copy.deepcopy(self.kvs) if deep else list(self.kvs)
        return Member(real, self.name, self.out, kvs, list(self.nonids))

    def put(self, k, s):
        for i, (n, _) in enumerate(self.kvs):
            if n == k:
                self.kvs[i] = (k, s)
                return
        self.kvs.append((k, s))


def verify(t, m, where):
    t.event('checked')
    spec = m.spec()
    t.same(t.ok('id', m.real.id), ref.render(spec), 'wrong id after %s' % where)
    t.same(t.ok('str', str, m.real), ref.render(spec, True), 'wrong parameters after %s' % where)
    t.same(set(m.real.non_id_keys), set(m.nonids), 'wrong non-id keys after %s' % where)
    t.same((m.real.name, m.real.out_name), (m.name, m.out), 'wrong names after %s' % where)
    t.same(set(m.real.conf), set(k for k, _ in m.kvs), 'wrong parameters after %s' % where)


def mutables(real, spec, out):
    """(real object, spec) of everything that can be mutated inside."""
    kind = spec[0]
    if kind in ('list', 'tuple'):
        if kind == 'list':
            out.append((real, spec))
        for r, s in zip(real, spec[1]):
            mutables(r, s, out)
    elif kind == 'dict':
        out.append((real, spec))
        for k, (_, v) in zip(list(real), spec[1]):
            mutables(real[k], v, out)
    elif kind == 'set':
        out.append((real, spec))
    elif kind == 'what':
        out.append((real, spec))
        for k, v in spec[3]:
            mutables(real.conf[k], v, out)
    elif kind == 'whatable':
        if spec[3]:
            out.append((real, spec))
        for k, v in spec[3]:
            mutables(getattr(real, k), v, out)
    return out


def mutate(rng, real, spec):
    kind = spec[0]
    s = gen.value(rng, OV, 1)
    if kind == 'list':
        op = rng.randrange(3)
        if op == 0 and real:
            i = rng.randrange(len(real))
            real[i] = gen.build(s)
            spec[1][i] = s
        elif op == 1 and real:
            del real[0], spec[1][0]
        else:
            real.append(gen.build(s))
            spec[1].append(s)
    elif kind == 'dict':
        if spec[1] and rng.random() < 0.6:
            i = rng.randrange(len(spec[1]))
            key = list(real)[i]
            if rng.random() < 0.6:
                real[key] = gen.build(s)
                spec[1][i] = (spec[1][i][0], s)
            else:
                del real[key], spec[1][i]
        else:
            k = ('str', 'brand new %d' % rng.randrange(10 ** 9))
            real[gen.build(k)] = gen.build(s)
            spec[1].append((k, s))
    elif kind == 'set':
        n = rng.randrange(10 ** 6, 10 ** 9)
        if n not in real:
            real.add(n)
            spec[1].append(('int', n))
    elif kind == 'what':
        k = rng.choice([k for k, _ in spec[3]] + ['other_new%d' % rng.randrange(5)])
        if rng.random() < 0.3:
            real.non_id_keys.add(k)
            if k not in spec[4]:
                spec[4].append(k)
            return
        real.set(k, gen.build(s))
        for i, (n, _) in enumerate(spec[3]):
            if n == k:
                spec[3][i] = (k, s)
                return
        spec[3].append((k, s))
    elif kind == 'whatable':
        i = rng.randrange(len(spec[3]))
        k = spec[3][i][0]
        setattr(real, k, gen.build(s))
        spec[3][i] = (k, s)


def comparable(spec):
    """Is a copy of the value equal to the value, as python equality goes?"""
    return not gen.kinds(spec) & {'whatable', 'func', 'partial'}


def histories(t, rng, i):
    import whatami as wm
    spec = gen.what(rng, O, 3)
    # all the lists in the models belong to one configuration only
    spec = copy.deepcopy(spec)
    if rng.random() < 0.1:
        spec = spec[:2] + ('',) + spec[3:]
        t.event('empty output name')
    first = Member(gen.build(spec), spec[1], spec[2], spec[3], spec[4])
    members = [first]
    first.real.non_id_keys = set(first.real.non_id_keys)
    changed = False
    for _ in range(rng.randrange(6, 16)):
        m = rng.choice(members)
        op = rng.randrange(11)
        where = ''
        if op in (0, 1) and len(members) < 8:
            deep = op == 1
            where = 'deep copying' if deep else 'copying'
            real = t.ok('deepcopy' if deep else 'copy', lambda: m.real.copy(deep=True) if deep else m.real.copy())
            t.check(real is not m.real, 'a copy should be another configuration')
            if not deep or comparable(m.spec()):
                t.check(real == m.real and m.real == real and not (real != m.real), 'a copy should be equal', spec=m.spec())
            members.append(m.clone(real, deep))
        elif op == 2:
            k, s = rng.choice([k for k, _ in m.kvs] + ['new_%d' % rng.randrange(4)]), gen.value(rng, OV, 2)
            where = 'setting %s' % k
            v = gen.build(s)
            if k in dict(m.kvs) and rng.random() < 0.4:   # what it had
                v, s = m.real.conf[k], dict(m.kvs)[k]
                t.event('set the same')
            got = t.ok('set', m.real.set, k, v)
            t.check(got is m.real, 'setting in place should give the configuration')
            m.put(k, s)
        elif op == 3 and len(members) < 8:
            k, s = rng.choice([k for k, _ in m.kvs] + ['new_%d' % rng.randrange(4)]), gen.value(rng, OV, 2)
            where = 'setting %s on a copy' % k
            if rng.random() < 0.3:    # with its own non-id parameters, perhaps the same ones
                own = sorted(set(list(m.real.non_id_keys)[:2] + ['own']))
                s = ('what', 'g', None, [(x, ('int', n)) for n, x in enumerate(own)], rng.choice([own, own[:1], []]))
                t.event('set a configuration')
            v = gen.build(s)
            if k in dict(m.kvs) and rng.random() < 0.4:
                v, s = m.real.conf[k], dict(m.kvs)[k]
                t.event('set the same on a copy')
            declared = set(v.non_id_keys) if isinstance(v, wm.What) else None
            real = t.ok('set copy', m.real.set, k, v, copy=True)
            t.check(declared is None or set(v.non_id_keys) == declared, 'what is set in a configuration changes', declared=declared, got=v)
            t.check(real is not m.real, 'setting on a copy should give another configuration')
            other = m.clone(real)
            other.put(k, s)
            members.append(other)
        elif op == 4:
            k, ss = 'variation', [gen.value(rng, OV, 2) for _ in range(rng.randrange(0, 5))]
            where = 'generating variations'
            if rng.random() < 0.3 and m.kvs:
                k = rng.choice(m.kvs)[0]
            values = [gen.build(s) for s in ss]
            if k in dict(m.kvs):
                t.event('whatadd existing')
                t.raises('whatadd', ValueError, wm.whatadd, m.real, k, values)
            elif rng.random() < 0.25:   # one of the values cannot be part of an id
                values.insert(rng.randrange(len(values) + 1), rng.choice([len, sorted, property(len), [1, len]]))
                t.check(t.call('whatadd failing', wm.whatadd, m.real, k, values).failed,
                        'a value that cannot be part of an id should make the generation of variations fail')
            else:
                expected = []
                for s in ss:
                    other = m.clone(None)
                    other.put(k, s)
                    expected.append(ref.render(other.spec()))
                t.same(list(t.ok('whatadd', wm.whatadd, m.real, k, values)), expected, 'wrong variations', key=k)
        elif op == 5:
            t.event('mutation')
            where = 'changing the non-id keys'
            k = rng.choice([k for k, _ in m.kvs] + ['nothing'])
            if k in m.nonids:
                m.real.non_id_keys.discard(k)
                m.nonids[:] = [n for n in m.nonids if n != k]
            else:
                m.real.non_id_keys.add(k)
                m.nonids.append(k)
            changed = changed or len(members) > 1
        elif op == 6:
            t.event('mutation')
            where = 'changing the names'
            if rng.random() < 0.5:
                m.out = m.real.out_name = rng.choice([None, 'out1', 'res', '', '0'])
            else:
                m.name = m.real.name = gen.name(rng) if rng.random() < 0.8 else rng.choice(['', 'a b', u'\xe9', '='])
            changed = changed or len(members) > 1
        elif op == 7:
            t.event('mutation')
            where = 'changing the parameters'
            if m.kvs and rng.random() < 0.5:
                j = rng.randrange(len(m.kvs))
                del m.real.conf[m.kvs[j][0]], m.kvs[j]
            else:
                s = gen.value(rng, OV, 1)
                m.real.conf['direct'] = gen.build(s)
                m.put('direct', s)
            changed = changed or len(members) > 1
        elif op in (8, 9):
            inner = [x for k, v in m.kvs for x in mutables(m.real.conf[k], v, [])]
            if inner:
                t.event('inner mutation')
                real, s = rng.choice(inner)
                where = 'changing a %s inside' % s[0]
                mutate(rng, real, s)
                changed = changed or len(members) > 1
        else:
            where = 'asking'
            t.call('flatten', m.real.flatten, collections_too=True, non_ids_too=True)
            t.call('to_dict', m.real.to_dict)
            t.ok('repr', repr, m.real)
        for x in members:
            verify(t, x, where)
    if changed:
        t.seen(tuple([ref.render(m.spec(), True) for m in members]))
        t.sample(' | '.join([ref.render(m.spec(), True)[:120] for m in members[:4]]))


def aliased(t, rng, i):
    """The very same object at several places is one object too in the copies, shared with the original only if they are not deep."""
    from whatami import What
    make = rng.choice([lambda: [1], lambda: {'k': 1}, lambda: What('g', {'k': 1})])
    x = make()

    def change(v):
        if isinstance(v, list):
            v.append(5)
        elif isinstance(v, dict):
            v['new'] = 5
        else:
            v.conf['new'] = 5
    places = [lambda v: v, lambda v: [v], lambda v: (v, 0), lambda v: {'z': v}, lambda v: What('h', {'z': v}), lambda v: [v, v],
              lambda v: ({'z': [v]},)]
    read = [lambda p: p, lambda p: p[0], lambda p: p[0], lambda p: p['z'], lambda p: p['z'], lambda p: p[1], lambda p: p[0]['z'][0]]
    chosen = [rng.randrange(len(places)) for _ in range(rng.randrange(2, 5))]
    w = What('f', {'k%d' % n: places[c](x) for n, c in enumerate(chosen)})
    shown = w.id()
    one, two = t.ok('deepcopy', w.copy, deep=True), t.ok('copy', w.copy)
    shallow = t.ok('set copy', w.set, 'brand_new', 0, copy=True)
    t.event('aliased')

    def inner(what):
        return [read[c](what['k%d' % n]) for n, c in enumerate(chosen)]
    t.check(all(v is inner(one)[0] for v in inner(one)) and inner(one)[0] is not x, 'a deep copy does not keep what is the same', chosen=chosen)
    t.check(all(v is x for v in inner(two) + inner(shallow) + inner(w)), 'a copy which is not deep has other values', chosen=chosen)
    change(inner(one)[rng.randrange(len(chosen))])
    t.same((w.id(), two.id()), (shown, shown), 'changing a deep copy changes the original')
    changed = one.id()
    t.check(changed.count('5') == len(inner(one)) + sum(c == 5 for c in chosen), 'a deep copy does not keep what is the same', got=changed)
    change(x)
    t.same((w.id(), two.id(), one.id()), (changed, changed, changed), 'wrong sharing after changing the original')
    t.seen(('aliased', chosen, shown))


PHASES = [('larger sizes', sizes.equals, {'quick': 2, 'thorough': 24}),
          ('histories', histories, {'quick': 260, 'thorough': 12000}),
          ('aliased', aliased, {'quick': 60, 'thorough': 2000})]
