# coding=utf-8
"""C31: optional imports pick the preferred variant and fail only on use."""
import builtins
import importlib
import os
import shutil
import sys
import tempfile

from .. import sizes
from ..core import text

PROPERTY = 'C31'
TECHNIQUE = ('runtime monitoring: generated modules and packages log their own execution, failing in all kinds of ways; the '
             'results of the imports and the log are compared with what the generated file tree defines')
RULE = ('random trees of packages and modules in a scratch folder, with modules missing or failing (import, syntax and any other '
        'errors, missing dependencies), names shared with other libraries, modules that import each other or replace themselves; '
        'non-trivial: with something that cannot be imported')
REQUIRE = {'large sizes': 1, 'maybe_import': 400, 'not importable': 35, 'used': 150, 'later variant': 40, 'first variant': 90, 'deferred': 40,
           'dotted': 80, 'already imported': 50, 'maybe_import_member': 500, 'member not there': 60, 'member none': 60, 'member fails': 60,
           'import_submodules': 150, 'submodule fails': 50, 'recursive': 60, 'not recursive': 30, 'errors not ignored': 30,
           'package fails': 10, 'shared name': 25, 'module object': 25, 'imported later': 40, 'repaired later': 15, 'one of the variants': 30}

OK = 'value = %(name)r\nclass Member(object):\n    pass\nnone = None\ndef function():\n    return value\n'
FAILURES = ["raise ImportError('injected')", 'import this_does_not_exist_anywhere', 'x = (', 'raise ValueError("injected")',
            'raise RuntimeError("injected")', 'raise AttributeError("injected")', '1 / 0', 'undefined_name',
            'class E(Exception):\n    pass\nraise E()', 'raise KeyError("injected")', 'from os import not_there',
            'raise TypeError("injected")', 'raise OSError("injected")', 'x = {}["y"]']
STDLIB = ['json', 'os', 'logging', 'email', 'xml', 'unittest', 'numpy', 'pandas', 'tests', 'utils', 'whatami', 'collections',
          'inspect', 'toolz', 'sklearn', 'misc', 'abc']
MEMBERS = ['value', 'Member', '__version__', '__name__', '__doc__', '__file__', '__dict__', '__class__', 'x', 'curry',
           'library_name', 'variants', 'errors', 'install_msg', '_private', '__path__', 'names']


class Scratch(object):
    """A folder with modules first in the path, that log what is executed."""
    count = 0

    def __enter__(self):
        Scratch.count += 1
        self.tag = 'wm%d_%d' % (os.getpid(), Scratch.count)
        self.path = tempfile.mkdtemp(prefix='whatami-c31-')
        self.log = builtins.whatami_c31_log = []
        self.before = set(sys.modules)
        sys.path.insert(0, self.path)
        self.bytecode = sys.dont_write_bytecode
        sys.dont_write_bytecode = True
        return self

    def __exit__(self, *_):
        sys.dont_write_bytecode = self.bytecode
        sys.path.remove(self.path)
        for name in list(sys.modules):
            if name not in self.before and self.tag in name:
                del sys.modules[name]
        del builtins.whatami_c31_log
        shutil.rmtree(self.path, ignore_errors=True)

    def write(self, fq, body, package=False):
        parts = fq.split('.')
        folder = os.path.join(self.path, *(parts if package else parts[:-1]))
        if not os.path.isdir(folder):
            os.makedirs(folder)
        path = os.path.join(folder, '__init__.py' if package else parts[-1] + '.py')
        with open(path, 'w') as writer:
            if body == 'x = (':   # nothing is executed, it cannot be compiled
                writer.write(body)
            else:
                writer.write('import builtins\nbuiltins.whatami_c31_log.append(__name__)\n' + body % dict(name=fq) + '\n')


def variant(rng, scratch, name, ok=None, tiny=False):
    """Writes a module, or not; tells if it can be imported and what would be executed."""
    if tiny and ok is None and rng.random() < 0.08:     # just a folder
        os.makedirs(os.path.join(scratch.path, *name.split('.')))
        return name, True, []
    ok = rng.random() < 0.5 if ok is None else ok
    body = OK if ok and (not tiny or rng.random() < 0.8) else 'pass' if ok else rng.choice(FAILURES)
    shape = rng.randrange(4)
    if not ok and shape == 0:
        return name, False, []
    if shape == 1:
        scratch.write(name, 'pass', package=True)
        scratch.write(name + '.sub', body)
        return name + '.sub', ok, [name] + ([] if body == 'x = (' else [name + '.sub'])
    scratch.write(name, body, package=shape == 2)
    return name, ok, [] if body == 'x = (' else [name]


def optional(t, rng, i):
    from whatami.misc import maybe_import
    with Scratch() as scratch:
        variants = [variant(rng, scratch, rng.choice(['', '', '_', '__', '__', 'lib']) + '%s_v%d' % (scratch.tag, n) + rng.choice(['', '', '_', '__']), tiny=True)
                    for n in range(rng.randrange(1, 5))]
        single = len(variants) == 1 and rng.random() < 0.7
        names = [name for name, _, _ in variants]
        hint = rng.choice([None, 'pip', 'conda', 'sudo apt-get install it', ''])
        library = names[0] if single else '%s_library' % scratch.tag
        if not single and rng.random() < 0.3:
            library = rng.choice(names)
            t.event('one of the variants')
        elif not single:
            scratch.write(library, OK)
        args = (library, hint) + (() if single else tuple(names))
        if hint is None and single and rng.random() < 0.5:
            args = (library,)
        first = next((n for n, (_, ok, _) in enumerate(variants) if ok), None)
        tried = [x for _, _, executed in variants[:len(variants) if first is None else first + 1] for x in executed]
        if rng.random() < 0.4:   # some can be already imported
            loaded = rng.choice(variants)
            if loaded[1]:
                t.event('already imported')
                importlib.invalidate_caches()
                importlib.import_module(loaded[0])
                tried = [x for x in tried if x not in scratch.log]
                del scratch.log[:]
        got = t.ok('maybe_import', maybe_import, *args)
        t.same(scratch.log, tried, 'the variants are not tried in order until one is importable', variants=variants)
        if any('.' in name for name in names):
            t.event('dotted')
        if first is not None:
            t.event('later variant' if first else 'first variant')
            t.check(got is sys.modules[names[first]], 'not the first importable variant', got=got, variants=variants)
            t.same(got.__name__, names[first], 'not the first importable variant')
            t.check(t.ok('maybe_import', maybe_import, *args) is got, 'another module the second time')
            if first:
                t.seen((i, 'later'))
            return
        t.event('not importable')
        t.seen((i, 'not importable'))
        for name in rng.sample(MEMBERS, 4):
            t.event('used')
            ex = t.raises('use', ImportError, getattr, got, name)
            t.check(library in text(ex), 'the error does not name the library', got=text(ex))
        t.event('deferred')
        # but it can be made available later
        plainly = [name for name in names if '.' not in name and not os.path.isdir(os.path.join(scratch.path, name))]
        if plainly and rng.random() < 0.7:
            name = rng.choice(plainly)
            scratch.write(name, OK)
            importlib.invalidate_caches()
            t.event('repaired later')
            t.same(t.ok('maybe_import', maybe_import, library, hint, *names).value, name, 'the variant that can now be imported is not found')
            t.raises('use', ImportError, getattr, got, 'value')
        scratch.write('%s_late' % scratch.tag, OK)
        importlib.invalidate_caches()
        position = 0 if plainly else rng.randrange(len(names) + 1)
        late = names[:position] + ['%s_late' % scratch.tag] + names[position:]
        module = t.ok('maybe_import', maybe_import, library, hint, *late)
        t.event('imported later')
        t.same(module.value, '%s_late' % scratch.tag, 'the importable variant is not found')
        t.raises('use', ImportError, getattr, got, 'value')


def not_a_module(t, rng, i):
    """Names that no module can have do not fail either until used."""
    from whatami.misc import maybe_import
    name = rng.choice(['', '.', '..x', 'os.', 'not valid', '123', 'os.path.join', 'os..path', 'nothing_like_this.sub', u'ñ.b', '.json'])
    with Scratch() as scratch:
        scratch.write('%s_ok' % scratch.tag, OK)
        got = t.ok('maybe_import', maybe_import, 'lib', rng.choice([None, 'pip', 'conda']), name)
        t.event('deferred')
        t.raises('use', ImportError, getattr, got, 'anything')
        got = t.ok('maybe_import', maybe_import, 'lib', 'pip', name, '%s_ok' % scratch.tag)
        t.check(got is sys.modules['%s_ok' % scratch.tag], 'the importable variant is not given')


def members(t, rng, i):
    from whatami.misc import maybe_import_member
    with Scratch() as scratch:
        variants = [variant(rng, scratch, '%s_v%d' % (scratch.tag, n)) for n in range(rng.randrange(1, 4))]
        names = [name for name, _, _ in variants]
        single = len(variants) == 1
        module = names[0] if single else '%s_library.sub' % scratch.tag
        if not single and rng.random() < 0.5:
            module = rng.choice(names)
            t.event('member of a variant')
        first = next((n for n, (_, ok, _) in enumerate(variants) if ok), None)
        extra = () if single else (rng.choice([None, 'pip', 'it depends']),) + tuple(names)
        there = rng.random() < 0.6
        member = rng.choice(['value', 'Member', 'function', 'none', '__name__']) if there else \
            rng.choice(['nothing', 'member', 'Value', '__version__', ''])
        t.event('maybe_import_member', 2)
        if first is not None and there:
            for fail in rng.sample([True, False], 2):
                got = t.ok('get member', maybe_import_member, '%s.%s' % (module, member), fail, *extra)
                t.check(got is getattr(sys.modules[names[first]], member), 'not the member', got=got, variants=variants)
            t.check(t.ok('get member', maybe_import_member, '%s.%s' % (module, member), *(() if not extra else (True,) + extra))
                    is getattr(sys.modules[names[first]], member), 'not the member')
            return
        t.event('member not there')
        t.seen((i, 'member'))
        excs = ImportError if first is None else (ImportError, AttributeError)
        fqn = '%s.%s' % (module, member)
        for fail in rng.sample([True, False, None], 3):
            if fail is False:
                t.event('member none')
                got = t.ok('get member', maybe_import_member, fqn, False, *extra)
                t.check(got is None, 'something is given for what is not available', got=got)
            else:
                t.event('member fails')
                t.raises('get member', excs, maybe_import_member, fqn, *((() if not extra else (True,) + extra)
                                                                         if fail is None else (True,) + extra))


SPECIAL = ['__about__', '_private', '__main__', '_', 'tests', 'conftest', 'setup', 'test_it', 'x' * 60, 'Upper', '_compat']


def tree(rng, scratch, fq, depth, spec):
    """Writes a package with submodules; spec: {full name: (importable by itself, is package, parent, executed)}."""
    names = set(rng.sample(STDLIB, rng.randrange(0, 3)) + ['m%d' % n for n in range(rng.randrange(0, 4))] +
                rng.sample(SPECIAL, rng.choice([0, 0, 0, 1, 2])))
    for name in sorted(names):
        full = fq + '.' + name
        package = rng.random() < 0.45 and depth > 0
        ok = rng.random() < 0.75
        body = OK if ok else rng.choice(FAILURES)
        if ok and rng.random() < 0.15 and len(spec) > 1:
            other = rng.choice(sorted(o for o, (ok_, _, _) in spec.items() if ok_))
            if all(spec[p][0] for p in parents(other, spec)) and other != full:
                body = 'import %s\n' % other + body
        elif ok and rng.random() < 0.1 and not package:
            body += '\nimport sys\nsys.modules[__name__] = Member()\n'
        scratch.write(full, body, package=package)
        spec[full] = (ok, package, fq)
        if package:
            tree(rng, scratch, full, depth - 1, spec)


def parents(full, spec):
    out = []
    while spec[full][2] is not None:
        full = spec[full][2]
        out.append(full)
    return out


def submodules(t, rng, i):
    from whatami.misc import import_submodules
    with Scratch() as scratch:
        root = scratch.tag
        spec = {root: (True, True, None)}
        scratch.write(root, OK, package=True)
        tree(rng, scratch, root, 2, spec)
        scratch.write(root + '_other', OK)   # must not be imported
        start = root
        if rng.random() < 0.25:
            start = rng.choice([n for n, (_, package, _) in spec.items() if package])
        recurse = rng.random() < 0.65
        ignore = rng.random() < 0.6
        alive = {n: spec[n][0] and all(spec[p][0] for p in parents(n, spec)) for n in spec}
        within = [n for n in spec if n == start or (start in parents(n, spec) and (recurse or spec[n][2] == start))]
        # what is under a package that cannot be imported is not reachable
        expected = sorted(n for n in within if alive[n])
        reached = [n for n in within if n == start or alive[spec[n][2]]]
        failing = [n for n in reached if not alive[n]]
        as_object = alive[start] and rng.random() < 0.4
        what = importlib.import_module(start) if as_object else start
        kwargs = dict(recurse_packages=recurse, ignore_errors=ignore)
        if recurse and rng.random() < 0.5:
            del kwargs['recurse_packages']
        if ignore and rng.random() < 0.5:
            del kwargs['ignore_errors']
        path_before = list(sys.path)
        t.event('recursive' if recurse else 'not recursive')
        t.event('import_submodules')
        if as_object:
            t.event('module object')
        if any(n.rpartition('.')[2] in STDLIB for n in within):
            t.event('shared name')
        if failing:
            t.event('submodule fails')
            t.seen((i, 'submodules'))
            if any(spec[n][1] for n in failing):
                t.event('package fails')
        if not ignore:
            t.event('errors not ignored')
        if not ignore and failing:
            t.raises('submodules', Exception, import_submodules, what, **kwargs)
            return
        before = set(sys.modules)
        got = t.ok('submodules', import_submodules, what, **kwargs)
        t.check(isinstance(got, dict), 'not a dictionary', got=got)
        t.same(sorted(got), expected, 'not the importable submodules', spec=spec, start=start, recurse=recurse)
        for name in expected:
            t.check(got[name] is sys.modules[name], 'another module', name=name, got=got[name])
            value = getattr(got[name], 'value', None)
            if value is not None:
                t.same(value, name, 'another module')
        t.check(root + '_other' not in scratch.log and root + '_other' not in sys.modules, 'unrelated modules are imported')
        new = [n for n in set(sys.modules) - before if n.partition('.')[0] in STDLIB]
        t.check(not new, 'unrelated modules are imported', new=sorted(new))
        t.same(sys.path, path_before, 'the path is changed')
        again = t.ok('submodules', import_submodules, start, **kwargs)
        t.check(sorted(again) == expected and all(again[n] is got[n] for n in expected), 'another result the second time',
                got=sorted(again), expected=expected)
        got.clear()
        if rng.random() < 0.2:
            missing = start + rng.choice(['.not_there', '_not_there'])
            t.same(t.ok('submodules', import_submodules, missing, ignore_errors=True), {}, 'something from nothing')
            t.raises('submodules', Exception, import_submodules, missing, ignore_errors=False)
        t.sample('%s -> %s' % (sorted(spec), expected))


def spread(t, rng, i):
    """Packages can be over several folders."""
    from whatami.misc import import_submodules
    with Scratch() as scratch:
        root, expected = scratch.tag, [scratch.tag]
        folders = ['part_%d' % n for n in range(rng.randrange(2, 5))]
        namespace = rng.random() < 0.5      # the folders are in the path, or in that of the package
        body = OK if namespace else OK + '\n__path__.extend(%r)' % [os.path.join(scratch.path, f, root) for f in folders]
        if not namespace:
            scratch.write(root, body, package=True)
        for n, folder in enumerate(folders):
            os.makedirs(os.path.join(scratch.path, folder, root))
            for m in range(rng.randrange(0, 3)):
                name = '%s.m_%d_%d' % (root, n, m)
                package = rng.random() < 0.4
                writer = os.path.join(scratch.path, folder, *name.split('.'))
                if package:
                    os.makedirs(writer)
                    open(os.path.join(writer, '__init__.py'), 'w').close()
                    with open(os.path.join(writer, 'deep.py'), 'w') as f:
                        f.write('value = 1\n')
                    expected.append(name + '.deep')
                else:
                    with open(writer + '.py', 'w') as f:
                        f.write('value = 1\n')
                expected.append(name)
        paths = [os.path.join(scratch.path, f) for f in folders] if namespace else []
        sys.path[:0] = paths
        try:
            importlib.invalidate_caches()
            t.event('spread')
            got = t.ok('submodules', import_submodules, root if rng.random() < 0.5 else importlib.import_module(root))
            t.same(sorted(got), sorted(expected), 'not the importable submodules', namespace=namespace, folders=folders)
            t.check(all(got[n] is sys.modules[n] for n in got), 'other modules')
        finally:
            for p in paths:
                sys.path.remove(p)
        t.seen((i, 'spread'))


PHASES = [('larger sizes', sizes.imports, {'quick': 2, 'thorough': 24}),
          ('spread', spread, {'quick': 60, 'thorough': 2000}),
          ('optional', optional, {'quick': 500, 'thorough': 60000}),
          ('not a module', not_a_module, {'quick': 60, 'thorough': 500}),
          ('members', members, {'quick': 500, 'thorough': 60000}),
          ('submodules', submodules, {'quick': 350, 'thorough': 40000})]
