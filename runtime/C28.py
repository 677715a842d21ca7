# coding=utf-8
"""Lazy imports"""
import os
import shutil
import sys
import tempfile
from .common import *

RULE = 'all combinations of importable, missing and broken modules as library and variants, with all hints, and trees of packages with broken modules'
N = 300

OK, MISSING, BROKEN = ['whatami_oracle_ok%d' % i for i in range(3)], ['whatami_oracle_missing%d' % i for i in range(3)], \
    ['whatami_oracle_broken%d' % i for i in range(2)]
HINTS = [None, 'pip', 'conda', 'see http://example.com', '']


def table():
    mods = [OK[0], OK[1], MISSING[0], MISSING[1], BROKEN[0]]
    for lib in (OK[2], MISSING[2], BROKEN[1]):
        for hint in HINTS:
            yield {'lib': lib, 'hint': hint, 'variants': []}
            for a in mods:
                yield {'lib': lib, 'hint': hint, 'variants': [a]}
    for a in mods:
        for b in mods:
            yield {'lib': 'lib', 'hint': 'pip', 'variants': [a, b]}
            for c in mods[:3]:
                yield {'lib': OK[2], 'hint': None, 'variants': [a, b, c]}
    for rec in (True, False, None):
        for tree in ([], ['a'], ['a', 'b!'], ['p/', 'p/x', 'p/y!', 'p/q/', 'p/q/z', 'a'], ['p/!', 'p/x', 'b'], ['b!', 'p/', 'p/q/!', 'p/q/w', 'z'],
                     ['json/', 'json/mine', 'logging/', 'logging/q/', 'logging/q/w!', 'a'], ['json/', 'json/decoder', 'q/', 'q/json/', 'q/json/mine'],
                     ['p/', 'p/q/', 'p/q/r/', 'p/q/r/x!'], ['email/', 'email/mime/', 'email/charset!']):
            yield {'tree': tree, 'recurse': rec}


def gen(rng):
    if rng.random() < .3:
        tree = []
        for p in ('', 'p/', 'p/q/', 'json/', 'email/'):
            if p and (rng.random() < .5 or (p == 'p/q/' and not any(t.startswith('p/') for t in tree))):
                continue
            if p:
                tree.append(p + ('!' if rng.random() < .2 else ''))
            tree += [p + n + ('!' if rng.random() < .2 else '') for n in rng.sample(['a', 'b', 'decoder', 'charset', 'mine'], rng.randrange(3))]
        return {'tree': tree, 'recurse': rng.choice([True, False, None])}
    return {'lib': rng.choice(OK + MISSING + BROKEN), 'hint': rng.choice(HINTS), 'variants': rng.sample(OK + MISSING + BROKEN, rng.randrange(4))}


class Area(object):
    def __enter__(self):
        self.d = tempfile.mkdtemp()
        sys.path.insert(0, self.d)
        self.before = set(sys.modules)
        self.dwb, sys.dont_write_bytecode = sys.dont_write_bytecode, True
        for n in OK:
            self.write(n + '.py', 'name = %r\nnothing = None\n' % n)
        for n in BROKEN:
            self.write(n + '.py', 'import whatami_oracle_missing9\n')
        return self

    def write(self, n, txt):
        p = os.path.join(self.d, n)
        if not os.path.isdir(os.path.dirname(p)):
            os.makedirs(os.path.dirname(p))
        with open(p, 'w') as f:
            f.write(txt)

    def __exit__(self, *_):
        sys.path.remove(self.d)
        sys.dont_write_bytecode = self.dwb
        for m in set(sys.modules) - self.before:
            if m.startswith('whatami_oracle'):
                del sys.modules[m]
        sys.path_importer_cache.clear()
        shutil.rmtree(self.d)


def check(j):
    import importlib
    with Area() as area:
        importlib.invalidate_caches()
        if 'tree' in j:
            tree(j, area)
        else:
            lazy(j)


def lazy(j):
    from whatami import maybe_import, maybe_import_member
    lib, hint, variants = j['lib'], j['hint'], j['variants']
    tried = variants or [lib]
    first = [v for v in tried if v in OK]
    m = maybe_import(lib, hint, *variants) if hint is not None or variants else maybe_import(lib)
    member = lib + '.name'
    if first:
        ok(m is sys.modules.get(first[0]) and m.name == first[0], 'the module is %r, should be %s', m, first[0])
        if variants:
            ok(maybe_import_member(member, True, hint, *variants) == first[0], 'the member is %r', maybe_import_member(member, True, hint, *variants))
        else:
            ok(maybe_import_member(member) == first[0] == maybe_import_member(member, False), 'the member is %r', maybe_import_member(member))
            ok(maybe_import_member(lib + '.nothing') is None, 'a member that is None')
            e = raises(lambda: maybe_import_member(lib + '.not_there'), AttributeError)
            ok(e is not None, 'a missing member was imported')
        return
    for attr in ('name', 'array', 'real_name', 'ndarray', 'x', '__doc__', '__name__', '__class__', '__dict__', '__version__',
                 '__init__', '__getattribute__', '_x', '__all__', 'errors', '_private_'):
        for again in range(2):
            e = raises(lambda: getattr(m, attr), ImportError)
            ok(e is not None, 'using the missing library does not raise ImportError')
            t = str(e)
            ok(attr in t and lib in t, 'the message %r does not have the library and member', t)
            for v in tried:
                ok('import %s:' % v in t, 'the message %r does not have the variant %s', t, v)
                miss = v if v in MISSING else 'whatami_oracle_missing9'
                ok("%s" % miss in t, 'the message %r does not have the error', t)
            if hint in ('pip', 'conda'):
                ok('"%s install %s"' % (hint, tried[0]) in t, 'the message %r does not have the hint', t)
            elif hint:
                ok('"%s"' % hint in t, 'the message %r does not have the hint', t)
            elif hint is None:
                ok('install' not in t, 'the message %r has a hint', t)
    args = [hint] + variants
    ok(raises(lambda: maybe_import_member(member, True, *args), ImportError) is not None, 'the member of a missing library was imported')
    ok(raises(lambda: maybe_import_member(member, install_msg=hint), ImportError) is not None if not variants else True, 'the member was imported')
    ok(maybe_import_member(member, False, *args) is None, 'the member of a missing library is not None')
    for n in ('name', '', '.name'):
        ok(raises(lambda: maybe_import_member(n), ValueError) is not None and raises(lambda: maybe_import_member(n, False), ValueError) is not None,
           'a name without module was accepted')


def tree(j, area):
    from whatami import import_submodules
    root = 'whatami_oracle_pkg'
    area.write(root + '/__init__.py', '')
    good, pkgs = {root}, {root: True}
    for t in j['tree']:
        bad = t.endswith('!')
        t = t.rstrip('!')
        txt = 'import whatami_oracle_missing9\n' if bad else 'v = %r\n' % t
        if t.endswith('/'):
            area.write(root + '/' + t + '__init__.py', txt)
        else:
            parent = os.path.dirname(root + '/' + t)
            if not os.path.exists(os.path.join(area.d, parent, '__init__.py')):
                area.write(parent + '/__init__.py', '')
            area.write(root + '/' + t + '.py', txt)
    import importlib
    importlib.invalidate_caches()

    def walk(pkg):
        """importable modules under an importable package"""
        out = set()
        d = os.path.join(area.d, *pkg.split('.'))
        for n in sorted(os.listdir(d)):
            if n.startswith('__'):
                continue
            name = pkg + '.' + n.replace('.py', '')
            p = os.path.join(d, n)
            f = os.path.join(p, '__init__.py') if os.path.isdir(p) else p
            if 'missing9' in open(f).read():
                continue
            out.add(name)
            if os.path.isdir(p):
                out |= walk(name)
        return out
    every = walk(root) | {root}
    rec = j['recurse']
    kw = {} if rec is None else {'recurse_packages': rec}
    for package in (root, importlib.import_module(root)):
        got = import_submodules(package, **kw)
        want = every if rec in (True, None) else {m for m in every if m.count('.') <= 1}
        ok(set(got) == want if rec in (True, None) else set(got) == want, 'the modules are %r, should be %r', sorted(got), sorted(want))
        for n, m in got.items():
            ok(m is sys.modules[n] and m.__name__ == n, '%s is %r', n, m)
    missing = 'whatami_oracle_missing_pkg'
    ok(import_submodules(missing) == {}, 'a missing package has modules')
    ok(raises(lambda: import_submodules(missing, ignore_errors=False), ImportError) is not None, 'the import error was ignored')
    bad = [t.rstrip('!') for t in j['tree'] if t.endswith('!')]
    if rec is False:
        bad = [t for t in bad if '/' not in t.rstrip('/')]
    for package in (root, importlib.import_module(root)):
        if bad:
            ok(raises(lambda: import_submodules(package, ignore_errors=False, **kw), ImportError) is not None, 'the import error was ignored')
        else:
            ok(set(import_submodules(package, ignore_errors=False, **kw)) == want, 'the modules differ if errors are not ignored')


def shrink(j):
    if 'variants' in j:
        for i in range(len(j['variants'])):
            yield dict(j, variants=j['variants'][:i] + j['variants'][i + 1:])
