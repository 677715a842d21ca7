# coding=utf-8
"""Encoding of cases as json, and random values"""
from __future__ import print_function
import json
from contextlib import contextmanager


class Anything(object):
    """An object with a default representation"""


def dec(j, env=None):
    """json -> python value"""
    if isinstance(j, list):
        t, rest = j[0], j[1:]
        if t == 'l':
            return [dec(x, env) for x in rest]
        if t == 't':
            return tuple(dec(x, env) for x in rest)
        if t == 's':
            return {dec(x, env) for x in rest}
        if t == 'fs':
            return frozenset(dec(x, env) for x in rest)
        if t == 'd':
            return dict([(dec(k, env), dec(v, env)) for k, v in rest])
        if t == 'od':
            from collections import OrderedDict
            return OrderedDict([(dec(k, env), dec(v, env)) for k, v in rest])
        if t == 'f':
            return float(rest[0])
        if t == 'cls':
            import builtins
            return getattr(builtins, rest[0])
        if t == 'what':
            from whatami import What
            name, conf, nonids, out = rest
            return What(name, {k: dec(v, env) for k, v in conf}, non_id_keys=nonids, out_name=out)
        if t == 'obj':
            return Anything()
        if t == 'ref':
            return env[rest[0]]
        if t == 'fn':           # source of a function or lambda
            ns = {}
            if rest[0].startswith('lambda'):
                return eval(rest[0], ns)
            exec(rest[0], ns)
            return [v for k, v in ns.items() if callable(v) and k in rest[0]][-1]
        if t == 'partial':      # function, positional, keywords
            from functools import partial
            return partial(dec(rest[0], env), *[dec(x, env) for x in rest[1]], **{k: dec(v, env) for k, v in rest[2]})
        if t == 'curry':
            from toolz import curry
            return curry(dec(rest[0], env), *[dec(x, env) for x in rest[1]], **{k: dec(v, env) for k, v in rest[2]})
        if t == 'sub':          # instance of a subclass: class name, value of the base class
            v = dec(rest[1], env)
            return type(str(rest[0]), (type(v),), {})(v)
        if t == 'nt':           # namedtuple
            from collections import namedtuple
            return namedtuple(rest[0], ['f%d' % i for i in range(len(rest[1]))])(*[dec(x, env) for x in rest[1]])
        if t == 'whatable':     # instance of a whatable class, with these attributes
            from whatami import whatable
            o = whatable(type(str(rest[0]), (object,), {}))()
            for k, v in rest[1]:
                setattr(o, k, dec(v, env))
            return o
        if t == 'whatter':      # object with a what method
            w = dec(rest[0], env)
            return type('Whatter', (object,), {'what': lambda self: w})()
        if t == 'plain':        # instance of a class without anything
            return type(str(rest[0]), (object,), {})()
        if t == 'strer':        # object with its own text
            txt = rest[0]
            return type('Strer', (object,), {'__str__': lambda self: txt})()
        if t == 'c':
            return complex(*rest)
        if t == 'builtin':
            import builtins
            return getattr(builtins, rest[0])
        if t == 'array':
            import numpy as np
            return np.array(rest[0], dtype=rest[1])
        raise ValueError(j)
    return j


def canon(v):
    """structure of a value with its types at every level; order only where it matters; What objects by name, out name and parameters"""
    from whatami import What
    if isinstance(v, What):
        return ('What', type(v).__name__, v.name, v.out_name, canon(v.conf))
    t = type(v).__name__
    if isinstance(v, dict):
        items = [(canon(k), canon(x)) for k, x in v.items()]
        return (t, items if t == 'OrderedDict' else sorted(items, key=repr))
    if isinstance(v, (list, tuple)):
        return (t, [canon(x) for x in v])
    if isinstance(v, (set, frozenset)):
        return (t, sorted([canon(x) for x in v], key=repr))
    return (t, repr(v))


def strict_eq(a, b):
    """equality that also compares types, at every level"""
    return canon(a) == canon(b)


CHARS = list("abcXYZ019_ -.:=,()[]{}#@/<>\"'$%\t\n") + [u'é', u'ß', u'中']


def rand_str(rng, quotes=True, n=8):
    s = ''.join(rng.choice(CHARS) for _ in range(rng.choice([0, 1, 1, 2, 3, 4, n])))
    return s if quotes else s.replace("'", '')


IDS = ['a', 'b', 'c', 'x', 'y', 'A', 'Z', 'lag', 'n_jobs', '_h', 'x1', 'x10', 'x2', 'nan', 'inf', 'None1', 'True_', 'set1', 'e5',
       'seq', 'name', 'conf', 'infinite', 'settings', 'frozen', 'N', 'T0']


def rand_id(rng):
    if rng.random() < 0.6:
        return rng.choice(IDS)
    return rng.choice('_abzAZ') + ''.join(rng.choice('abzAZ_09') for _ in range(rng.randrange(5)))


def rand_num(rng):
    k = rng.randrange(6)
    if k == 0:
        return rng.choice([0, 1, -1, 2, 10, -10, 2 ** 32, 2 ** 70, -2 ** 65])
    if k == 1:
        return rng.randrange(-20, 20)
    if k == 2:
        return rng.choice([0.5, -0.5, 1.0, -1.0, 1e-7, 1e22, -3.25e-9, 1e100, 123456.789, 0.1, 1e16])
    if k == 3:
        return ['f', rng.choice(['inf', '-inf', 'nan', '-0.0'])]
    if k == 4:
        return rng.random() * 10 ** rng.randrange(-10, 10)
    return rng.randrange(1000)


def rand_value(rng, depth=2, whats=True, classes=True, hashable=False, quotes=True, nan=True):
    """random value that is in the domain of ids: numbers, booleans, None, strings, collections, builtin classes, whats"""
    def number():
        while True:
            n = rand_num(rng)
            if nan or n != ['f', 'nan']:
                return n

    def sub(h=False):
        return rand_value(rng, depth - 1, whats, classes, h or hashable, quotes, nan)
    k = rng.randrange(14 if depth > 0 else 7)
    if k in (0, 1):
        return number()
    if k == 2:
        return rng.choice([True, False])
    if k == 3:
        return None
    if k in (4, 5):
        return rand_str(rng, quotes)
    if k == 6:
        return ['cls', rng.choice(['str', 'list', 'dict', 'object', 'bool', 'bytes', 'ValueError'])] if classes else number()
    n = rng.choice([0, 1, 1, 2, 3])
    if k == 7:
        return ['t'] + [sub() for _ in range(n)]
    if k == 8:
        return (['l'] if not hashable else ['t']) + [sub() for _ in range(n)]
    if k in (9, 10):
        if hashable:
            return ['fs'] + [sub(True) for _ in range(n)]
        return ['d'] + [[sub(True) if rng.random() < .4 else rand_str(rng, quotes), sub()] for _ in range(n)]
    if k == 11:
        return (['fs'] if hashable else [rng.choice(['s', 'fs'])]) + [sub(True) for _ in range(n)]
    if hashable or not whats:
        return rand_str(rng, quotes)
    return rand_what(rng, depth - 1, classes=classes, quotes=quotes, nan=nan)


def rand_what(rng, depth=2, nonids=False, classes=True, quotes=True, nan=True, maxkeys=3, whats=True):
    n = rng.randrange(maxkeys + 1)
    conf, seen = [], set()
    for _ in range(n):
        k = rand_id(rng)
        if k in seen:
            continue
        seen.add(k)
        conf.append([k, rand_value(rng, depth, classes=classes, quotes=quotes, nan=nan, whats=whats)])
    ni = None
    if nonids and rng.random() < .7:
        ni = [k for k, _ in conf if rng.random() < .4] + ([rand_id(rng)] if rng.random() < .3 else [])
    name = rand_id(rng)
    while name in ('set', 'frozenset'):
        name = rand_id(rng)
    return ['what', name, conf, ni, rng.choice([None, None, rand_id(rng)])]


def raises(f, *excs):
    """the exception raised by f (of one of these types), or None"""
    try:
        f()
    except excs or (Exception,) as e:
        return e
    return None


@contextmanager
def expect(*excs):
    try:
        yield
    except excs:
        return
    raise AssertionError('%s not raised' % '/'.join(e.__name__ for e in excs))


def no(cond, msg):
    if cond:
        raise AssertionError(msg)


def ok(cond, msg, *args):
    if not cond:
        raise AssertionError(msg % args if args else msg)


def snapshot(v, seen=None):
    """structure of a value with types, order and identities of the mutable containers"""
    from whatami import What
    if isinstance(v, What):
        return ('What', id(v), v.name, snapshot(v.conf), id(v.conf), sorted(map(repr, v.non_id_keys)), id(v.non_id_keys), v.out_name)
    if isinstance(v, dict):
        return (type(v).__name__, id(v), [(snapshot(k), snapshot(x)) for k, x in v.items()])
    if isinstance(v, (list, tuple, set, frozenset)):
        return (type(v).__name__, id(v), [snapshot(x) for x in v])
    if hasattr(v, 'tobytes'):
        return (type(v).__name__, id(v), v.tobytes(), str(v.dtype), v.shape)
    if hasattr(v, '__dict__') and not isinstance(v, type) and not callable(v):
        return (type(v).__name__, id(v), [(k, snapshot(x)) for k, x in vars(v).items()])
    return (type(v).__name__, repr(v))


def permute(j, rng):
    """the same value, with other insertion orders"""
    if not isinstance(j, list):
        return j
    t = j[0]
    if t in ('s', 'fs', 'd'):
        rest = [permute(x, rng) if t != 'd' else [permute(x[0], rng), permute(x[1], rng)] for x in j[1:]]
        if t == 'd':        # the last value of a repeated key wins
            d = {}
            for k, v in rest:
                d[json.dumps(k)] = [k, v]
            rest = list(d.values())
            try:
                if len({dec(k): 1 for k, _ in rest}) < len(rest):
                    return [t] + rest
            except TypeError:
                return [t] + rest
        else:
            if len({dec(x) for x in rest}) < len(rest):
                return [t] + rest
        rng.shuffle(rest)
        return [t] + rest
    if t == 'what':
        conf = [[k, permute(v, rng)] for k, v in j[2]]
        rng.shuffle(conf)
        ni = j[3]
        if ni is not None:
            ni = list(ni)
            rng.shuffle(ni)
        return [t, j[1], conf, ni, j[4]]
    if t in ('l', 't'):
        return [t] + [permute(x, rng) for x in j[1:]]
    if t == 'od':
        return [t] + [[permute(k, rng), permute(v, rng)] for k, v in j[1:]]
    if t == 'whatable':
        kvs = [[k, permute(v, rng)] for k, v in j[2]]
        rng.shuffle(kvs)
        return [t, j[1], kvs]
    if t in ('whatter',):
        return [t, permute(j[1], rng)]
    if t == 'sub':
        return [t, j[1], permute(j[2], rng)]
    if t in ('partial', 'curry'):
        kvs = [[k, permute(v, rng)] for k, v in j[3]]
        rng.shuffle(kvs)
        return [t, permute(j[1], rng), [permute(x, rng) for x in j[2]], kvs]
    return j


FUNCTIONS = ['def f(x, y=3): return x', 'def g(a=1, b="x"): pass', 'def no_defaults(x, y): pass', 'def h(z=(1, 2), A=None): pass',
             'lambda x=5, q=None: x', 'lambda: 0', 'def v(x, y=2, *args, **kwargs): pass']


def rich_value(rng, depth=2):
    """rand_value plus functions, partials, whatables, subclasses of collections..."""
    if rng.random() < .75:
        k = rng.randrange(6)
        if depth > 0 and k == 0:
            return ['l'] + [rich_value(rng, depth - 1) for _ in range(rng.randrange(4))]
        if depth > 0 and k == 1:
            return ['t'] + [rich_value(rng, depth - 1) for _ in range(rng.randrange(3))]
        if depth > 0 and k == 2:
            return ['d'] + [[rand_str(rng), rich_value(rng, depth - 1)] for _ in range(rng.randrange(4))]
        if depth > 0 and k == 3:
            return rich_what(rng, depth - 1)
        return rand_value(rng, depth)
    k = rng.randrange(14)
    if k == 0:
        return ['fn', rng.choice(FUNCTIONS)]
    if k == 1:
        return ['partial', ['fn', FUNCTIONS[0]], [], [[c, rand_value(rng, 1)] for c in rng.sample(['x', 'y'], rng.randrange(3))]]
    if k == 2:
        return ['partial', ['fn', FUNCTIONS[2]], [rand_value(rng, 1) for _ in range(rng.randrange(3))], []]
    if k == 3:
        return ['curry', ['fn', FUNCTIONS[2]], [], [['y', rand_value(rng, 1)]]]
    if k == 4:
        return ['whatable', rand_id(rng), [[n, rich_value(rng, depth - 1)] for n in sorted({rand_id(rng) for _ in range(2)})
                                           if n != 'what']]
    if k == 5:
        return ['whatter', rand_what(rng, 1)]
    if k == 6:
        return ['plain', 'Plain']
    if k == 7:
        return ['cls', rng.choice(['int', 'float', 'complex'])]
    if k == 8:
        n = rng.randrange(4)
        base = rng.choice(['l', 't', 's', 'fs', 'd', 'od'])
        if base in ('s', 'fs'):
            v = [base] + [rand_value(rng, 1, hashable=True) for _ in range(n)]
        elif base in ('d', 'od'):
            v = [base] + [[rand_str(rng), rand_value(rng, 1)] for _ in range(n)]
        else:
            v = [base] + [rand_value(rng, 1) for _ in range(n)]
        return ['sub', rng.choice(['MyThing', 'sub']), v]
    if k == 9:
        return ['od'] + [[rand_str(rng), rand_value(rng, 1)] for _ in range(rng.randrange(4))]
    if k == 10:
        return ['nt', 'Point', [rand_value(rng, 1) for _ in range(rng.randrange(1, 3))]]
    if k == 11:
        return ['strer', rand_str(rng)]
    if k == 12:
        return ['c', rng.randrange(4), rng.randrange(3)]
    return ['array', [rng.randrange(4) for _ in range(rng.randrange(4))], rng.choice(['int64', 'float64', 'bool'])]


def rich_what(rng, depth=2, maxkeys=3, nonids=.7):
    conf, seen = [], set()
    for _ in range(rng.randrange(maxkeys + 1)):
        k = rand_id(rng)
        if k not in seen:
            seen.add(k)
            conf.append([k, rich_value(rng, depth)])
    ni = None
    if rng.random() < nonids:
        ni = [k for k, _ in conf if rng.random() < .4] + ([rand_id(rng)] if rng.random() < .3 else [])
    return ['what', rand_id(rng), conf, ni, rng.choice([None, None, rand_id(rng), ''])]


def shrink_what(j):
    """smaller configurations"""
    t, name, conf, ni, out = j
    for i in range(len(conf)):
        yield [t, name, conf[:i] + conf[i + 1:], ni, out]
    if out is not None:
        yield [t, name, conf, ni, None]
    if ni:
        yield [t, name, conf, None, out]
        for i in range(len(ni)):
            yield [t, name, conf, ni[:i] + ni[i + 1:], out]
    for i, (k, v) in enumerate(conf):
        for w in shrink_value(v):
            yield [t, name, conf[:i] + [[k, w]] + conf[i + 1:], ni, out]


def shrink_value(v):
    if isinstance(v, str):
        if len(v) > 0:
            yield v[1:]
            yield v[:-1]
        return
    if not isinstance(v, list):
        if v != 0:
            yield 0
        return
    t = v[0]
    yield 0
    if t == 'what':
        for w in shrink_what(v):
            yield w
        for _, x in v[2]:
            yield x
    elif t in ('l', 't', 's', 'fs'):
        for i in range(1, len(v)):
            if t in 'lt':
                yield v[i]
            yield v[:i] + v[i + 1:]
            for w in shrink_value(v[i]):
                yield v[:i] + [w] + v[i + 1:]
    elif t in ('d', 'od'):
        for i in range(1, len(v)):
            yield v[:i] + v[i + 1:]
            for w in shrink_value(v[i][1]):
                yield v[:i] + [[v[i][0], w]] + v[i + 1:]
    elif t == 'whatable':
        for i in range(len(v[2])):
            yield [t, v[1], v[2][:i] + v[2][i + 1:]]
    elif t == 'whatter':
        for w in shrink_what(v[1]):
            yield [t, w]


def in_processes(module, seeds=(1, 2, 3)):
    """the result of module.digests() in this process, and in others with other hash seeds"""
    import json
    import os
    import subprocess
    import sys
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    code = 'import json; from %s import digests; print("DIGESTS" + json.dumps(digests()))' % module
    ps = [subprocess.Popen([sys.executable, '-W', 'ignore', '-c', code], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           universal_newlines=True, cwd=here,
                           env=dict(os.environ, PYTHONHASHSEED=str(seed),
                                    PYTHONPATH=os.pathsep.join([here, os.environ.get('WHATAMI_REPO', '/repo')]))) for seed in seeds]
    out = []
    for p in ps:
        o, e = p.communicate()
        lines = [l for l in o.splitlines() if l.startswith('DIGESTS')]
        out.append(json.loads(lines[-1][7:]) if lines else e[-1000:])
    return out


def same_in_processes(module, mine):
    for other in in_processes(module):
        ok(isinstance(other, list) and len(other) == len(mine), 'another process fails: %r', other)
        for (label, a), (_, b) in zip(mine, other):
            ok(a == b, '%s: %s in one process and %s in another', label, a, b)
