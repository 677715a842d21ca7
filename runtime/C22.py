# coding=utf-8
"""Sorting configurations and ids"""
from .common import *

RULE = 'lists of configurations and ids with many ties, sorted by zero to three keys (also nested), compared with an insertion sort'
N = 1500


def table():
    def w(a, b, n='N', **kw):
        return ['what', n, [['a', a], ['b', b], ['w', ['what', 'I', [['x', a]], None, None]]] + [[k, v] for k, v in kw.items()], None, None]
    base = [w(1, 'x', z=3), w(0, 'y', z=2), w(1, 'x', z=1), w(1, 'a', z=0), w(0, 'y', 'M'), w(1.0, 'a'), w(True, 'x', 'A')]
    for keys in ([], ['a'], ['b'], ['a', 'b'], ['b', 'a'], ['a', 'a'], [['t', 'w', 'x']], [['t', 'w', 'x'], 'b'], ['b', ['t', 'a'], 'a']):
        yield {'whats': base, 'keys': keys}
        yield {'whats': base[::-1], 'keys': keys}
        yield {'whats': base[:1], 'keys': keys}
        yield {'whats': base + base, 'keys': keys}
    yield {'whats': [w(i % 3, 'b', z=-i) for i in range(30)], 'keys': ['a']}
    yield {'whats': [['what', 'N', [['a', ['t', i % 2, 'x']], ['q', -i]], None, None] for i in range(9)], 'keys': ['a']}
    yield {'whats': [['what', 'N', [['a', ['l', i % 2, 'x']], ['q', ['d']]], None, None] for i in range(9)], 'keys': ['a']}
    yield {'whats': [w(None, 1)], 'keys': ['a']}


def gen(rng):
    n = rng.choice([1, 2, 3, 5, 8, 15])
    kinds = {k: rng.randrange(4) for k in 'abc'}
    v = {0: lambda: rng.randrange(3), 1: lambda: rng.choice(['', 'a', 'b', 'B']), 2: lambda: rng.choice([0.5, 1, True, -1]),
         3: lambda: ['t', rng.randrange(2), rng.choice(['a', 'b'])]}
    whats = [['what', rng.choice('NM'), [[k, v[kinds[k]]()] for k in 'abc'] + [['r', rand_value(rng, 1)], ['z', rng.randrange(99)]],
              rng.choice([None, ['a']]), rng.choice([None, 'o'])] for _ in range(n)]
    return {'whats': whats, 'keys': [rng.choice('abc') for _ in range(rng.randrange(4))]}


def check(j):
    from whatami import What, parse_whatid
    from whatami.whatutils import sort_whats, sort_whatids
    keys = [dec(k) for k in j['keys']]

    def value(w, k):
        k = k if isinstance(k, tuple) else (k,)
        for x in k:
            w = w.conf[x] if isinstance(w, What) else w[x]
        return w
    whats = [dec(w) for w in j['whats']]

    def order(values):
        out = []
        for i, v in enumerate(values):      # insertion sort
            p = len(out)
            while p > 0 and v < values[out[p - 1]]:
                p -= 1
            out.insert(p, i)
        return out
    values = [tuple(value(w, k) for k in keys) for w in whats]
    o = order(values)
    src = list(whats)
    before = [snapshot(w) for w in whats]
    got, vals = sort_whats(whats, *keys)
    ok(len(got) == len(whats) and all(g is whats[i] for g, i in zip(got, o)), 'sort_whats gives %r, should be the positions %r', got, o)
    ok([tuple(v) for v in vals] == [values[i] for i in o] and all(isinstance(v, tuple) for v in vals), 'the values are %r', vals)
    ok(len(vals) == len(o) and all(x is y for v, i in zip(vals, o) for x, y in zip(v, values[i])), 'the values are not those of the elements')
    ok(len(whats) == len(src) and all(a is b for a, b in zip(whats, src)) and [snapshot(w) for w in whats] == before, 'the input was modified')
    try:
        ids = [w.id(nonids_too=True) for w in whats]
        parsed = [parse_whatid(i) for i in ids]
        values = [tuple(value(w, k) for k in keys) for w in parsed]
    except Exception:
        return
    if any(type(v) is not type(dec(v)) for v in ids):
        return
    o = order(values)
    src = list(ids)
    got, vals = sort_whatids(ids, *keys)
    ok(list(got) == [ids[i] for i in o], 'sort_whatids gives %r, should be the positions %r of %r', got, o, ids)
    ok(list(vals) == [values[i] for i in o], 'the values are %r, should be %r', vals, [values[i] for i in o])
    ok(ids == src, 'the input was modified')


def shrink(j):
    for i in range(len(j['whats'])):
        if len(j['whats']) > 1:
            yield dict(j, whats=j['whats'][:i] + j['whats'][i + 1:])
    for i in range(len(j['keys'])):
        yield dict(j, keys=j['keys'][:i] + j['keys'][i + 1:])
