# coding=utf-8
"""Equality of configurations"""
import random
from .common import *

RULE = 'pairs of configurations that are equal, or differ in one component at one level, and pairs of a configuration and another object'
N = 4000


class Partial(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


def table():
    w = ['what', 'N', [['a', 1], ['w', ['what', 'I', [['x', ['l', 1]]], ['x'], 'q']]], ['a'], 'o']
    ds = [w, ['what', 'M', w[2], w[3], w[4]], ['what', 'N', w[2], None, 'o'], ['what', 'N', w[2], w[3], None],
          ['what', 'N', w[2], w[3], ''], ['what', 'N', w[2][::-1], w[3], 'o'], ['what', 'N', w[2][:1], w[3], 'o'],
          ['what', 'N', [], None, None], ['what', 'N', [], ['a'], None],
          ['what', 'N', [['a', 1], ['w', ['what', 'I', [['x', ['l', 1]]], None, 'q']]], None, 'o'],
          ['what', 'N', [['a', 1], ['w', ['what', 'I', [['x', ['l', 1]]], ['x'], None]]], None, 'o'],
          ['what', 'N', [['a', 1], ['w', ['what', 'I', [['x', ['l', 2]]], ['x'], 'q']]], None, 'o'],
          ['what', 'N', [['a', 1.0], ['w', ['what', 'I', [['x', ['l', True]]], ['x'], 'q']]], None, 'o'],
          ['what', 'N', [['a', 1], ['w', ['what', 'J', [['x', ['l', 1]]], ['x'], 'q']]], None, 'o'],
          ['what', 'N', [['a', 1], ['w', None]], None, 'o']]
    for a in ds:
        for b in ds:
            yield {'a': a, 'b': b}
        for o in (None, 0, '', 'N', ['l'], ['d'], ['d', ['name', 'N']], ['cls', 'int'], ['obj']):
            yield {'a': a, 'b': o}
        for missing in ('name', 'conf', 'out_name', None):
            yield {'a': a, 'duck': missing}
    for n in (1, 2, 5, 9, 10, 17, 33, 70):
        yield {'texts': n}


class Looks(object):
    """objects with the same text that are not equal"""
    def __init__(self, v):
        self._v = v

    def __eq__(self, other):
        return isinstance(other, Looks) and self._v == other._v

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return 1

    def __repr__(self):
        return 'looks'


def same_texts(n):
    """n parameters; the value of one of them is another one with the same text"""
    from whatami import What
    for one, other in ((Looks(1), Looks(2)), (What('i', {'x': Looks(1)}), What('i', {'x': Looks(2)})),
                       ([Looks(1)], [Looks(2)])):
        for i in sorted({0, n // 2, n - 1}):
            conf = dict(('p%d' % k, k) for k in range(n))
            a, b, c = [What('N', dict(conf, **{'p%d' % i: v})) for v in (one, other, one)]
            ok(a.id() == b.id(), 'the texts of %r and %r', a, b)
            ok(not a == b and a != b, '%r equals another configuration with another value with the same text', a)
            ok(a == c and not a != c, '%r is not equal to the same configuration', a)
    for k in range(n):
        a, b = [What('N', dict(('p%d' % j, (1 if j != k else v)) for j in range(n))) for v in (1, 2)]
        ok(not a == b and a != b, '%r equals %r', a, b)
        ok(a != What('N', dict(list(a.conf.items())[:k])), '%r equals the first %d parameters', a, k)


def gen(rng):
    a = rand_what(rng, 3, True)
    k = rng.randrange(4)
    if k == 0:
        return {'a': a, 'b': rand_what(rng, 2, True)}
    if k == 1:
        return {'a': a, 'b': permute(a, rng)}
    b = json.loads(json.dumps(a))
    mutate(b, rng)
    return {'a': a, 'b': b}


def mutate(w, rng):
    inner = [v for _, v in w[2] if isinstance(v, list) and v and v[0] == 'what']
    if inner and rng.random() < .6:
        return mutate(rng.choice(inner), rng)
    k = rng.randrange(5)
    if k == 0:
        w[1] = rand_id(rng)
    elif k == 1:
        w[4] = rng.choice([None, 'o', ''])
    elif k == 2 and w[2]:
        w[2].pop(rng.randrange(len(w[2])))
    elif k == 3:
        w[3] = rng.choice([None, [], ['a', 'b'], [kv[0] for kv in w[2]]])
    elif w[2]:
        w[2][rng.randrange(len(w[2]))][1] = rand_value(rng, 1)


def same(a, b):
    """reference equality"""
    from whatami import What
    if isinstance(a, What) and isinstance(b, What):
        return a.name == b.name and a.out_name == b.out_name and same(a.conf, b.conf)
    if isinstance(a, What) or isinstance(b, What):
        return False
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(a[k] is b[k] or same(a[k], b[k]) for k in a)
    for t in (list, tuple):
        if isinstance(a, t) and isinstance(b, t):
            return len(a) == len(b) and all(x is y or same(x, y) for x, y in zip(a, b))
    return a == b


def check(j):
    if 'texts' in j:
        return same_texts(j['texts'])
    a = dec(j['a'])
    if 'duck' in j:
        attrs = dict(name=a.name, conf=a.conf, out_name=a.out_name)
        attrs.pop(j['duck'], None)
        b = Partial(**attrs)
        want = j['duck'] is None
        before = snapshot(a)
        if want:
            return       # not specified for objects that are not configurations but look the same
        ok((a == b) is False and (a != b) is True, '%r == an object without %s', a, j['duck'])
        ok(snapshot(a) == before, 'modified')
        return
    b = dec(j['b'])
    before = snapshot(a), snapshot(b)
    want = same(a, b)
    ok(bool(a == b) == want, '%r == %r is %r', a, b, a == b)
    ok(bool(a != b) == (not want), '%r != %r is %r', a, b, a != b)
    ok(bool(b == a) == want, '%r == %r is %r', b, a, b == a)
    ok(a == a and not a != a, '%r is not equal to itself', a)
    ok(bool(a.copy() == a), 'a copy of %r is not equal', a)
    ok((snapshot(a), snapshot(b)) == before, 'the comparison modified something')


def shrink(j):
    for x in ('a', 'b'):
        if isinstance(j.get(x), list) and j[x][:1] == ['what']:
            for w in shrink_what(j[x]):
                yield dict(j, **{x: w})
