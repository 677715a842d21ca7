# coding=utf-8
"""maxlength"""
import hashlib

from .common import *
from .ref import what_id, positional_id

RULE = 'configurations x maximum lengths around the length of their ids'
N = 1500


def table():
    for s in ('', 'abc', u'é', u'中' * 10, "it's", 'x' * 50, '\n'):
        for out in (None, 'o', u'é'):
            for ni in (None, ['b']):
                yield [['what', 'N', [['a', s], ['b', 1]], ni, out], [3, 1000]]


def gen(rng):
    return [rich_what(rng, 2, 4, .4), [rng.randrange(-5, 300) for _ in range(4)]]


def check(case):
    j, extra = case
    w = dec(j)
    try:
        full = {('id', False): what_id(w), ('id', True): what_id(w, True), ('pos', False): positional_id(w),
                ('pos', True): positional_id(w, True)}
    except ValueError:
        return
    for (kind, ni), s in full.items():
        f = (lambda n: w.id(nonids_too=ni, maxlength=n)) if kind == 'id' else \
            (lambda n: w.positional_id(non_ids_too=ni, maxlength=n))
        n = len(s)
        h = hashlib.sha1(s.encode('utf-8')).hexdigest()
        for m in [n, n + 1, n - 1, 1, 2, 0, -1, -n, -1000, n // 2, 39, 40, 41] + extra + [len(s.encode('utf-8'))]:
            want = h if 0 < m < n else s
            ok(f(m) == want, '%s(nonids=%s, maxlength=%d) of an id of length %d is %r, should be %r', kind, ni, m, n, f(m), want)
        ok((w.id(nonids_too=ni) if kind == 'id' else w.positional_id(non_ids_too=ni)) == s, 'default maximum')


def shrink(case):
    for w in shrink_what(case[0]):
        yield [w, case[1]]
