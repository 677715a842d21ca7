# coding=utf-8
"""Round trip"""
from .common import *

RULE = 'configurations over the grammar of ids (no quotes nor backslashes in strings): parsed and compared with types; and ids of ' \
       'pairs of different configurations'
N = 2500

VALUES = [0, -1, 12345678901234567890, 0.5, -0.0, 1.0, 1e-7, 1e22, -3.25e-300, ['f', 'inf'], ['f', '-inf'], ['f', 'nan'], True, False,
          None, '', ' ', ' x ', 'a,b', 'k=v', '(', ']', '}', "set()", 'None', '{1:2}', '"', '#', '\n', '\t x', u'é', '<class ',
          ['cls', 'str'], ['cls', 'object'], ['cls', 'ValueError'], ['t'], ['t', None], ['t', 1], ['t', 1, 'a', None], ['l'], ['l', None],
          ['l', True, 1, 1.0, '1'], ['d'], ['d', [None, None]], ['d', ['a', 1], [1, 'a'], [None, True]],
          ['d', [['t', 1, 2], ['l']]], ['s'], ['s', None], ['s', 1, 'a', None], ['fs'], ['fs', None], ['fs', 1, 'a', ['t', 1]],
          ['s', ['fs', 1], ['fs'], ['t']], ['s', ['fs', None]], ['d', [['fs', 'x'], ['s', 'y']]],
          ['what', 'n', [], None, None], ['what', 'n', [], None, 'o'], ['what', 'n', [['a', None]], None, 'o'],
          ['what', 'n', [['a', ['what', 'n', [['a', 'a']], None, 'a']]], None, 'o']]
NAMES = ['n', 'None', 'None1', 'True', 'True_', 'False1', 'nan', 'nanmean', 'inf', 'inf1', 'infinity', 'settings', 'frozensets', '_', 'e5',
         'class_', 'setx', 'N', 'o']


def table():
    for v in VALUES:
        yield ['what', 'N', [['k', v]], None, None]
        yield ['what', 'N', [['k', v], ['a', 1], ['z', v]], None, 'o']
        for c in ('l', 't'):
            yield ['what', 'N', [['k', [c, v]], ['j', [c, v, 'x', v]]], None, None]
        yield ['what', 'N', [['k', ['d', ['a', v], [2, v]]]], None, None]
        yield ['what', 'N', [['k', ['what', 'I', [['a', v]], None, None]]], None, None]
        yield ['what', 'N', [['k', ['l', ['what', 'I', [['a', v]], None, 'oo'], ['d', ['b', v]]]]], None, None]
        if not isinstance(v, list) or v[0] in ('fs', 't', 'cls', 'f'):
            yield ['what', 'N', [['k', ['d', [v, 1], ['b', 2]]]], None, None]
            for c in ('s', 'fs'):
                yield ['what', 'N', [['k', [c, v]], ['j', [c, v, 'b', '~']]], None, None]
    for n in NAMES:
        yield ['what', n, [], None, None]
        yield ['what', n, [['k', 1]], None, n]
        yield ['what', 'x', [[n, 1]], None, n]
        yield ['what', 'x', [['a', ['what', n, [], None, None]], ['b', ['what', n, [['c', 2]], None, n]]], None, None]
        yield ['what', 'x', [['a', ['l', ['what', n, [], None, None]]], ['b', ['d', [1, ['what', n, [], None, n]]]]], None, None]


def gen(rng):
    return rand_what(rng, rng.choice([1, 2, 2, 3]), quotes=False, maxkeys=4)


def check(j):
    from whatami import parse_whatid, What, id2what
    w = dec(j)
    s = w.id()
    p = parse_whatid(s)
    ok(type(p) is What, 'parse gives %r', p)
    ok(canon(p) == canon(w), 'the id %r is parsed as %r and comes from %r', s, p, w)
    ok(p.out_name == w.out_name and p.name == w.name and p.non_id_keys == set(), 'name, output name or non-id keys: %r', p)
    ok(p.id() == s, 'the id of the parsed configuration is %r instead of %r', p.id(), s)
    ok(canon(id2what(s)) == canon(w), 'id2what')
    ok(p.positional_id() == w.positional_id(), 'positional id')
    for i, x in enumerate(shrink_what(j)):
        if i > 12:
            break
        try:
            w2 = dec(x)
        except Exception:
            continue
        ok((w2.id() == s) == (canon(w2) == canon(w)), 'different configurations %r and %r have the id %r', w, w2, s)


def shrink(case):
    return shrink_what(case)
