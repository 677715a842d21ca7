# coding=utf-8
"""Ids are canonical"""
import random

from .common import *
from .ref import what_id, positional_id

RULE = 'configurations with every kind of value; each is built again with other insertion orders at every level (parameters, ' \
       'dictionaries, sets, non-id keys); trivial: configurations without anything to permute'
N = 3000


def digests():
    return [(repr(j), [w.id(), w.positional_id(), str(w)]) for j, seed in list(configurations())[::5] for w in [dec(j)]]


def table():
    yield {'processes': 'all configurations'}
    for case in configurations():
        yield case


def configurations():
    vals = [1, 'x', ['s', 1, 2, 3, 10], ['s', 'b', 'a', "c'", ''], ['fs', 1, ['t', 1, 2], 'z', None],
            ['d', ['b', 1], ['a', 2], ['c', ['d', ['y', 1], ['x', 2]]]], ['d', [1, 'x'], ['1', 'y'], [None, 'z'], [['t', 1], 3]],
            ['sub', 'MyDict', ['d', ['b', 1], ['a', 2]]], ['sub', 'MySet', ['s', 'b', 'a', 'c']],
            ['sub', 'MyFS', ['fs', 'b', 'a', 'c']],
            ['l', ['s', 3, 1, 2], ['d', ['q', ['s', 'b', 'a']], ['p', 0]]], ['t', ['d', [2, 1], [1, 2], [10, 0]]],
            ['what', 'n', [['z', 1], ['y', ['s', 2, 1]], ['x', ['d', ['b', 1], ['a', 2]]]], ['z'], 'o'],
            ['whatable', 'W', [['z', 1], ['y', ['s', 2, 1]], ['a', ['d', ['b', 1], ['a', 2]]]]],
            ['partial', ['fn', FUNCTIONS[2]], [], [['y', ['s', 2, 1]], ['x', ['d', ['b', 1], ['a', 2]]]]],
            ['od', ['b', ['s', 2, 1]], ['a', ['d', ['b', 1], ['a', 2]]]],
            ['s', ['fs', 1, 2, 3], ['fs', 'a', 'b'], ['fs']]]
    for c in ':,=\'"()[]{} #.\n' + u'\xe9':
        # texts that only differ after or before a separator
        ks = ['k%s1' % c, 'k%s2' % c, 'k%s' % c, 'k', '1%sk' % c, '2%sk' % c, '%sk' % c, 'k%s1%s' % (c, c)]
        vals += [['d'] + [[k, i % 3] for i, k in enumerate(ks)], ['s'] + ks, ['fs'] + [['t', k] for k in ks],
                 ['d'] + [[['t', k, 1], k] for k in ks], ['l', ['sub', 'MySet', ['s'] + ks]]]
    vals += [['d', [1, 'x'], [10, 'x'], ['1', 'x'], [100, 'x'], [['t', 1], 'x'], [['t', 10], 'x'], [-1, 'x'], [1.5, 'x']],
             ['s', 1, 10, 100, 2, 20, '1', '10', -1, -10, 1.5, None], ['s', 'A', 'a', 'B', 'b', '_', 'aB', 'Ab']]
    for i, v in enumerate(vals):
        for seed in range(4):
            yield [['what', 'N', [['b', v], ['a', 1], ['B', 2], ['_c', 'x'], ['a1', 3], ['a10', 4], ['a2', 5]], ['b'] if i % 3 == 2
                    else None, None], seed]
            yield [['what', 'N', [['k', v]], None, 'o'], seed]


def gen(rng):
    return [rich_what(rng, 3, 5, .4), rng.randrange(10 ** 6)]


def check(case):
    if isinstance(case, dict):
        return same_in_processes(__name__, digests())
    j, seed = case
    rng = random.Random(seed)
    w, w2 = dec(j), dec(permute(j, rng))
    before = snapshot(w)
    try:
        ids = (w.id(), w.positional_id(), str(w), w.id(nonids_too=True))
    except Exception as e:
        e2 = raises(lambda: w2.id(), Exception)
        ok(type(e) is type(e2), 'the id of one order fails (%r), that of another does not', e)
        return
    ids2 = (w2.id(), w2.positional_id(), str(w2), w2.id(nonids_too=True))
    ok(ids == ids2, 'ids depend on the insertion order: %r and %r', ids, ids2)
    ok((w.id(), w.positional_id(), str(w), w.id(nonids_too=True)) == ids, 'ids change when generated again')
    ok(snapshot(w) == before, 'generating ids has modified the configuration')
    ok(all(isinstance(s, str) for s in ids), 'ids must be text')
    w.id(maxlength=3)
    w.keys(), w.values(), w.to_dict if False else None
    ok(w.id() == ids[0] and snapshot(w) == before, 'generating ids has modified the configuration')


def shrink(case):
    if isinstance(case, dict):
        return
    for w in shrink_what(case[0]):
        yield [w, case[1]]
