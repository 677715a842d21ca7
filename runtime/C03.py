# coding=utf-8
"""Layout of ids"""
from .common import *
from .ref import what_id, positional_id, text, NoReference

RULE = 'every kind of value, alone and nested in every kind of collection, and random configurations, compared with a reference ' \
       'rendering'
N = 3000

ATOMS = [0, 1, -1, 2 ** 70, 0.5, -0.0, 1e-7, 1e22, ['f', 'inf'], ['f', '-inf'], ['f', 'nan'], True, False, None, '', 'x', "it's",
         "\\'", 'a,b=c', [1, 2][0], ['c', 1, 2], ['cls', 'int'], ['cls', 'float'], ['cls', 'complex'], ['cls', 'str'],
         ['cls', 'object'], ['t'], ['l'], ['d'], ['s'], ['fs'], ['t', 1], ['t', 1, 'a'], ['l', 1, 'a'], ['d', ['a', 1], [2, None]],
         ['s', 'b', 'a', 10, 9], ['fs', 'b', 'a', 10, 9], ['what', 'n', [], None, None], ['what', 'n', [], None, 'out'],
         ['what', 'n', [['b', 1], ['a', 2]], ['b'], ''], ['whatable', 'W', [['b', 1], ['_c', 2], ['d_', 3]]],
         ['whatter', ['what', 'n', [['b', 1]], None, 'oo']], ['plain', 'Plain'], ['strer', 'my text'],
         ['strer', '<x at 0x7f>'], ['od', ['b', 1], ['a', 2]], ['od'],
         ['nt', 'P', [1, 'x']], ['array', [1, 2], 'int64'], ['array', [], 'float64']]
ATOMS += [['sub', 'My', a] for a in (['l'], ['l', 1, 'x'], ['t'], ['t', 1], ['s'], ['s', 2, 1], ['fs'], ['fs', 2, 1], ['d'],
                                      ['d', ['b', 1], ['a', 2]], ['od', ['b', 1], ['a', 2]])]
ATOMS += [['fn', f] for f in FUNCTIONS]
ATOMS += [['partial', ['fn', FUNCTIONS[0]], [], []], ['partial', ['fn', FUNCTIONS[0]], [1], []],
          ['partial', ['fn', FUNCTIONS[0]], [], [['y', 'q']]], ['partial', ['partial', ['fn', FUNCTIONS[2]], [1], []], [2], []],
          ['curry', ['fn', FUNCTIONS[2]], [1], []], ['curry', ['fn', FUNCTIONS[0]], [], [['x', 1]]],
          ['partial', ['builtin', 'sorted'], [], [['key', None]]]]


# different elements, keys or entries with the same text
TWINS = [['s', ['plain', 'P'], ['plain', 'P']], ['fs', ['plain', 'P'], ['plain', 'P'], 1], ['s', ['strer', 'my text'], ['strer', 'my text']],
         ['d', [['plain', 'P'], 1], [['plain', 'P'], 1]], ['sub', 'My', ['s', ['plain', 'P'], ['plain', 'P']]], ['l', ['plain', 'P'], ['plain', 'P']],
         ['s', ['t', ['plain', 'P']], ['t', ['plain', 'P']]], ['t', ['plain', 'P'], ['plain', 'P'], ['plain', 'P']]]


def table():
    for a in TWINS:
        yield ['what', 'N', [['k', a], ['a', ['l', a, a]]], None, None]
    for a in ATOMS:
        yield ['what', 'N', [['k', a]], None, None]
        yield ['what', 'N', [['k', a], ['a', 1]], None, 'o']
        for c in ('l', 't'):
            yield ['what', 'N', [['k', [c, a]], ['j', [c, 1, a, a]]], None, None]
        yield ['what', 'N', [['k', ['d', ['z', a], ['a', a], [1, ['l', a]]]]], None, None]
        yield ['what', 'N', [['k', ['what', 'I', [['x', a], ['a', 0]], ['a'], None]]], None, None]
        yield ['what', 'N', [['k', ['od', ['z', a], ['a', a]]]], None, None]
        yield ['what', 'N', [['k', ['partial', ['fn', FUNCTIONS[2]], [], [['x', a]]]]], None, None]
        if not isinstance(a, list) or a[0] in ('fs', 't', 'cls', 'f', 'c', 'fn'):
            for c in ('s', 'fs'):
                yield ['what', 'N', [['k', [c, a]], ['j', [c, a, 'b', '~']]], None, None]
            yield ['what', 'N', [['k', ['d', [a, 1], ['b', 2], ['~', 3]]]], None, None]
    for n in ('f', 'lambda', 'A.b', ''):
        for out in (None, '', 'o'):
            for keys in ([], ['a'], ['b', 'a'], ['B', 'a', 'A', '_', 'a1', 'a10', 'a2']):
                for ni in (None, ['a'], ['B', 'A']):
                    yield ['what', n, [[k, i] for i, k in enumerate(keys)], ni, out]


def gen(rng):
    return rich_what(rng, 3, 4, .3)


def check(j):
    from whatami import What
    from whatami.plugins import WhatamiPluginManager as W
    w = dec(j)
    try:
        want = (what_id(w), positional_id(w))
    except ValueError:
        return
    got = (w.id(), w.positional_id())
    ok(got == want, 'ids are %r, should be %r', got, want)
    ok((w.id(nonids_too=True), w.positional_id(non_ids_too=True)) == (what_id(w, True), positional_id(w, True)), 'with non-ids: %r',
       w.id(nonids_too=True))
    ok(str(w) == what_id(w, True), 'str is %r', str(w))
    for v in w.conf.values():
        ok(W.build_string(v) == text(v), 'the text of %r is %r, should be %r', v, W.build_string(v), text(v))
    ok(W.build_string(w) == want[0], 'the text of the configuration is %r', W.build_string(w))


def shrink(case):
    return shrink_what(case)
