# coding=utf-8
"""Old style ids"""
from .common import *
from .ref import what_id

RULE = 'random configurations written in the old style (with and without output names and spaces) compared with their parsed configuration ' \
       'and their new id, and texts that are not old style ids'
N = 1500


def old(j, top=True, sp=' '):
    """old style text of an encoded value"""
    if isinstance(j, list):
        t = j[0]
        if t == 'l':
            return '[%s]' % (',' + sp).join(old(x, False, sp) for x in j[1:])
        if t == 't':
            return '(%s)' % (',' + sp).join(old(x, False, sp) for x in j[1:])
        if t == 's':
            return '{%s}' % (',' + sp).join(old(x, False, sp) for x in j[1:]) if len(j) > 1 else 'set()'
        if t == 'd':
            return '{%s}' % (',' + sp).join('%s:%s%s' % (old(k, False, sp), sp, old(v, False, sp)) for k, v in j[1:])
        if t == 'f':
            return j[1]
        if t == 'what':
            s = '%s#%s' % (j[1], '#'.join('%s=%s' % (k, old(v, False, sp)) for k, v in j[2]))
            return s if top else '"%s"' % s
        raise ValueError(j)
    if isinstance(j, str):
        return "'%s'" % j
    return repr(j)


def clean(j, rng, depth=3):
    """value in the domain of the old grammar"""
    k = rng.randrange(12 if depth > 0 else 6)
    if k < 2:
        return rng.choice([0, 1, -5, 2.5, -1e-7, 1e22, 10, ['f', 'inf'], ['f', '-inf'], 123456789])
    if k == 2:
        return rng.choice([True, False, None])
    if k < 6:
        return rand_str(rng, False).replace('\\', '')
    n = rng.randrange(4)
    if k == 6:
        return ['l'] + [clean(j, rng, depth - 1) for _ in range(n)]
    if k == 7:
        return ['t'] + [clean(j, rng, depth - 1) for _ in range(n)]
    if k == 8:
        return ['s'] + [rng.choice([1, 'a', None, 2.5, True, ['t', 1, 'b']]) for _ in range(n)]
    if k == 9:
        return ['d'] + [[rand_str(rng, False), clean(j, rng, depth - 1)] for _ in range(n)]
    return what(rng, depth - 1)


def what(rng, depth=3):
    conf, seen = [], set()
    for _ in range(rng.randrange(4)):
        k = rng.choice([rand_id(rng), rand_id(rng), 'out_', 'out2', 'name'])
        if k not in seen:
            seen.add(k)
            conf.append([k, clean(None, rng, depth)])
    return ['what', rand_id(rng), conf, None, None]


def table():
    w = ['what', 'G', [['im', True], ['p', ['t', 'x', 'y']], ['n', ['what', 'I', [['a', None], ['b', ['what', 'J', [], None, None]]], None, None]]], None, None]
    for sp in ('', ' '):
        for out in (None, 'acc', 'acc_to_target', 'o', ''):
            for extra in ([], [['out', 'vel']], [['outer', 1], ['e', ['d', ['k', ['l']]]]], [['e', ['s']], ['f', ['l']], ['g', ['t']], ['h', ['d']]]):
                yield {'what': ['what', 'G', w[2] + extra, None, None], 'out': out, 'sp': sp}
                yield {'what': ['what', 'out', extra, None, None], 'out': out, 'sp': sp}
    for v in ('x', '', 0, 0.0, None, False, ['l'], ['t'], ['d'], ['s'], True):
        for out in (None, 'acc'):
            yield {'what': ['what', 'G', [['out', v], ['a', 1]], None, None], 'out': out, 'sp': ''}
    for t in ('velocity', '', 'A(x=1)', 'A()', 'o=A(x=1)', 'a b', '#', 'A#x', 'A#x=', 'A#x=1#', 'A#x=1 y', '1#x=2', 'A##x=1', 'out=', 'out=a',
              'out=#', 'out=a#', 'out=a#b', 'A#x=1,y=2', 'A#x=frozenset()', 'A#x=1#y', '"A#x=1', 'A#x="B#y=1', u'\xe9#x=1', 'A#x=[1', 'A#=1',
              "A#x='b", 'A#x=b', 'A#x=1)', 'out=a#A(x=1)', 'out=a#velocity', 'outA', 'A #x=b', 'A#x=None1'):
        yield {'text': t}


def gen(rng):
    if rng.random() < .2:
        t = ''.join(rng.choice(CHARS) for _ in range(rng.randrange(12))).replace('#', '')
        return {'text': t}
    w = what(rng)
    if rng.random() < .15:
        w[2].append(['out', rng.choice(['x', '', 0, None, False, ['l'], 'vel'])])
    return {'what': w, 'out': rng.choice([None, None, rand_id(rng)]), 'sp': rng.choice(['', ' '])}


def check(j):
    from whatami.whatutils import oldid2what, id2whatami4
    from arpeggio import NoMatch
    if 'text' in j:
        t = j['text']
        ok(raises(lambda: oldid2what(t), NoMatch) is not None, '%r was parsed as an old style id', t)
        got = id2whatami4(t)
        ok(got == t, 'the conversion of %r is %r', t, got)
        return
    s = old(j['what'], True, j['sp'])
    w = dec(j['what'])
    if j['out'] is not None:
        s = 'out=%s#%s' % (j['out'], s)
        if 'out' in w.conf:
            ok(raises(lambda: oldid2what(s), ValueError) is not None, 'out was accepted twice in %s', s)
            ok(raises(lambda: id2whatami4(s), ValueError) is not None, 'out was accepted twice in %s', s)
            return
        w.conf['out'] = j['out']
    for _ in range(2):
        got = oldid2what(s)
        ok(strict_eq(got, w), '%s is parsed as %r, should be %r', s, got, w)
        ok(got.non_id_keys == set(), 'non-id keys are %r', got.non_id_keys)
        new = id2whatami4(s)
        ok(new == what_id(w), 'the new id of %s is %s, should be %s', s, new, what_id(w))
        got.conf.clear()


def shrink(j):
    if 'what' in j:
        for w in shrink_what(j['what']):
            yield dict(j, what=w)
