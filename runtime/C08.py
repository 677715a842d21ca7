# coding=utf-8
"""Flattening and lookup"""
from .common import *
from .C03 import ATOMS

RULE = 'random nested configurations and all combinations of options, compared with a recursive definition of the flattened keys; ' \
       'lookups of present, absent, partially present and odd keys'
N = 1500


def flat(w, nonids, collections, recursive, prefix=()):
    from whatami import What
    if isinstance(w, What):
        kvs = [(k, w.conf[k]) for k in sorted(w.conf) if nonids or k not in w.non_id_keys]
    elif collections and isinstance(w, (list, tuple)):
        kvs = list(enumerate(w))
    elif collections and isinstance(w, dict):
        kvs = [(k, w[k]) for k in sorted(w)]
    else:
        kvs = []
    out = []
    for k, v in kvs:
        out.append((prefix + (k,), v))
        if recursive:
            out += flat(v, nonids, collections, recursive, prefix + (k,))
    return out


ABSENT, UNSPECIFIED = object(), object()


def lookup(w, item):
    """value of a key, ABSENT if it is not there"""
    from whatami import What
    if not isinstance(item, tuple):
        return w.conf[item] if item in w.conf else ABSENT
    for k in item:
        if isinstance(w, What):
            w = w.conf.get(k, ABSENT)
        elif isinstance(w, dict):
            w = w.get(k, ABSENT)
        elif isinstance(w, (list, tuple)):
            w = w[k] if isinstance(k, int) and -len(w) <= k < len(w) else ABSENT
        elif hasattr(w, '__getitem__') or isinstance(w, type):
            return UNSPECIFIED      # neither a configuration, a collection nor a whatable
        elif hasattr(w, 'what') and not isinstance(w, type):
            w = w.what().conf.get(k, ABSENT)
        else:
            w = ABSENT
        if w is ABSENT:
            return ABSENT
    return w


def table():
    inner = ['what', 'I', [['z', 1], ['a', ['what', 'J', [['q', None], ['n', 2]], ['n'], None]]], ['a'], 'o']
    whats = [['what', 'N', [['k', a], ['a', ['l', 1, a]], ['b', ['t', ['d', ['x', a], ['y', 2]]]]], ['a'], None] for a in ATOMS]
    whats += [['what', 'N', [], None, None], ['what', 'N', [['b', inner], ['a', inner], ['c', ['l', inner, inner]]], ['b'], None],
              ['what', 'N', [['b', ['whatable', 'W', [['q', 3], ['r', inner]]]], ['a', 0], ['e', ['l']], ['f', ['d']], ['g', ['t']],
                             ['h', ['d', ['', ['l', 0]], ['x', ['d', ['y', 0]]]]]], None, None]]
    for w in whats:
        yield {'what': w, 'absent': [['k', 'zz'], ['b', 5], ['b', -9], ['b', 'x'], ['a', 0, 0], ['zz'], ['zz', 'a'], ['k', 'k', 'k'],
                                     ['b', 'q', 'q'], ['b', 'r', 'a', 'q'], ['b', 'nope'], ['b', 'r', 'zz'], ['b', 'r', 'a', 'zz'],
                                     ['a', None], ['c', 0, 'a'], ['h', 'x', 'y'], ['h', 'x', 'z'], ['h', '', 0], ['h', '', 1],
                                     ['a', 'a'], [], ['a'], ['b'], ['k']]}


def gen(rng):
    w = rich_what(rng, 3, 4, .5) if rng.random() < .5 else rand_what(rng, 3, True)
    absent = []
    for _ in range(6):
        absent.append([rng.choice(IDS + [0, 1, 5, -1, None, 1.5, '', True]) if rng.random() < .4 or not w[2] else rng.choice(w[2])[0]
                       for _ in range(rng.randrange(1, 4))])
    return {'what': w, 'absent': absent}


def get(w, k):
    try:
        return w[k]
    except KeyError:
        return ABSENT


def check(j):
    from whatami import What
    w = dec(j['what'])
    before = snapshot(w)
    for nonids in (False, True):
        for collections in (False, True):
            for recursive in (True, False):
                opts = dict(non_ids_too=nonids, collections_too=collections, recursive=recursive)
                try:
                    want = flat(w, nonids, collections, recursive)
                except TypeError:       # dictionaries with keys that cannot be sorted
                    continue
                keys, values = w.flatten(**opts)
                wkeys = [k[0] if len(k) == 1 else k for k, _ in want]
                ok(keys == wkeys, 'flatten(%r) keys are %r, should be %r', opts, keys, wkeys)
                ok(len(values) == len(want) and all(a is b for a, (_, b) in zip(values, want)), 'flatten(%r) values are %r', opts, values)
                ok(w.keys(**opts) == keys, 'keys(%r) is %r', opts, w.keys(**opts))
                vs = w.values(**opts)
                ok(len(vs) == len(values) and all(a is b for a, b in zip(vs, values)), 'values(%r) is %r', opts, vs)
                for k, v in zip(keys, values):
                    ok(w[k] is v, 'what[%r] is %r, should be %r', k, w[k], v)
                    ok(w.get(k, 'other') is v, 'get(%r) is %r, should be %r', k, w.get(k, 'other'), v)
    wkeys = w.flatten()
    ok((w.keys(), len(w.values())) == (wkeys[0], len(wkeys[1])), 'keys() is %r', w.keys())
    for k in j['absent']:
        for item in [tuple(k)] + ([k[0]] if len(k) == 1 else []):
            want = lookup(w, item) if item != () else UNSPECIFIED
            if want is UNSPECIFIED:
                continue
            default = object()
            if want is ABSENT:
                try:
                    v = w[item]
                except KeyError:
                    pass
                else:
                    ok(False, 'what[%r] is %r, it should raise KeyError', item, v)
                ok(w.get(item, default) is default and w.get(item) is None, 'get(%r) is %r, it should be the default', item,
                   w.get(item, default))
            else:
                v = w[item]
                ok(v is want or canon(v) == canon(want), 'what[%r] is %r, should be %r', item, v, want)
    ok(snapshot(w) == before, 'the configuration changed')


def shrink(j):
    for w in shrink_what(j['what']):
        yield {'what': w, 'absent': j['absent']}
    for i in range(len(j['absent'])):
        yield {'what': j['what'], 'absent': j['absent'][:i] + j['absent'][i + 1:]}
