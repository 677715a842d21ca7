# coding=utf-8
"""Non-id parameters"""
from .common import *
from .ref import what_id, positional_id, NoReference

RULE = 'configurations with non-id keys (some missing, some nested), compared with the reference layout; then the values of the ' \
       'non-id parameters are changed, removed and added'
N = 3000


def table():
    for ni in (None, [], ['v'], ['v', 'n'], ['v', 'zz'], ['a', 'v', 'n'], ['n']):
        for nested in (None, ['x'], ['x', 'v'], ['nothing']):
            inner = ['what', 'I', [['x', 1], ['v', 2], ['w', 'z']], nested, 'io']
            for value in (inner, ['l', inner], ['d', ['k', inner]], ['whatter', inner]):
                for out in (None, 'o'):
                    yield ['what', 'O', [['v', value], ['a', value], ['n', 3]], ni, out]


def gen(rng):
    return rich_what(rng, 2, 6, .9)


def check(j):
    from whatami import What, whatable, whatareyou
    w = dec(j)
    try:
        want = (what_id(w), positional_id(w), what_id(w, True), what_id(w, True), positional_id(w, True))
    except ValueError:
        return

    def ids(w):
        return (w.id(), w.positional_id(), str(w), w.id(nonids_too=True), w.positional_id(non_ids_too=True))
    got = ids(w)
    ok(got == want, 'ids are %r, should be %r', got, want)
    ok(w.keys(recursive=False) == sorted(k for k in w.conf if k not in w.non_id_keys), 'keys: %r', w.keys(recursive=False))
    ok(w.keys(non_ids_too=True, recursive=False) == sorted(w.conf), 'all keys: %r', w.keys(non_ids_too=True, recursive=False))
    # iterables of non-id keys are equivalent, and not shared
    nik = j[3]
    if nik is not None:
        for make in (list, tuple, set, frozenset, iter, lambda x: dict.fromkeys(x)):
            given = make(nik)
            w2 = What(w.name, w.conf, non_id_keys=given, out_name=w.out_name)
            ok(ids(w2) == want, 'ids with non-id keys given as %s: %r', make, ids(w2))
            if isinstance(given, (list, set)):
                given.clear()
                ok(ids(w2) == want, 'the non-id keys given are shared with the configuration')
        # change, remove, add
        extra = [k for k in nik if k not in w.conf]
        for k in nik:
            if k in w.conf:
                old = w.conf[k]
                for new in (None, 'other', (1, 2), What('new', {})):
                    w.conf[k] = new
                    ok((w.id(), w.positional_id()) == want[:2], 'the value of non-id %r reaches the id %r', k, w.id())
                del w.conf[k]
                ok((w.id(), w.positional_id()) == want[:2], 'removing non-id %r changes the id to %r', k, w.id())
                w.conf[k] = old
        for k in extra:
            w.conf[k] = 'extra'
            ok((w.id(), w.positional_id()) == want[:2], 'adding non-id %r changes the id to %r', k, w.id())
            ok('%s=\'extra\'' % k in w.id(nonids_too=True), 'non-id %r missing when requested', k)
            del w.conf[k]
        e = raises(lambda: What('x', {}, non_id_keys=3))
        ok(e is not None, 'non-id keys must be iterable')
    outer = What('outer', {'w': w, 'l': [w]})
    ok(outer.id(nonids_too=True) == 'outer(l=[%s],w=%s)' % (want[0], want[0]), 'nested configurations contribute their id: %r',
       outer.id(nonids_too=True))


def shrink(case):
    return shrink_what(case)
