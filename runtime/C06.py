# coding=utf-8
"""Strings"""
from .common import *
from .ref import quote

RULE = 'texts without backslashes (and with escaped quotes) at every position of a configuration: rendered, parsed and rendered again'
N = 2500

TEXTS = ['', "'", "''", "'''", "a'b", "'a", "a'", " ' ", "x','y", "x',k='y", "x')", "x'),b=n('", ' lead', 'trail ', '\n', '\t', ' ', '  ',
         'line\nbreak', '\r', "\n'\n", ',', '=', '(', ')', '[', ']', '{', '}', '#', '"', ':', '<class ', 'None', 'True', '1', 'set()',
         u'é', u'中\'中', '%s', '{0}', "it's a 'quoted' text", 'a' * 300 + "'", "'" * 20, "=','", "a#b='c'"]


def table():
    for t in TEXTS:
        for esc in (False, True):
            for place in range(len(PLACES)):
                yield [t.replace("'", "\\'") if esc else t, place]
    for t in ("a\\'b'c", "'\\'", "\\''", "'\\''\\'"):
        for place in range(len(PLACES)):
            yield [t, place]


PLACES = [
    lambda s: {'k': s}, lambda s: {'k': s, 'a': 1, 'z': s}, lambda s: {'k': [s]}, lambda s: {'k': [s, 'x', s]}, lambda s: {'k': (s,)},
    lambda s: {'k': ('', s)}, lambda s: {'k': {s: 1}}, lambda s: {'k': {'a': s}}, lambda s: {'k': {s: s}}, lambda s: {'k': {s}},
    lambda s: {'k': frozenset([s, 'z'])}, lambda s: {'k': What_('n', {'a': s})}, lambda s: {'k': [What_('n', {'a': s, 'b': [s]})]},
]


def What_(name, conf):
    from whatami import What
    return What(name, conf)


def gen(rng):
    t = rand_str(rng, n=15)
    if rng.random() < .5:
        i = rng.randrange(len(t) + 1)
        t = t[:i] + rng.choice(["'", "''", "',", "='", "' "]) + t[i:]
    if rng.random() < .15:
        t = t.replace("'", "\\'")
    return [t, rng.randrange(len(PLACES))]


def check(case):
    from whatami import What, parse_whatid, oldid2what
    from whatami.plugins import WhatamiPluginManager as W, string_plugin
    s, place = case
    q = quote(s)
    ok(W.build_string(s) == q and string_plugin(s) == q, '%r is written as %r, should be %r', s, W.build_string(s), q)
    esc = q[1:-1]
    w, we = What_('N', PLACES[place](s)), What_('N', PLACES[place](esc))
    an_id = w.id()
    ok(q in an_id, 'the text of %r is not in %r', s, an_id)
    ok(we.id() == an_id, 'escaping is not idempotent: %r and %r', an_id, we.id())
    p = parse_whatid(an_id)
    ok(canon(p) == canon(we), '%r is parsed as %r, should be %r', an_id, p, we)
    ok(p.id() == an_id, '%r is parsed and written as %r', an_id, p.id())
    if place < 2:
        old = oldid2what('N#k=%s#a=1' % q)
        ok(canon(old) == canon(What_('N', {'k': esc, 'a': 1})), 'the old style id of %r gives %r', s, old)


def shrink(case):
    for s in shrink_value(case[0]):
        yield [s, case[1]]
    if case[1]:
        yield [case[0], 0]
