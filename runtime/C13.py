# coding=utf-8
"""Whatable functions"""
import inspect
from .common import *
from .ref import call_binding
from . import C12

RULE = 'generated functions and partials decorated with all options, called with generated arguments (also failing) and asked for their ' \
       'configuration several times, compared with the original'
N = 2500


def table():
    for deco in (0, 1, 2, 3):
        for inplace in (False, True):
            for sig in ([['x', 'y'], 1, 0, 0, False], [['x', 'y'], 2, 1, 1, False], [[], 0, 0, 0, True], [['what', '_h'], 2, 0, 0, False]):
                for opts in ({}, {'non_id_keys': ['l', 'y']}, {'non_id_keys': ['t', 'zz', '_h']}, {'excludes': ['t', 'x']},
                             {'excludes': ['t'], 'non_id_keys': ['t']}, {'excludes': None}, {'add_dict': False, 'add_class': True}):
                    yield {'sig': sig, 'layers': [], 'deco': deco, 'inplace': inplace, 'opts': opts, 'calls': [[[1, 2], []], [[], []],
                                                                                                         [[], [['x', 3]]], [[1], [['y', 3]]]]}
            yield {'sig': [['x', 'y', 'z'], 1, 0, 0, False], 'layers': [['partial', [1], []]], 'deco': deco, 'inplace': inplace, 'opts': {},
                   'calls': [[[2], []], [[], [['y', 3], ['z', ['l']]]], [[1, 2, 3], []]]}
            yield {'sig': [['x', 'y', 'z'], 1, 0, 0, False], 'layers': [['partial', [], [['x', 2], ['z', 3]]]], 'deco': deco,
                   'inplace': inplace, 'opts': {}, 'calls': [[[2], []], [[], [['y', 3], ['z', ['l']]]], [[1, 2, 3], []]]}


def gen(rng):
    j = C12.gen(rng)
    j['layers'] = [l for l in j['layers'] if l[0] == 'partial'][:2]
    j['deco'] = rng.randrange(4)
    j['inplace'] = rng.random() < .3
    j['opts'] = {}
    names = j['sig'][0] + ['zz']
    if rng.random() < .5:
        j['opts']['non_id_keys'] = [rng.choice('lts')] + rng.sample(names, rng.randrange(len(names)))
    if rng.random() < .4:
        j['opts']['excludes'] = ['t'] + rng.sample(names, rng.randrange(len(names)))
    j['calls'] = [[[rand_value(rng, 1) for _ in range(rng.randrange(4))],
                   [[k, rand_value(rng, 1)] for k in rng.sample(names, rng.randrange(min(3, len(names))))]] for _ in range(3)]
    return j


class Boom(BaseException):
    pass


def check(j):
    from whatami import whatable, is_whatable, What
    f, chain = C12.build(j)
    base = chain[0]
    base.__doc__ = 'documentation of f'
    base.marker = ['m']
    calls = []

    def run(c, pos, kw):
        try:
            return ('returns', c(*pos, **kw))
        except (TypeError, Boom) as e:
            return ('raises', type(e), str(e) if isinstance(e, Boom) else None)
    opts = {k: dec(v) for k, v in j['opts'].items()}
    if j['inplace']:
        opts['modify_func_inplace'] = True
    try:
        want = call_binding(f)
    except ValueError:
        ok(raises(lambda: whatable(f, **opts), ValueError) is not None, 'an invalid binding was accepted')
        return
    before = [dict(vars(c)) for c in chain]
    if j['deco'] == 2 and not inspect.isfunction(f):
        return      # decorating twice is only supported for functions
    g = [lambda: whatable(f, **opts), lambda: whatable(**opts)(f), lambda: whatable(whatable(f, **opts), **opts),
         lambda: whatable(obj=f, **opts)][j['deco']]()
    if j['inplace']:
        ok(g is f, 'another function was returned, not the one to modify')
    else:
        ok(g is not f, 'the original was returned')
        ok([dict(vars(c)) for c in chain] == before and not hasattr(f, 'what'), 'the original was modified')
    ok(inspect.isfunction(g) or j['inplace'], 'the result is not a function')
    if inspect.isfunction(f):
        ok((g.__name__, g.__doc__, g.__module__, g.marker) == (f.__name__, 'documentation of f', f.__module__, f.marker), 'name or documentation lost: %r %r',
           g.__name__, g.__doc__)
    else:
        ok(g.__doc__ == f.__doc__, 'documentation lost')
    for pos, kw in j['calls']:
        pos, kw = [dec(p) for p in pos], {str(k): dec(v) for k, v in kw}
        a, b = run(f, pos, kw), run(g, pos, kw)
        ok(a[0] == b[0] and a[1:2] == b[1:2] if a[0] == 'raises' else (b[0] == 'returns' and set(a[1]) == set(b[1]) and all(
            a[1][k] is b[1][k] or k in ('args', 'kwargs') and a[1][k] == b[1][k] for k in a[1])), 'called with %r %r it %r instead of %r', pos, kw, b, a)
    ok(is_whatable(g), 'it is not whatable')
    nonids = set(opts.get('excludes', ('what',)) or ()) | set(opts.get('non_id_keys') or ())
    for _ in range(3):
        w = g.what()
        ok(type(w) is What and w.name == want[0] and w.out_name is None and set(w.conf) == set(want[1]) and all(
            w.conf[k] is want[1][k] for k in want[1]), 'the configuration is %r, should be %r', w, want)
        ok(w.non_id_keys == nonids, 'the non-id keys are %r, should be %r', w.non_id_keys, nonids)
        ok(w.id() == What(want[0], want[1], nonids).id(), 'the id is %r', w.id())
        w.conf.clear()
        w.conf['other'] = 1
        w.non_id_keys.update(['q', 'x'])
        w.name = 'changed'
    # results and exceptions are the same objects
    o = object()
    e = Boom('boom')
    ok(whatable(lambda: o)() is o, 'it does not return what the original returns')

    def failing():
        raise e
    ok(raises(whatable(failing), Boom) is e, 'it does not raise what the original raises')
    # arguments with the names that whatami uses itself reach the function
    def anything(*a, **k):
        return a, k
    names = [n for n in inspect.signature(whatable).parameters] + ['self', 'func', 'f', 'args', 'kwargs', 'what', 'name', 'conf', 'a', 'k']
    same = whatable(anything)
    ok(same(1, None, **{n: n for n in names}) == ((1, None), {n: n for n in names}), 'arguments do not reach the function')
    ok(all(same(**{n: None}) == ((), {n: None}) for n in names), 'arguments do not reach the function')
    # custom what function
    seen = []

    def custom(c):
        seen.append(c)
        return What('custom', {'n': len(seen)})
    f2, _ = C12.build(j)
    h = whatable(f2, whatfunc=custom, **opts) if j['deco'] % 2 else whatable(whatfunc=custom, **opts)(f2)
    ok(h.what().id() == 'custom(n=1)' and h.what().id() == 'custom(n=2)' and all(s is h for s in seen), 'the custom function is not used')
    ok((h is f2) == j['inplace'] and (j['inplace'] or not hasattr(f2, 'what')), 'the original was modified')


def shrink(j):
    for k in list(j['opts']):
        yield dict(j, opts={x: v for x, v in j['opts'].items() if x != k})
    for i in range(len(j['calls'])):
        yield dict(j, calls=j['calls'][:i] + j['calls'][i + 1:])
    for s in C12.shrink(j):
        yield s
