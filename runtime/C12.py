# coding=utf-8
"""Parameters known for functions, partials and curried functions"""
import inspect
import itertools
from .common import *
from .ref import call_binding, conf_id

RULE = 'all nestings of partials and curried functions over generated signatures (valid and invalid bindings), compared with a reference ' \
       'binding and with the values the function finds when it is called'
N = 4000


def make(params, ndefaults, varargs, varkw, lam=False, name='f'):
    ps = [p if i < len(params) - ndefaults else '%s=D[%d]' % (p, i) for i, p in enumerate(params)]
    ps += ['*args'] * varargs + ['**kwargs'] * varkw
    ns = {'D': ['default of %s' % p for p in params]}
    if lam:
        return eval('lambda %s: locals()' % ', '.join(ps), ns)
    exec('def %s(%s): return locals()' % (name, ', '.join(ps)), ns)
    return ns[name]


def build(j):
    f = make(*j['sig'])
    chain = [f]
    from functools import partial
    from toolz import curry
    for kind, pos, kw in j['layers']:
        f = (partial if kind == 'partial' else curry)(f, *[dec(p) for p in pos], **{str(k): dec(v) for k, v in kw})
        chain.append(f)
    return f, chain


def table():
    sigs = [[['x', 'y', 'z'][:n], d, va, vk, lam] for n in range(4) for d in range(n + 1) for va in (0, 1) for vk in (0, 1)
            for lam in (False, True)]
    for s in sigs:
        yield {'sig': s, 'layers': []}
        yield {'sig': s, 'layers': [['partial', [], []]]}
        yield {'sig': s, 'layers': [['curry', [], []]]}
        for n in range(1, 5):
            yield {'sig': s, 'layers': [['partial', list(range(n)), []]]}
        for k in ('x', 'y', 'z', 'q'):
            yield {'sig': s, 'layers': [['partial', [], [[k, 'kw']]]]}
            yield {'sig': s, 'layers': [['partial', [5], [[k, 'kw']]]]}
            yield {'sig': s, 'layers': [['partial', [], [[k, 'inner']]], ['partial', [], [[k, 'outer']]]]}
            yield {'sig': s, 'layers': [['partial', [], [[k, 'inner']]], ['curry', [], [[k, 'outer']]], ['partial', [], [[k, None]]]]}
    for ks in itertools.product(('partial', 'curry'), repeat=3):
        yield {'sig': [['a', 'b', 'c', 'd'], 0, 0, 0, False], 'layers': [[k, [i], []] for i, k in enumerate(ks)]}
        yield {'sig': [['a', 'b', 'c', 'd', 'e'], 2, 0, 0, False], 'layers': [[k, [i], [['e', i]]] for i, k in enumerate(ks)]}


def gen(rng):
    n = rng.randrange(6)
    params = rng.sample(['a', 'b', 'c', 'x', '_y', 'z_', 'what', 'A', 'self', 'f'], n)
    d = rng.randrange(n + 1)
    layers = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
        pos = [rand_value(rng, 1) for _ in range(rng.choice([0, 0, 0, 1, 1, 2]))]
        names = (params + ['q']) if rng.random() < .15 else params
        kw = [[k, rand_value(rng, 1)] for k in rng.sample(names, min(len(names), rng.choice([0, 0, 1, 2])))]
        kw = [kv for kv in kw if kv[0] not in ('func', 'self')]
        if not pos or rng.random() < .8:
            layers.append([rng.choice(['partial', 'partial', 'curry']), pos, kw])
    return {'sig': [params, d, int(rng.random() < .2), int(rng.random() < .2), rng.random() < .2], 'layers': layers}


def check(j):
    from whatami import callable2call, whatareyou, What
    from whatami.plugins import WhatamiPluginManager as W
    try:
        c, chain = build(j)
    except TypeError:       # toolz evaluates curried functions at once if ... or rejects the binding
        return
    before = [(id(x), getattr(x, 'args', None), dict(getattr(x, 'keywords', None) or {}), vars(x) if inspect.isfunction(x) else None)
              for x in chain]
    try:
        name, want = call_binding(c)
    except ValueError:
        e = raises(lambda: callable2call(c), ValueError)
        ok(e is not None, 'the binding was not rejected: %r', c)
        ok(raises(lambda: W.build_string(c), ValueError) is not None, 'an id was given to an invalid binding: %r', c)
        return
    got = callable2call(c)
    ok(isinstance(got, tuple) and len(got) == 2, 'callable2call gives %r', got)
    ok(got[0] == name, 'the name is %r, should be %r', got[0], name)
    ok(set(got[1]) == set(want) and all(got[1][k] is want[k] for k in want), 'the parameters are %r, should be %r', got[1], want)
    # the function agrees
    f = chain[0]
    params = f.__code__.co_varnames[:f.__code__.co_argcount]
    missing = {p: 'missing' for p in params if p not in want}
    target = c
    from functools import partial
    while not inspect.isfunction(target):
        target = target.func
    bound = call_all(c, missing)
    for k in want:
        ok(bound[k] is want[k], 'calling finds %s=%r, reported %r', k, bound[k], want[k])
    w = whatareyou(c)
    trimmed = {k: v for k, v in want.items() if not k.startswith('_') and not k.endswith('_') and k != 'what'}
    ok(w.name == name and set(w.conf) == set(trimmed) and all(w.conf[k] is trimmed[k] for k in trimmed), 'whatareyou gives %r', w)
    s = W.build_string(c)
    ok(s == conf_id(name, want), 'the id is %r, should be %r', s, conf_id(name, want))
    ok(What('N', {'f': c}).id() == 'N(f=%s)' % s, 'nested id %r', What('N', {'f': c}).id())
    if c is f:
        from whatami import whatable
        deco = f
        for n in range(1, 5):
            deco = whatable(deco)
            w = deco.what()
            ok(w.name == name and set(w.conf) == set(want) and all(w.conf[k] is want[k] for k in want),
               'made whatable %d times, the configuration is %r', n, w)
    got[1]['new'] = 1
    ok('new' not in callable2call(c)[1], 'the dictionary returned is shared')
    ok([(id(x), getattr(x, 'args', None), dict(getattr(x, 'keywords', None) or {}), vars(x) if inspect.isfunction(x) else None)
        for x in chain] == before, 'the callable was modified')


def call_all(c, missing):
    from functools import partial
    pos, kw = [], {}
    while not inspect.isfunction(c):
        pos = list(c.args) + pos
        kw = dict(c.keywords or {}, **kw)
        c = c.func
    return c(*pos, **dict(kw, **missing))


def shrink(j):
    for i in range(len(j['layers'])):
        k, pos, kw = j['layers'][i]
        yield dict(j, layers=j['layers'][:i] + j['layers'][i + 1:])
        if pos:
            yield dict(j, layers=j['layers'][:i] + [[k, pos[1:], kw]] + j['layers'][i + 1:])
        if kw:
            yield dict(j, layers=j['layers'][:i] + [[k, pos, kw[1:]]] + j['layers'][i + 1:])
