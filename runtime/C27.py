# coding=utf-8
"""Call dictionaries"""
from .common import *

RULE = 'generated functions with all kinds of parameters, local variables, reassigned parameters and depths of call, with all options, compared ' \
       'with the values they were called with'
N = 2500


def table():
    for va in (0, 1):
        for vk in (0, 1):
            for depth in (None, 1, 2, 3):
                base = {'params': ['self', 'x', 'y'], 'ndef': 1, 'va': va, 'vk': vk, 'depth': depth, 'opts': {}, 'over': [], 'pos': [1, 2],
                        'kw': [['q', 5], ['self2', 6]] if vk else [], 'set': [], 'local': ['zz']}
                yield base
                yield dict(base, set=['y'], local=['q2', 'args2'])
                yield dict(base, pos=[1, 2, 3])
                yield dict(base, pos=[1, 2, 3, 4, 5])
                yield dict(base, pos=[1, 2, 3, 4, 5], opts={'ignore_varargs': True})
                yield dict(base, pos=[1, 2, 3, 4, 5], opts={'ignore_varargs': False})
                yield dict(base, opts={'ignores': ['t']})
                yield dict(base, opts={'ignores': ['t', 'x', 'nope']})
                yield dict(base, opts={'ignores': ['l', 'q', 'zz', 'self']})
                yield dict(base, opts={'overrides': ['d', ['x', 'over'], ['self', 'over'], ['new', 1]]})
                yield dict(base, opts={'overrides': ['d', ['x', 'over'], ['new', 1]]}, over=[['x', 'overover'], ['z', 2]])
                yield dict(base, over=[['x', 'overover'], ['self', 2], ['q', 3]])
                yield dict(base, opts={'overrides': ['d']})
                yield dict(base, opts={'overrides': None})
    yield {'params': ['cls', 'self'], 'ndef': 0, 'va': 0, 'vk': 1, 'depth': None, 'opts': {}, 'over': [], 'pos': [1, 2], 'kw': [], 'set': [], 'local': []}
    yield {'params': ['depth', 'overrides', 'ignores'], 'ndef': 3, 'va': 0, 'vk': 1, 'depth': None, 'opts': {}, 'over': [], 'pos': [1, 2],
           'kw': [['ignore_varargs', 3]], 'set': ['ignores'], 'local': []}
    yield {'params': [], 'ndef': 0, 'va': 1, 'vk': 1, 'depth': None, 'opts': {}, 'over': [], 'pos': [], 'kw': [], 'set': [], 'local': ['a', 'b']}


def gen(rng):
    params = rng.sample(['a', 'b', 'c', 'self', 'cls', 'x', 'depth', '_p', 'd_'], rng.randrange(5))
    n = len(params)
    va, vk = int(rng.random() < .4), int(rng.random() < .4)
    opts = {}
    names = params + ['q', 'r', 'nope']
    if rng.random() < .4:
        opts['ignores'] = [rng.choice('lts')] + rng.sample(names, rng.randrange(3))
    if rng.random() < .3:
        opts['ignore_varargs'] = rng.choice([True, False])
    if rng.random() < .3:
        opts['overrides'] = rng.choice([None, ['d'] + [[k, rand_value(rng, 1)] for k in rng.sample(names, rng.randrange(3))]])
    over = [[k, rand_value(rng, 1)] for k in rng.sample([x for x in names if x != 'depth'], rng.randrange(3))] if rng.random() < .3 else []
    return {'params': params, 'ndef': rng.randrange(n + 1), 'va': va, 'vk': vk, 'depth': rng.choice([None, None, 1, 2, 3]), 'opts': opts, 'over': over,
            'pos': [rand_value(rng, 1) for _ in range(rng.randrange(n, n + 3) if va else n)],
            'kw': [[k, rand_value(rng, 1)] for k in rng.sample(['q', 'r', 's'], rng.randrange(3))] if vk else [],
            'set': rng.sample(params, rng.randrange(n + 1)) if rng.random() < .5 else [], 'local': rng.sample(['l1', 'l2', 'q', 'k'], rng.randrange(3))}


def check(j):
    from whatami.misc import call_dict
    from whatami.whatutils import call2what
    depth = j['depth']
    params = j['params']
    n, nd = len(params), j['ndef']
    ps = [p if i < n - nd else '%s=D[%d]' % (p, i) for i, p in enumerate(params)] + ['*V'] * j['va'] + ['**K'] * j['vk']
    lines = ['def caller(%s):' % ', '.join(ps)]
    lines += ['    %s = NEW[%d]' % (p, i) for i, p in enumerate(j['set'])]
    local = [l for l in j['local'] if l not in params]
    lines += ['    %s = LOCAL[%d]' % (p, i) for i, p in enumerate(local)]
    lines += ['    return GO%d()' % (depth or 1)]
    new, loc, dflt = [object() for _ in j['set']], [object() for _ in local], [object() for _ in params]
    kw = {k: dec(v) for k, v in j['opts'].items()}
    if 'ignores' not in j['opts']:
        kw.pop('ignores', None)
    over = {str(k): dec(v) for k, v in j['over']}
    for k in over:
        if k in ('depth', 'ignores', 'ignore_varargs', 'overrides'):
            return
    if depth is not None:
        kw['depth'] = depth
    ns = dict(D=dflt, NEW=new, LOCAL=loc, call_dict=call_dict, OPTS=dict(kw, **over), call2what=call2what)
    src = '\n'.join(lines)
    src = src.replace('GO1()', 'call_dict(**OPTS)')
    exec('def GO2():\n    other = 1\n    return call_dict(**OPTS)\ndef GO3(x=7, *args):\n    return GO2()\n', ns)
    exec(src, ns)
    pos, kws = [dec(p) for p in j['pos']], {str(k): dec(v) for k, v in j['kw']}
    try:
        ns['caller'](*pos, **kws) if False else None
        bound = dict(zip(params, pos))
        if len(pos) > n and not j['va']:
            return
    except TypeError:
        return
    for i, p in enumerate(params):
        if p not in bound:
            if i < n - nd:
                return
            bound[p] = dflt[i]
    if set(kws) & set(params):
        return
    bound.update(zip(j['set'], new))
    extra = pos[n:]
    osrc = snapshot(kw.get('overrides'))
    try:
        got = ns['caller'](*pos, **kws)
    except ValueError as e:
        ok(bool(extra) and not kw.get('ignore_varargs'), 'ValueError without variable arguments: %s', e)
        return
    ok(not extra or kw.get('ignore_varargs'), 'variable arguments were accepted: %r', got)
    want = {p: v for p, v in bound.items() if p not in kw.get('ignores', ('cls', 'self'))}
    want.update(kws)
    want.update(kw.get('overrides') or {})
    want.update(over)
    ok(type(got) is dict and set(got) == set(want), 'the parameters are %r, should be %r', sorted(got), sorted(want))
    for k in want:
        ok(got[k] is want[k], '%s is %r, should be %r', k, got[k], want[k])
    ok(snapshot(kw.get('overrides')) == osrc, 'the overrides were modified')
    # call2what
    src = '\n'.join(lines).replace('GO%d()' % (depth or 1), 'call2what()')
    exec(src, ns)
    w = ns['caller'](*pos, **kws)
    want = dict(bound)
    want.update(zip(local, loc))
    if j['va']:
        want['V'] = tuple(extra)
    if j['vk']:
        want['K'] = kws
    ok(w.name == 'caller' and w.out_name is None and w.non_id_keys == set(), 'the configuration of the call is %r', w)
    ok(set(w.conf) == set(want) and all(w.conf[k] is want[k] or w.conf[k] == want[k] for k in want), 'the configuration has %r, should have %r',
       w.conf, want)
    ns['G'] = lambda: call2what(depth=2, non_id_keys=['a', 'l1'])
    exec('\n'.join(lines).replace('GO%d()' % (depth or 1), 'G()'), ns)
    w = ns['caller'](*pos, **kws)
    ok(w.name == 'caller' and w.non_id_keys == {'a', 'l1'} and set(w.conf) == set(want), 'the configuration of the call is %r', w)


def shrink(j):
    for k in list(j['opts']):
        yield dict(j, opts={x: v for x, v in j['opts'].items() if x != k})
    for g in ('over', 'kw', 'set', 'local'):
        for i in range(len(j[g])):
            yield dict(j, **{g: j[g][:i] + j[g][i + 1:]})
