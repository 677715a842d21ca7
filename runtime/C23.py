# coding=utf-8
"""Matching templates"""
from .common import *
from .C08 import flat

RULE = 'families of ids obtained from a template by changing names, values, keys and nested configurations, matched with all kinds of ' \
       'ignored keys and options, compared with a reference comparison of flattened keys'
N = 1500


def table():
    t = "A(x='x',y=B(x='yx',z=C(w=[1,2],v=1)),l=[1,{'k':2}])"
    others = [t, "NotA(x='x',y=B(x='yx',z=C(w=[1,2],v=1)),l=[1,{'k':2}])", "A(x='notx',y=B(x='yx',z=C(w=[1,2],v=1)),l=[1,{'k':2}])",
              "A(x='x',y=B(x='notyx',z=C(w=[1,2],v=1)),l=[1,{'k':2}])", "A(x='x',y=NotB(x='yx',z=C(w=[1,2],v=1)),l=[1,{'k':2}])",
              "A(x='x',y=o=B(x='yx',z=C(w=[1,2],v=1)),l=[1,{'k':2}])", "A(x='x',y=B(x='yx',z=C(w=[1,3],v=1)),l=[1,{'k':2}])",
              "A(x='x',y=B(x='yx',z=C(w=[1,2],v=2)),l=[1,{'k':2}])", "A(x='x',y=B(x='yx',z=C(w=[1,2],v=1)),l=[1,{'k':3}])",
              "A(x='x',y=B(x='yx',z=D(w=[1,2],v=1)),l=[1,{'k':2}])", "A(x='x',y=B(x='yx',z=C(w=[1,2])),l=[1,{'k':2}])",
              "A(x='x',y=B(x='yx',z=C(w=[1,2],v=1)),l=[1,{'k':2}],q=1)", "A(x='x',y=1,l=[1,{'k':2}])", "A(x='x',l=[1,{'k':2}])",
              "A()", "A(l=[1,{'k':2}],y=B(z=C(v=1,w=[1,2]),x='yx'),x='x')", t, "A(x='other',y=B(x='other',z=C(w=None,v=None)),l=0)",
              "A(x='x',y=Q(),l=[1,{'k':2}])", "A(x=B(x='yx',z=C(w=[1,2],v=1)),y='x',l=[1,{'k':2}])"]
    for ign in ([], ['x'], ['y'], [['t', 'y', 'x']], [['t', 'y', 'z']], [['t', 'y', 'z', 'v']], ['x', ['t', 'y', 'z', 'w'], 'l'],
                ['z'], ['nope'], [['t', 'l', 0]], [['t', 'l', 1]], [['t', 'l', 1, 'k']], ['x', 'y', 'l'], ['l']):
        for opts in ({}, {'collections_too': True}, {'recursive': False}, {'non_ids_too': True}, {'collections_too': True, 'recursive': False}):
            yield {'ids': others, 'template': t, 'ignored': ign, 'opts': opts, 'kind': 'lt'[len(ign) % 2]}
    yield {'ids': others, 'template': 'A()', 'ignored': [], 'opts': {}, 'kind': 't'}
    yield {'ids': [], 'template': 'A()', 'ignored': ['x'], 'opts': {}, 'kind': 't'}


def gen(rng):
    w = rand_what(rng, 3, quotes=False, nan=False)
    from .C10 import mutate
    ids = [dec(w).id()]
    for _ in range(rng.randrange(6)):
        m = json.loads(json.dumps(w))
        for _ in range(rng.choice([0, 1, 1, 2])):
            mutate(m, rng)
        m[3] = None
        try:
            ids.append(dec(strip(m)).id())
        except TypeError:
            pass
    try:
        keys = [k for k, _ in flat(dec(w), True, True, True)]
    except TypeError:       # keys that cannot be sorted
        keys = [(k,) for k, _ in w[2]]
    ign = []
    for _ in range(rng.randrange(3)):
        k = list(rng.choice(keys)) if keys and rng.random() < .9 else [rand_id(rng)]
        k = [x for x in k if isinstance(x, (str, int))]
        if not k:
            continue
        ign.append(k[0] if len(k) == 1 else ['t'] + k)
    rng.shuffle(ids)
    return {'ids': ids, 'template': rng.choice(ids), 'ignored': ign, 'opts': {k: True for k in ('collections_too',) if rng.random() < .3},
            'kind': rng.choice('lts')}


def strip(m):
    """no quotes in strings"""
    return json.loads(json.dumps(m).replace("'", ''))


def check(j):
    from whatami import parse_whatid, What
    from whatami.whatutils import match_whatids
    ignored = [dec(k) for k in j['ignored']]
    ignored = {'l': list, 't': tuple, 's': set}[j['kind']](ignored)
    o = dict(j['opts'])
    norm = {k if isinstance(k, tuple) else (k,) for k in ignored}
    norm = {k for k in norm if not (len(k) == 1 and k in set(ignored))} | {(k,) for k in ignored if not isinstance(k, tuple)}
    try:
        whats = [parse_whatid(i) for i in j['ids']]
        template = parse_whatid(j['template'])
        for w in whats + [template]:
            flat(w, True, True, True)
    except Exception:
        return      # not in the domain: not ids, or dictionaries whose keys cannot be sorted

    def view(w):
        f = flat(w, o.get('non_ids_too', False), o.get('collections_too', False), o.get('recursive', True))
        keys = [k for k, _ in f]
        vals = [((v.name, v.out_name) if isinstance(v, What) else v) for k, v in f
                if not any(k[:n] in norm for n in range(1, len(k) + 1))]
        return w.name, keys, vals
    want = [i for i, w in zip(j['ids'], whats) if view(w) == view(template)]
    src = list(j['ids'])
    got = match_whatids(src, j['template'], ignored_keys=ignored, **o)
    ok(got == want and isinstance(got, list), 'matching %r are %r, should be %r', j['template'], got, want)
    ok(src == j['ids'], 'the input was modified')
    ok(match_whatids(iter(src), j['template'], ignored_keys=ignored, **o) == want, 'iterators of ids give another result')
    ok(match_whatids([j['template']], j['template'], ignored_keys=ignored, **o) == [j['template']], 'the template does not match itself')
    ok(match_whatids(tuple(src), j['template']) == [i for i, w in zip(j['ids'], whats) if eq0(w, template)], 'without ignored keys: %r',
       match_whatids(tuple(src), j['template']))


def eq0(a, b):
    from whatami import What

    def view(w):
        f = flat(w, False, False, True)
        return w.name, [k for k, _ in f], [(v.name, v.out_name) if isinstance(v, What) else v for _, v in f]
    return view(a) == view(b)


def shrink(j):
    for i in range(len(j['ids'])):
        yield dict(j, ids=j['ids'][:i] + j['ids'][i + 1:])
    for i in range(len(j['ignored'])):
        yield dict(j, ignored=j['ignored'][:i] + j['ignored'][i + 1:])
