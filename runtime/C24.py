# coding=utf-8
"""Columns extracted from ids"""
from .common import *
from .C08 import flat

RULE = 'dataframes of ids (with repetitions, other columns and odd indices), with requested columns present in some, all or no ids, nested ' \
       'or not, compared with the lookup of each row'
N = 250


def table():
    ids = ["A(x=1,y=B(x='q',z=C(k=None)))", "A(x=2,y=3)", "A(x=1,y=B(x='q',z=C(k=None)))", "B()", "o=A(w=(1,2),y=B(x='r'))", "A(x='s',v=True)"]
    for cols in (None, [], ['x'], ['y', 'x'], [['t', 'y', 'x']], [['l', 'y', 'x']], ['nope'], [['t', 'y', 'nope']], [['t', 'x', 'x']],
                 [['t', 'y', 'z', 'k'], 'v', ['t', 'y', 'z']], [['t', 'nope', 'x'], 'w']):
        for pre, post in (('', ''), (None, None), ('p_', ''), ('', '_q'), ('p', 'q'), (None, 'q')):
            yield {'ids': ids, 'columns': cols, 'prefix': pre, 'postfix': post, 'inplace': pre != 'p', 'index': None}
        yield {'ids': ids, 'columns': cols, 'prefix': 'p', 'postfix': '', 'inplace': None, 'index': [5, 5, 1, 0, 2, 9]}
        yield {'ids': ids[:1], 'columns': cols, 'prefix': 'p', 'postfix': '', 'inplace': False, 'index': ['z']}
    yield {'ids': ["A(x=None)", "A(x=None)"], 'columns': None, 'prefix': '', 'postfix': '', 'inplace': True, 'index': None}
    yield {'ids': ["A(ids=1,y=2)", "A(y=3)"], 'columns': ['ids', 'y', 'ids'], 'prefix': '', 'postfix': '', 'inplace': False, 'index': None}
    yield {'ids': ["A(ids=1,other=2)"], 'columns': ['other'], 'prefix': 'n_', 'postfix': '', 'inplace': True, 'index': None}


def gen(rng):
    ids = []
    for _ in range(rng.randrange(1, 5)):
        ids.append(dec(rand_what(rng, 2, quotes=False, nan=False)).id())
    ids = [rng.choice(ids) for _ in range(rng.randrange(1, 7))]
    from whatami import parse_whatid
    keys = sorted({k for i in ids for k, _ in flat(parse_whatid(i), False, False, True)}, key=repr)
    cols = None
    if rng.random() < .7:
        cols = [k[0] if len(k) == 1 else [rng.choice('lt')] + list(k) for k in rng.sample(keys, min(len(keys), rng.randrange(4)))]
        cols += [rng.choice(['nope', ['t', 'x', 'nope'], 'x'])] * (rng.random() < .4)
    return {'ids': ids, 'columns': cols, 'prefix': rng.choice(['', None, 'p_']), 'postfix': rng.choice(['', None, '_q']),
            'inplace': rng.choice([True, False, None]), 'index': rng.choice([None, list(range(10, 10 + len(ids)))])}


def check(j):
    import pandas as pd
    from whatami import parse_whatid
    from whatami.whatutils import whatid2columns
    ids = j['ids']
    whats = [parse_whatid(i) for i in ids]
    df = pd.DataFrame({'ids': ids, 'other': [object() for _ in ids], 'n': list(range(len(ids)))}, index=j['index'])
    old_columns, old = list(df.columns), {c: list(df[c]) for c in df.columns}
    old_index = list(df.index)
    columns = None if j['columns'] is None else [dec(c) for c in j['columns']]
    src = None if columns is None else [list(c) if isinstance(c, list) else c for c in columns]
    if columns is None:
        keys = {k for w in whats for k, _ in flat(w, False, False, True)}
    else:
        keys = [(k,) if not isinstance(k, (tuple, list)) else tuple(k) for k in columns]
    kw = {} if j['inplace'] is None else {'inplace': j['inplace']}
    if j['prefix'] != '':
        kw['prefix'] = j['prefix']
    if j['postfix'] != '':
        kw['postfix'] = j['postfix']
    got = whatid2columns(df, 'ids', columns=columns, **kw) if columns is not None else whatid2columns(df, 'ids', **kw)
    ok(src == columns, 'the requested columns were modified: %r', columns)
    if j['inplace'] is False:
        ok(got is not df and list(df.columns) == old_columns, 'the dataframe was modified')
    else:
        ok(got is df, 'another dataframe was returned')
    new = {}
    for k in keys:
        new.setdefault((j['prefix'] or '') + '_'.join(map(str, k)) + (j['postfix'] or ''), []).append(k)
    ok(set(got.columns) == set(old_columns) | set(new) and len(got.columns) == len(set(got.columns)), 'columns are %r, should add %r',
       list(got.columns), sorted(new))
    ok(list(got.columns)[:3] == old_columns, 'the order of the columns changed: %r', list(got.columns))
    ok(list(got.index) == old_index, 'rows are %r', list(got.index))
    for c in old_columns:
        if c not in new:
            ok(all(a is b or a == b for a, b in zip(got[c], old[c])), 'column %r changed', c)
    for name, ks in new.items():
        if len(ks) > 1:
            continue        # two keys with the same column name
        for row, (w, v) in enumerate(zip(whats, list(got[name]))):
            want = lookup(w, ks[0])
            if want is None:
                ok(v is None or v != v, 'row %d of %r is %r, should be None', row, name, v)
            else:
                ok(type(v) is type(want) and v == want or (isinstance(want, (int, float)) and v == want) or strict_eq(v, want),
                   'row %d of %r is %r, should be %r', row, name, v, want)


def lookup(w, key):
    from whatami import What
    for k in key:
        if not isinstance(w, What) or k not in w.conf:
            return None
        w = w.conf[k]
    return w


def shrink(j):
    for i in range(len(j['ids'])):
        if len(j['ids']) > 1 and j['index'] is None:
            yield dict(j, ids=j['ids'][:i] + j['ids'][i + 1:])
    for i in range(len(j['columns'] or [])):
        yield dict(j, columns=j['columns'][:i] + j['columns'][i + 1:])
