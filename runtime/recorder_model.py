# coding=utf-8
"""Sequences of operations on a Recorder against a reference model"""
from collections import OrderedDict, defaultdict
from functools import partial

from .common import *

VALUES = {'int': 7, 'str': 'abc', 'none': None, 'list': [1, 2, 3], 'short': [5], 'long': [9, 8, 7, 6, 5, 4], 'empty': [],
          'tuple': (1, 2), 'dict': {'r1': 1, 'r3': None, '1': 'one', 'extra': 2}, 'dict2': {'r2': [1, 2]}, 'edict': {},
          'false': False, 'zero': 0, 'estr': '', 'odict': OrderedDict([('r3', 'three'), ('r1', [1])]),
          'ddict': defaultdict(list, {'r2': 2, 'r1': None})}


def shout(an_id, record, recorder):
    record = dict(record)
    record['shout'] = '%s!' % an_id
    return record


def size(an_id, record, recorder):
    record['size'] = len(recorder)
    return record


def chain_log(an_id, record, recorder):
    record['log'] = record.get('log', '') + 'L'
    return record


def chain_log2(an_id, record, recorder):
    record['log'] = record.get('log', '') + 'M'
    return record


def reject_r3(an_id, record, recorder):
    if an_id in ('r3', '3'):
        raise ValueError('no r3')
    return record


def replace(an_id, record, recorder):
    return {'replaced': an_id}


def blank(an_id, record, recorder):
    return {}


def nothing(an_id, record, recorder):
    return None


POST = {'blank': blank, 'nothing': nothing, 'shout': shout, 'size': size, 'log': chain_log, 'log2': chain_log2, 'reject': reject_r3, 'replace': replace}

EXTRACT = {'str': str, 'none': None, 'upper': lambda x: str(x).upper(), 'const': lambda x: 'const',
           'len': lambda x: len(str(x))}


def iterable(v):
    return isinstance(v, (list, tuple, dict, set))


class Model(object):
    def __init__(self, id_column='id', extract='str', post=(), defaults=None):
        self.records = OrderedDict()
        self.id_column = id_column
        self.extract = EXTRACT[extract]
        self.post = [POST[p] for p in post]
        self.defaults = dict(defaults or {})

    def __len__(self):
        return len(self.records)

    def unique(self, c):
        return {r[c] for r in self.records.values() if c in r}

    def add(self, ids, columns, unbox=True, post=None, override=False):
        if isinstance(ids, str) or not isinstance(ids, (list, tuple)):
            ids = [ids]
        if self.extract is not None:
            ids = [self.extract(i) for i in ids]
        chain = list(self.post)
        if post is not None:
            chain = list(post) if override else chain + list(post)
        new = OrderedDict()
        for pos, an_id in enumerate(ids):
            if an_id in self.records or an_id in new:
                raise Exception('duplicated')
            r = {}
            for c, v in columns.items():
                if isinstance(v, dict):
                    if an_id in v:
                        r[c] = v[an_id]
                elif isinstance(v, str) or not iterable(v) or not unbox:
                    r[c] = v
                else:
                    r[c] = v[pos] if pos < len(v) else None
            if self.id_column in r:
                raise Exception('id column')
            r[self.id_column] = an_id
            for c, v in self.defaults.items():
                r.setdefault(c, v)
            for p in chain:
                r = p(an_id, r, self)
            new[an_id] = r
        self.records.update(new)
        return new


def run(case):
    from whatami.registry import Recorder
    conf, ops = case
    post = [POST[p] for p in conf.get('post', [])]
    defaults = {k: VALUES[v] for k, v in conf.get('defaults', [])}
    given = None if 'post' not in conf else post
    rec = Recorder(name='rec', id_column_name=conf.get('id_column', 'id'), id_extractor=EXTRACT[conf.get('extract', 'str')],
                   record_postprocessors=given, **defaults)
    twin = Recorder(name='twin', record_postprocessors=given, **defaults)
    m = Model(conf.get('id_column', 'id'), conf.get('extract', 'str'), conf.get('post', []), defaults)
    twin_state = (list(post), dict(defaults))
    values_before = repr(sorted(VALUES.items()))

    def state(msg):
        ok(len(rec) == len(m.records), '%s: %d records, should be %d', msg, len(rec), len(m.records))
        ok(list(rec._registry.items()) == list(m.records.items()) if hasattr(rec, '_registry') else True,
           '%s: records are %r, should be %r', msg, list(getattr(rec, '_registry', {}).items()), list(m.records.items()))
        known = list(m.records)
        ok(rec.get(*known) == [m.records[i] for i in known], '%s: get', msg)
        for i in known + ['unknown']:
            want = [m.records[i]] if i in m.records else []
            ok(rec.get(i) == want, '%s: get(%r) is %r, should be %r', msg, i, rec.get(i), want)
            ok(rec[i] == want, '%s: [%r] is %r, should be %r', msg, i, rec[i], want)
        ok(rec.get(*(['unknown'] + known[::-1] + ['unknown2'])) == [m.records[i] for i in known[::-1]], '%s: get order', msg)
        ok(rec.get(*(known + known[:1] + known)) == [m.records[i] for i in known + known[:1] + known], '%s: get of repeated ids', msg)
        ok(rec.column_defaults == m.defaults, '%s: column_defaults are %r, should be %r', msg, rec.column_defaults, m.defaults)
        ok(list(rec.record_postprocessors()) == m.post, '%s: postprocessors are %r, should be %r', msg,
           rec.record_postprocessors(), m.post)
        ok(twin.column_defaults == twin_state[1] and list(twin.record_postprocessors()) == twin_state[0] and len(twin) == 0,
           '%s: another recorder has changed', msg)
        ok(post == twin_state[0], '%s: the list given to the constructor has changed', msg)
        ok(repr(sorted(VALUES.items())) == values_before, '%s: values given to add have changed', msg)
        for c in ('a', 'id', 'shout'):
            try:
                want = {r[c] for r in m.records.values() if c in r}
            except TypeError:
                continue
            ok(rec.unique(c) == want, '%s: unique(%r) is %r, should be %r', msg, c, rec.unique(c), want)
        # what is returned is a copy
        rec.column_defaults['zzz'] = 1
        got = rec.record_postprocessors()
        if isinstance(got, list):
            got.append(None)
        ok(rec.column_defaults == m.defaults and list(rec.record_postprocessors()) == m.post, '%s: the defaults or the '
           'postprocessors of the recorder can be changed by changing the collections it returns', msg)
    state('start')
    for op in ops:
        kind = op[0]
        if kind == 'add':
            ids, columns, kw = dec(op[1]), OrderedDict((k, VALUES[v]) for k, v in op[2]), dict(op[3])
            how = kw.pop('how', 'plain')
            given_ids = (lambda: iter(ids)) if kw.pop('once', False) and isinstance(ids, (list, tuple)) else lambda: ids
            mkw = {}
            if 'unbox' in kw:
                mkw['unbox'] = kw['unbox']
                kw['unbox_iterables'] = kw.pop('unbox')
            if 'post' in kw:
                mkw['post'] = [POST[p] for p in kw.pop('post')]
                kw['record_postprocessors'] = list(mkw['post'])
            if 'override' in kw:
                mkw['override'] = kw['override']
                kw['override_postprocessors'] = kw.pop('override')
            try:
                want = m.add(ids, columns, **mkw)
            except Exception:
                want = None

            def call():
                if how == 'curry':
                    f = rec.add
                    for k, v in list(columns.items()) + list(kw.items()):
                        f = f(**{k: v})
                    return f(given_ids())
                if how == 'padd':
                    f = rec.padd()
                    for k, v in list(columns.items()) + list(kw.items()):
                        f = rec.padd(add=f, **{k: v})
                    return f(given_ids())
                a = dict(columns)
                a.update(kw)
                return rec.add(given_ids(), **a)
            if want is None:
                e = raises(call)
                ok(e is not None, 'add(%r, %r, %r) must be rejected', ids, dict(columns), op[3])
            else:
                got = call()
                ok(list(got.items()) == list(want.items()), 'add(%r, %r, %r) gives %r, should be %r', ids, dict(columns), op[3],
                   got, want)
                if 'record_postprocessors' in kw:
                    ok(kw['record_postprocessors'] == mkw['post'], 'the list of postprocessors given to add has changed')
        elif kind == 'defaults':
            d = {k: VALUES[v] for k, v in op[1]}
            m.defaults.update(d)
            rec.add_column_defaults(**d)
        elif kind == 'nodefaults':
            for c in op[1]:
                m.defaults.pop(c, None)
            rec.remove_column_defaults(*op[1])
        elif kind == 'addpost':
            ps = [POST[p] for p in op[1]]
            m.post = m.post + ps
            rec.add_record_postprocessors(*ps)
        elif kind == 'override':
            ps = [POST[p] for p in op[1]]
            m.post = ps
            rec.override_record_postprocessors(*ps)
        state(repr(op))


COLS = ['a', 'b', 'c', 'id', 'nif', 'who']


def rand_ids(rng):
    k = rng.random()
    base = ['r1', 'r2', 'r3', 'r4', 'r5', 'r6']
    if k < .3:
        return rng.choice(base)
    if k < .35:
        return rng.choice([1, 2, 3, None])
    n = rng.randrange(0, 5)
    if k < .8:
        return [rng.choice('lt')] + rng.sample(base, n)
    if k < .9:
        return ['l'] + [rng.choice(base) for _ in range(n)]
    return ['l'] + [rng.choice([1, 2, 3, '1', 'r1', 10]) for _ in range(n)]


def rand_add(rng):
    cols = [[c, rng.choice(sorted(VALUES))] for c in rng.sample(COLS if rng.random() < .2 else ['a', 'b', 'who'],
                                                                rng.randrange(0, 3))]
    kw = []
    if rng.random() < .4:
        kw.append(['unbox', rng.random() < .5])
    if rng.random() < .3:
        kw.append(['post', [rng.choice(sorted(POST)) for _ in range(rng.randrange(3))]])
    if rng.random() < .3:
        kw.append(['override', rng.random() < .6])
    if rng.random() < .25:
        kw.append(['how', rng.choice(['curry', 'padd'])])
    if rng.random() < .2:
        kw.append(['once', True])
    return ['add', rand_ids(rng), cols, kw]


def rand_conf(rng):
    conf = {}
    if rng.random() < .25:
        conf['id_column'] = rng.choice(['nif', 'a'])
    if rng.random() < .3:
        conf['extract'] = rng.choice(sorted(EXTRACT))
    if rng.random() < .5:
        conf['post'] = [rng.choice(sorted(POST)) for _ in range(rng.randrange(3))]
    if rng.random() < .5:
        conf['defaults'] = [[c, rng.choice(sorted(VALUES))] for c in rng.sample(['a', 'who', 'date', 'id'], rng.randrange(1, 3))]
    return conf


def rand_case(rng, config=.3):
    ops = []
    for _ in range(rng.randrange(1, 7)):
        if rng.random() > config:
            ops.append(rand_add(rng))
        else:
            k = rng.randrange(4)
            if k == 0:
                ops.append(['defaults', [[c, rng.choice(sorted(VALUES))] for c in rng.sample(['a', 'who', 'date'],
                                                                                             rng.randrange(1, 3))]])
            elif k == 1:
                ops.append(['nodefaults', rng.sample(['a', 'who', 'date', 'zz'], rng.randrange(0, 4))])
            else:
                ops.append([['addpost', 'override'][k - 2], [rng.choice(sorted(POST)) for _ in range(rng.randrange(3))]])
    return [rand_conf(rng), ops]


def shrink(case):
    conf, ops = case
    for i in range(len(ops)):
        yield [conf, ops[:i] + ops[i + 1:]]
    for k in conf:
        yield [{a: b for a, b in conf.items() if a != k}, ops]
    for i, op in enumerate(ops):
        if op[0] == 'add':
            for j in range(len(op[2])):
                yield [conf, ops[:i] + [['add', op[1], op[2][:j] + op[2][j + 1:], op[3]]] + ops[i + 1:]]
            for j in range(len(op[3])):
                yield [conf, ops[:i] + [['add', op[1], op[2], op[3][:j] + op[3][j + 1:]]] + ops[i + 1:]]
