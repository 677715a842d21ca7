# coding=utf-8
"""Copies, set and whatadd: histories of operations over configurations, against a model with explicit sharing"""
from .common import *

RULE = 'sequences of copies (deep or not), sets, whatadds and direct modifications over configurations; every configuration must have ' \
       'exactly the parameters, names and non-id keys that the model predicts'
N = 2500


def table():
    base = ['what', 'N', [['a', 1], ['l', ['l', 1, ['l', 2]]], ['w', ['what', 'I', [['x', ['l', 1]]], ['x'], 'q']], ['d', ['d', ['k', 1]]]],
            ['a'], 'o']
    yield {'what': base, 'ops': [['copy', 0, False], ['copy', 0, True], ['set', 1, 'a', 7, False], ['set', 2, 'a', 8, True],
                                 ['nonid', 1, 'l'], ['nonid', 2, 'z'], ['append', 2, 'l'], ['append', 1, 'l'], ['nonid', 0, 'y'],
                                 ['add', 0, 'n', [1, 'x', ['l', 1]]], ['add', 0, 'a', [1]], ['add', 1, 'n', []], ['rename', 1, 'M', 'oo'],
                                 ['setattr', 2, 'conf'], ['nested', 2]]}
    for out in (None, '', 'o'):
        for ni in (None, [], ['a', 'zz']):
            w = ['what', 'N', [['a', 1], ['b', ['l']]], ni, out]
            yield {'what': w, 'ops': [['copy', 0, False], ['copy', 0, True], ['nonid', 1, 'b'], ['nonid', 2, 'c'], ['append', 2, 'b'],
                                      ['set', 0, 'b', 1, False], ['set', 0, 'c', 1, True], ['set', 0, 'c', None, False]]}
            yield {'what': w, 'ops': [['add', 0, 'k', [3, None, 'x', ['what', 'q', [], None, None]]], ['add', 0, 'a', [3]]]}
            yield {'what': w, 'ops': [['add', 0, 'b', []], ['add', 0, 'zz', [3, 4]], ['add', 0, 'zz', [5]]]}


def gen(rng):
    w = rich_what(rng, 2, 3)
    ops, n = [], 1
    keys = [k for k, _ in w[2]] + ['a', 'zz', 'new']
    for _ in range(rng.randrange(1, 9)):
        t = rng.choice(['copy', 'copy', 'set', 'set', 'nonid', 'append', 'add', 'rename', 'nested'])
        i = rng.randrange(n)
        if t == 'copy':
            ops.append([t, i, rng.choice([True, False])])
            n += 1
        elif t == 'set':
            c = rng.choice([True, False])
            ops.append([t, i, rng.choice(keys), rand_value(rng, 1), c])
            n += c
        elif t == 'nonid':
            ops.append([t, i, rng.choice(keys)])
        elif t == 'append':
            ops.append([t, i, rng.choice(keys)])
        elif t == 'add':
            ops.append([t, i, rng.choice(keys), [rand_value(rng, 1) for _ in range(rng.randrange(4))]])
        elif t == 'rename':
            ops.append([t, i, rand_id(rng), rng.choice([None, 'o'])])
        else:
            ops.append([t, i])
    return {'what': w, 'ops': ops}


class M(object):
    """model of a configuration: values are the objects themselves (shared by shallow copies) or their text (deep copies)"""

    def __init__(self, name, conf, nonids, out):
        self.name, self.conf, self.nonids, self.out = name, dict(conf), set(nonids), out


def mutables(v, out=None):
    from whatami import What
    out = {} if out is None else out
    if isinstance(v, What):
        out[id(v)] = v
        out[id(v.conf)] = v.conf
        out[id(v.non_id_keys)] = v.non_id_keys
        mutables(v.conf, out)
    elif isinstance(v, dict):
        out[id(v)] = v
        for x in v.values():
            mutables(x, out)
    elif isinstance(v, (list, set)):
        out[id(v)] = v
        if isinstance(v, list):
            for x in v:
                mutables(x, out)
    elif isinstance(v, tuple):
        for x in v:
            mutables(x, out)
    elif hasattr(v, 'tobytes') and hasattr(v, 'shape'):
        out[id(v)] = v
    return out


def check(j):
    from whatami import What, whatadd
    ws = [dec(j['what'])]
    ms = [M(ws[0].name, ws[0].conf, ws[0].non_id_keys, ws[0].out_name)]

    def agree(op):
        for i, (w, m) in enumerate(zip(ws, ms)):
            ok(type(w) is What and w.name == m.name and w.out_name == m.out, 'after %r, configuration %d is %r', op, i, w)
            ok(set(w.conf) == set(m.conf) and all(w.conf[k] is m.conf[k] for k in m.conf), 'after %r, parameters of %d are %r, should be %r',
               op, i, w.conf, m.conf)
            ok(w.non_id_keys == m.nonids, 'after %r, non-id keys of %d are %r, should be %r', op, i, w.non_id_keys, m.nonids)
        for i in range(len(ws)):
            for k in range(i):
                ok(ws[i] is not ws[k] and ws[i].conf is not ws[k].conf and ws[i].non_id_keys is not ws[k].non_id_keys,
                   'after %r, configurations %d and %d share their state', op, i, k)
    for op in j['ops']:
        t, i = op[0], op[1]
        if i >= len(ws):
            continue
        w, m = ws[i], ms[i]
        before = snapshot(w)
        if t == 'copy':
            shared = mutables(w)
            c = w.copy(deep=True) if op[2] else w.copy()
            ok(snapshot(w) == before, 'copy modified the configuration')
            ok(type(c) is What and c.name == w.name and c.out_name == w.out_name and c.non_id_keys == w.non_id_keys,
               'the copy is %r, original %r', c, w)
            ok(list(c.conf) == list(w.conf), 'the copy has parameters %r', c.conf)
            if op[2]:
                again = [o for a, o in mutables(c).items() if a in shared]
                ok(not again, 'the deep copy shares %r', again)
                ok(canon(c)[:4] == canon(w)[:4], 'the deep copy is %r', c)
                try:
                    ok(c.id() == w.id() and c.id(nonids_too=True) == w.id(nonids_too=True), 'the id of the deep copy is %r', c.id())
                except ValueError:
                    pass
                m2 = M(w.name, c.conf, w.non_id_keys, w.out_name)
            else:
                m2 = M(m.name, m.conf, m.nonids, m.out)
            ws.append(c)
            ms.append(m2)
        elif t == 'set':
            v = dec(op[3])
            r = w.set(op[2], v, copy=True) if op[4] else w.set(op[2], v)
            if op[4]:
                ok(r is not w, 'set with copy returned the configuration itself')
                ok(snapshot(w) == before, 'set with copy modified the configuration')
                ws.append(r)
                ms.append(M(m.name, dict(m.conf, **{op[2]: v}), m.nonids, m.out))
            else:
                ok(r is w, 'set returned %r', r)
                m.conf[op[2]] = v
        elif t == 'nonid':
            w.non_id_keys.add(op[2])
            m.nonids.add(op[2])
        elif t == 'rename':
            w.name, w.out_name = op[2], op[3]
            m.name, m.out = op[2], op[3]
        elif t == 'append':
            if isinstance(w.conf.get(op[2]), list):
                w.conf[op[2]].append(0)
        elif t == 'nested':
            for v in w.conf.values():
                if isinstance(v, What):
                    v.set('added', 1)
        elif t == 'add':
            values = [dec(v) for v in op[3]]
            vs = list(values)
            if op[2] in m.conf:
                ok(raises(lambda: whatadd(w, op[2], values), ValueError) is not None, 'whatadd accepted the existing key %r', op[2])
            else:
                try:
                    want = [What(w.name, dict(w.conf, **{op[2]: v}), w.non_id_keys, w.out_name).id() for v in values]
                except ValueError:
                    continue
                got = whatadd(w, op[2], values)
                ok(got == want, 'whatadd gives %r, should be %r', got, want)
            ok(snapshot(w) == before and len(vs) == len(values), 'whatadd modified its arguments: %r', w)
        agree(op)


def shrink(j):
    for i in range(len(j['ops'])):
        yield {'what': j['what'], 'ops': j['ops'][:i] + j['ops'][i + 1:]}
    for w in shrink_what(j['what']):
        yield {'what': w, 'ops': j['ops']}
