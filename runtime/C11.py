# coding=utf-8
"""Introspection of objects"""
from .common import *

RULE = 'instances of class hierarchies with instance attributes, slots, properties and class members that clash in all ways, with all ' \
       'combinations of options, compared with a reference resolution of attributes'
N = 2500
NAMES = ['a', 'b', '_p', 'q_', 'what', 'x', 'name', '_', '__d', 'ab', 'ba', 'seq', 'conf']


def build(j):
    cls = object
    for c in j['classes']:
        d = {}
        for k, v in c.get('members', []):
            d[str(k)] = dec(v)
        for k, v in c.get('props', []):
            d[str(k)] = property(lambda self, v=dec(v): v)
        if c.get('slots') is not None:
            slots = tuple(str(s) for s, _ in c['slots'])
            if set(slots) & set(d):
                return None
            d['__slots__'] = slots
        if c.get('call'):
            d['__call__'] = lambda self: None
        cls = type(str(c['name']), (cls,), d)
    o = cls()
    import types
    for c in j['classes']:
        for s, v in c.get('slots') or ():
            dd = getattr(cls, mangle(s, c['name']), None)
            if isinstance(dd, types.MemberDescriptorType):
                setattr(o, mangle(s, c['name']), dec(v))
    if hasattr(o, '__dict__'):
        for k, v in j['attrs']:
            o.__dict__[str(k)] = dec(v)
    return o


def mangle(n, cls):
    cls = cls.lstrip('_')
    return '_%s%s' % (cls, n) if n.startswith('__') and not n.endswith('__') and cls else n


def dunder(k):
    return k.startswith('__') and k.endswith('__') and len(k) > 4


def reference(o, add_dict, add_slots, add_properties, add_class):
    import types
    cls = type(o)
    names, slots, props, members = [], {}, {}, {}
    for c in cls.__mro__[::-1]:
        names += list(c.__dict__)
    for n in set(names):
        if dunder(n):
            continue
        try:
            v = getattr(cls, n)
        except AttributeError:
            continue
        members[n] = v
        if isinstance(v, types.MemberDescriptorType):
            slots[n] = v.__get__(o)
        elif isinstance(v, property):
            props[n] = v.__get__(o)
    out = {}
    if add_class:
        out.update(members)
    if add_dict:
        out.update({k: v for k, v in getattr(o, '__dict__', {}).items() if not dunder(k)})
    if add_slots:
        out.update(slots)
    if add_properties:
        out.update(props)
    return out


def trimmed(d, prefix, postfix, excludes):
    return {k: v for k, v in d.items() if not (prefix and k.startswith(prefix)) and not (postfix and k.endswith(postfix)) and
            k not in excludes}


GROUPS = ['add_dict', 'add_slots', 'add_properties', 'add_class']


def table():
    classes = [{'name': 'A', 'members': [['a', 1], ['m', 2], ['_h', 3], ['p', 4]], 'props': [['b', 10], ['_p', 11], ['q_', 12]]},
               {'name': 'B', 'slots': [['s', 20], ['a', 21], ['_s', 22], ['t_', 23]], 'props': [['p', 30]], 'members': [['what', 7]]},
               {'name': 'C', 'props': [['s', 40]], 'members': [['m', ['l', 1]], ['z', 5]]}]
    attrs = [['a', 50], ['b', 51], ['s', 52], ['p', 53], ['m', 54], ['x', 55], ['_x', 56], ['x_', 57], ['_x_', 58], ['what', 59],
             ['_', 60], ['xx', ['l', 1]], ['seq', 61], ['t_', 62]]
    for n in range(16):
        opts = {g: bool(n >> i & 1) for i, g in enumerate(GROUPS)}
        for k in (1, 2, 3):
            yield {'classes': classes[:k], 'attrs': attrs, 'opts': opts, 'trim': {}}
    for pre in ('_', '', None, 'x', '__'):
        for post in ('_', '', None, 'x', 's'):
            for exc in (['t'], ['t', 'what'], ['t', 'what', 'x', 'nope'], ['l', 'a'], ['s', 'b', 's'], ['fs', 'x']):
                yield {'classes': classes, 'attrs': attrs, 'opts': {}, 'trim': {'exclude_prefix': pre, 'exclude_postfix': post,
                                                                              'excludes': exc}}
    for call in (False, True):
        for ov in (None, 'other', ''):
            for ni in (None, ['x'], []):
                yield {'classes': [{'name': 'K', 'call': call}], 'attrs': [['x', 1], ['y', 2]], 'opts': {}, 'trim': {}, 'name': ov,
                       'nonids': ni}
    yield {'classes': [{'name': 'S', 'slots': []}], 'attrs': [], 'opts': {}, 'trim': {}}
    yield {'classes': [{'name': 'S', 'slots': [['a', 1]]}, {'name': 'T', 'slots': [['b', 1]]}], 'attrs': [], 'opts': {}, 'trim': {}}
    yield {'classes': [{'name': 'S', 'slots': [['a', 1]]}, {'name': 'T', 'slots': [['a', 2]]}], 'attrs': [], 'opts': {}, 'trim': {}}
    yield {'classes': [{'name': 'S', 'props': [['a', 1]]}, {'name': 'T', 'slots': [['a', 2]]}], 'attrs': [['a', 3]], 'opts': {}, 'trim': {}}
    yield {'classes': [{'name': 'S', 'props': [['a', 1]]}, {'name': 'T', 'members': [['a', 2]]}], 'attrs': [['a', 3]], 'opts': {}, 'trim': {}}
    yield {'classes': [{'name': 'S', 'slots': [['a', 1]]}, {'name': 'T', 'members': [['a', 2]]}], 'attrs': [['a', 3]], 'opts': {}, 'trim': {}}


def gen(rng):
    def kvs(n):
        return [[k, rand_value(rng, 1)] for k in rng.sample(NAMES, rng.randrange(n))]
    classes = []
    for i in range(rng.randrange(1, 4)):
        c = {'name': rng.choice(['A', 'B', '_C', 'D'])}
        if rng.random() < .5:
            c['slots'] = [kv for kv in kvs(4) if kv[0] != 'what']
        c['props'] = [kv for kv in kvs(3)]
        c['members'] = [kv for kv in kvs(3)]
        c['call'] = rng.random() < .1
        classes.append(c)
    trim = {}
    for n, vals in (('exclude_prefix', ['_', '', None, 'a', 'x']), ('exclude_postfix', ['_', '', None, 'b', 'x'])):
        if rng.random() < .4:
            trim[n] = rng.choice(vals)
    if rng.random() < .4:
        trim['excludes'] = ['t'] + rng.sample(NAMES, rng.randrange(4))
    return {'classes': classes, 'attrs': kvs(6), 'opts': {g: rng.choice([True, False]) for g in GROUPS if rng.random() < .5}, 'trim': trim,
            'name': rng.choice([None, None, 'over']), 'nonids': rng.choice([None, None, ['a'], ['zz', 'x']])}


def same(got, want, what):
    got = {k: v for k, v in got.items() if not dunder(k)}
    ok(set(got) == set(want), '%s: attributes are %r, should be %r', what, sorted(got), sorted(want))
    for k in want:
        ok(got[k] is want[k] or (callable(want[k]) and got[k] == want[k]), '%s: %s is %r, should be %r', what, k, got[k], want[k])


def check(j):
    from whatami import whatareyou, whatable, config_dict_for_object, trim_dict, What
    o = build(j)
    if o is None:
        return
    opts, trim = j['opts'], {k: dec(v) for k, v in j['trim'].items()}
    full = {g: opts.get(g, g != 'add_class') for g in GROUPS}
    before = snapshot(vars(o)) if hasattr(o, '__dict__') else None
    cbefore = {k: id(v) for k, v in vars(type(o)).items()}
    want = reference(o, **full)
    cd = config_dict_for_object(o, **opts)
    same(cd, want, 'config_dict_for_object')
    t = dict(exclude_prefix='_', exclude_postfix='_', excludes=('what',))
    t.update(trim)
    twant = trimmed(want, t['exclude_prefix'], t['exclude_postfix'], t['excludes'])
    src = dict(want)
    same(trim_dict(src, **trim), twant, 'trim_dict')
    ok(src == want and trim_dict(src, **trim) is not src, 'trim_dict modified its argument')
    kw = {}
    if j.get('name') is not None:
        kw['name_override'] = j['name']
    if j.get('nonids') is not None:
        kw['non_id_keys'] = j['nonids']
    allopts = dict(opts, **trim)
    w = whatareyou(o, **dict(allopts, **kw))
    ok(type(w) is What and w.out_name is None, 'whatareyou gives %r', w)
    same(w.conf, twant, 'whatareyou')
    ok(w.name == (type(o).__name__ if j.get('name') is None else j['name']), 'the name is %r', w.name)
    ok(w.non_id_keys == set(j.get('nonids') or ()), 'the non-id keys are %r', w.non_id_keys)
    w.conf['added by the oracle'] = 0
    if before is not None:
        ok(snapshot(vars(o)) == before, 'introspection modified the object')
    ok({k: id(v) for k, v in vars(type(o)).items()} == cbefore, 'introspection modified the class')
    if hasattr(o, '__dict__') and 'what' not in o.__dict__ and not hasattr(type(o), 'what'):
        if j.get('nonids') is not None:
            allopts['non_id_keys'] = j['nonids']
        want2 = dict(twant)
        w = whatable(o, **allopts).what()
        # the object now has an attribute what
        if full['add_dict'] and 'what' not in t['excludes']:
            w.conf.pop('what')
        same(w.conf, want2, 'whatable(object)')
        ok(w.name == type(o).__name__ and w.non_id_keys == set(j.get('nonids') or ()), 'whatable(object): %r', w)
    o = build(j)
    if not hasattr(type(o), 'what') and 'what' not in getattr(o, '__dict__', {}):
        cls = whatable(**allopts)(type(o))
        ok(cls is type(o), 'whatable(class) is another class')
        want = trimmed(reference(o, **full), t['exclude_prefix'], t['exclude_postfix'], t['excludes'])
        w = o.what()
        same({k: v for k, v in w.conf.items() if k != 'what'}, {k: v for k, v in want.items() if k != 'what'}, 'whatable(class)')
        ok(w.name == type(o).__name__, 'whatable(class): the name is %r', w.name)


def shrink(j):
    for i in range(len(j['classes'])):
        if len(j['classes']) > 1:
            yield dict(j, classes=j['classes'][:i] + j['classes'][i + 1:])
        for g in ('slots', 'props', 'members'):
            if j['classes'][i].get(g):
                for x in range(len(j['classes'][i][g])):
                    c = dict(j['classes'][i])
                    c[g] = c[g][:x] + c[g][x + 1:]
                    yield dict(j, classes=j['classes'][:i] + [c] + j['classes'][i + 1:])
    for i in range(len(j['attrs'])):
        yield dict(j, attrs=j['attrs'][:i] + j['attrs'][i + 1:])
    for g in ('opts', 'trim'):
        for k in j[g]:
            yield dict(j, **{g: {x: v for x, v in j[g].items() if x != k}})
