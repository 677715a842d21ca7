# coding=utf-8
"""Conversions"""
import inspect
from .common import *
from .ref import what_id, fields

RULE = 'strings, None, configurations, whatables, objects with an id method or without anything, and random configurations, through all conversions'
N = 2000


def table():
    w = ['what', 'N', [['a', 1], ['w', ['what', 'I', [['x', ['l', 1, ['what', 'q', [], None, 'z']]]], ['x'], 'q']], ['d', ['d', ['k', 1]]]], ['a'], 'o']
    for o in (None, '', 'any text', "A(x=1)", w, ['whatable', 'W', [['x', 1], ['_h', 2]]], ['whatter', w], ['whatter', ['what', 'e', [], None, None]],
              ['plain', 'P'], ['fn', 'def f(x, y=3): return x'], ['partial', ['fn', 'def f(x, y=3): return x'], [1], []], ['l', 1, 2], ['d', ['a', 1]]):
        yield {'obj': o}
        yield {'obj': o, 'opts': {'name_override': 'other', 'non_id_keys': ['l', 'x'], 'excludes': ['t', 'y']}}
        yield {'obj': o, 'opts': {'exclude_prefix': 'x', 'exclude_postfix': ''}}
        yield {'obj': o, 'opts': {'add_dict': False}}
    for k in ('ider', 'both', 'raises'):
        yield {'special': k}


def gen(rng):
    o = rich_value(rng, 2) if rng.random() < .4 else rand_what(rng, 3, True)
    opts = {}
    if rng.random() < .3:
        opts = {'name_override': rng.choice([None, 'other']), 'excludes': ['t', rng.choice(IDS)], 'non_id_keys': ['t', rng.choice(IDS)]}
    return {'obj': o, 'opts': opts}


class Ider(object):
    def __init__(self):
        self.x = 1

    def id(self):
        return 'my id'


def to_dict(w):
    from whatami import What
    return {'whatami_name': w.name, 'whatami_out_name': w.out_name,
            'whatami_conf': {k: to_dict(v) if isinstance(v, What) else v for k, v in w.conf.items()}}


def special(k):
    from whatami import What
    from whatami.whatutils import what2id, obj2what
    if k == 'ider':
        ok(what2id(Ider()) == 'my id', 'id of an object with an id method: %r', what2id(Ider()))
        ok(obj2what(Ider()).id() == 'Ider(x=1)', 'configuration of an object with an id method: %r', obj2what(Ider()))
    elif k == 'both':
        class Both(Ider):
            def what(self):
                return What('both', {'y': 2})
        ok(what2id(Both()) == 'both(y=2)', 'id of an object with what and id methods: %r', what2id(Both()))
        ok(obj2what(Both()).id() == 'both(y=2)', 'configuration: %r', obj2what(Both()))
        ok(obj2what(Both(), force_inspect=True).id() == 'Both(x=1)', 'inspected: %r', obj2what(Both(), force_inspect=True))
        ok(obj2what(Both(), True, 'n', ['x']) == What('n', {'x': 1}) and obj2what(Both(), True, 'n', ['x']).non_id_keys == {'x'}, 'inspected with options')
    elif k == 'raises':
        class R(object):
            def what(self):
                raise ValueError('no')

            def id(self):
                return 'never'
        ok(isinstance(raises(lambda: what2id(R())), ValueError), 'the error of the what method was hidden')


def check(j):
    from whatami import What, whatareyou, parse_whatid, is_whatable, id2what
    from whatami.whatutils import what2id, obj2what, id2dict, whatvalues
    from whatami.misc import mlexp_info_helper
    if 'special' in j:
        return special(j['special'])
    o = dec(j['obj'])
    if hasattr(o, 'tobytes'):
        return      # the parameters of arrays are new objects each time
    before = snapshot(o)
    try:
        if o is None or isinstance(o, str):
            want = o
        elif isinstance(o, What):
            want = what_id(o)
        elif hasattr(o, 'what'):
            want = what_id(o.what())
        else:
            want = whatareyou(o).id()
    except Exception as e:
        want = type(e)
    try:
        got = what2id(o)
    except Exception as e:
        got = type(e)
    if isinstance(o, What):
        pass        # configurations have an id method
    ok(got == want, 'the id of %r is %r, should be %r', o, got, want)
    if isinstance(o, str):
        ok(got is o, 'the id of a string is another string')
    # experiment information
    if not isinstance(want, type):
        info = mlexp_info_helper('title', data_setup=o, model_setup=None, eval_setup=o, exp_function=special, comments='c', itime=lambda: 'i')
        ok(list(info) == ['title', 'data_setup', 'model_setup', 'eval_setup', 'fsource', 'date', 'idate', 'host', 'comments'],
           'information has %r', list(info))
        ok([info[k] for k in ('title', 'data_setup', 'model_setup', 'eval_setup', 'idate', 'comments')] ==
           ['title', want, None, want, 'i', 'c'], 'information is %r', info)
        ok(info['fsource'] == inspect.getsourcelines(special), 'the source is %r', info['fsource'])
        i2 = mlexp_info_helper('t2', model_setup=o)
        ok([i2[k] for k in ('title', 'data_setup', 'model_setup', 'eval_setup', 'idate', 'comments', 'fsource')] ==
           ['t2', None, want, None, None, None, None], 'information is %r', i2)
    # configurations
    opts = {k: dec(v) for k, v in (j.get('opts') or {}).items()}
    if o is not None and not isinstance(want, type):
        w = obj2what(o, **opts)
        if is_whatable(o):
            own = o.what()
            ok(canon(w) == canon(own) and w.non_id_keys == own.non_id_keys, 'the configuration is %r, should be %r', w, own)
        else:
            wanted = whatareyou(o, **opts)
            ok(canon(w) == canon(wanted) and w.non_id_keys == wanted.non_id_keys, 'the configuration is %r, should be %r', w, wanted)
        w, wanted = obj2what(o, force_inspect=True, **opts), whatareyou(o, **opts)
        ok(canon(w) == canon(wanted) and w.non_id_keys == wanted.non_id_keys, 'the inspected configuration is %r, should be %r', w, wanted)
        try:
            w = obj2what(o)
            keys = sorted(w.conf)
            ok(whatvalues(w, tuple(keys)) == tuple(w.conf[k] for k in keys) and whatvalues(w, ()) == () and whatvalues(w) == (),
               'values are %r', whatvalues(w, tuple(keys)))
            ok(all(a is b for a, b in zip(whatvalues(w, tuple(keys[::-1] + keys)), [w.conf[k] for k in keys[::-1] + keys])), 'values in another order')
            for k in keys:
                v = whatvalues(w, k)
                ok(type(v) is tuple and len(v) == 1 and v[0] is w.conf[k], 'value of %r is %r', k, v)
            ok(raises(lambda: whatvalues(w, tuple(keys + ['not there'])), KeyError) is not None, 'a missing key was accepted')
        except ValueError:
            pass
    if isinstance(o, What) and not isinstance(want, type):
        for nonids in (False, True):
            s = o.id(nonids_too=nonids)
            try:
                p = parse_whatid(s)
            except Exception as e:
                ok(raises(lambda: id2dict(s), type(e)) is not None, 'a dictionary was given for something that is not an id')
                continue
            d = to_dict(p)
            ok(canon(id2dict(s)) == canon(d), 'the dictionary of %s is %r, should be %r', s, id2dict(s), d)
            got = o.to_dict(nonids_too=nonids)
            ok(canon(got) == canon(d), 'the dictionary is %r, should be %r', got, d)
        if raises(lambda: parse_whatid(what_id(o))) is None:
            ok(canon(o.to_dict()) == canon(to_dict(id2what(what_id(o)))), 'the default dictionary is %r', o.to_dict())
    ok(snapshot(o) == before, 'something was modified')


def shrink(j):
    if isinstance(j.get('obj'), list) and j['obj'][0] == 'what':
        for w in shrink_what(j['obj']):
            yield dict(j, obj=w)
