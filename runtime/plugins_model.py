# coding=utf-8
"""Sequences of operations on the plugin manager against a reference model"""
from .common import *


def _p(name, pred, out, shown=None):
    def plugin(v):
        if pred(v):
            CALLS.append(name)
            return out
        CALLS.append(name)
    plugin.__name__ = shown or name
    return plugin


CALLS = []


class NoName(object):
    def __call__(self, v):
        CALLS.append('noname')
        return 'noname()' if v == 77 else None


class FalsePlugin(object):
    """a plugin with false truth value"""
    __name__ = 'false'

    def __len__(self):
        return 0

    def __call__(self, v):
        CALLS.append('false')
        return 'false()' if v == 78 else None


def structured():
    """values with others inside, at every kind of place"""
    from collections import OrderedDict
    from functools import partial
    from whatami import What

    def function(a, b=0, c=(1, 'x')):
        pass
    class ListOf(list):
        pass
    class Slot(object):
        def __init__(self):
            self.p = [0, 'x']

        def what(self):
            return What('Slot', {'p': self.p})
    return [(0, 'x', (1, None)), [0, [1, 'x']], {0: 'x', 'x': 0, (1, 0): [0]}, {0, 'x', 2.5}, frozenset([0, 'x', 1]), {'a': {0: {1: {'x'}}}},
            What('m', {'p': 0, 'q': What('o', {'r': ['x', 1]}, out_name='z')}), [What('m', {'p': 0})], function, partial(function, 77, b='x'),
            ListOf([0, 'x']), OrderedDict([(0, 'x')]), Slot(), [Slot(), 0], (True, 78), {78: 78}, {True: 0, None: ''}]


def reference(chain, v):
    """text of a value: the default plugins of collections, functions and configurations are not the ones of the code"""
    from collections import OrderedDict
    from functools import partial
    from whatami import What
    text = lambda x: reference(chain, x)

    def what(w):
        t = '%s(%s)' % (w.name, ','.join('%s=%s' % (k, text(x)) for k, x in sorted(w.conf.items()) if k not in w.non_id_keys))
        return t if w.out_name is None else '%s=%s' % (w.out_name, t)

    def sub(v, plain, t):
        return t if type(v) in plain else '%s(seq=%s)' % (type(v).__name__, t)

    def default(name, v):
        if name == 'what_plugin' and isinstance(v, What):
            return (what(v),)
        if name == 'whatable_plugin' and type(v).__name__ == 'Slot':
            return (what(v.what()),)
        if name == 'tuple_plugin' and isinstance(v, tuple):
            return (sub(v, (tuple,), '(%s)' % ','.join(map(text, v))),)
        if name == 'list_plugin' and isinstance(v, list):
            return (sub(v, (list,), '[%s]' % ','.join(map(text, v))),)
        if name == 'dict_plugin' and isinstance(v, OrderedDict):
            return ('OrderedDict(seq=%s)' % text(list(v.items())),)
        if name == 'dict_plugin' and type(v) is dict:
            return ('{%s}' % ','.join(sorted('%s:%s' % (text(k), text(x)) for k, x in v.items())),)
        if name == 'set_plugin' and type(v) is set:
            return ('{%s}' % ','.join(sorted(map(text, v))) if v else 'set()',)
        if name == 'set_plugin' and type(v) is frozenset:
            return ('frozenset({%s})' % ','.join(sorted(map(text, v))) if v else 'frozenset()',)
        if name == 'function_plugin' and getattr(v, '__name__', '') == 'function':
            return (what(What('function', {'b': v.__defaults__[0], 'c': v.__defaults__[1]})),)
        if name == 'partial_plugin' and isinstance(v, partial):
            return (what(What('function', {'a': v.args[0], 'b': v.keywords['b'], 'c': v.func.__defaults__[1]})),)
    for p in chain:
        s = None
        if p not in CUSTOM.values():
            s = default(p.__name__, v)
        s = s[0] if s else p(v)
        if s is not None:
            return s


CUSTOM = {
    'false': FalsePlugin(),
    'int': _p('int', lambda v: isinstance(v, int), 'int()'),
    'never': _p('never', lambda v: False, ''),
    'empty': _p('empty', lambda v: v in (0, ''), ''),
    'all': _p('all', lambda v: True, 'all()'),
    'zero': _p('zero', lambda v: v == 0, 0),
    'noname': NoName(),
    'noname2': NoName(),
    # other plugins with the name of one above, or of a default one
    'int2': _p('int2', lambda v: v in (0, 'x'), 'int2()', 'int'),
    'list2': _p('list2', lambda v: isinstance(v, list), 'list2()', 'list_plugin'),
    'anyobject2': _p('anyobject2', lambda v: False, '', 'anyobject_plugin'),
}


def ref_plugin(name):
    from whatami.plugins import WhatamiPluginManager as W
    if name is None or name in CUSTOM:
        return CUSTOM.get(name)
    for p in W.DEFAULT_PLUGINS:
        if p.__name__ == name:
            return p
    raise KeyError(name)


VALUES = [0, 1, 77, 78, 'x', '', None, 2.5, (1, 2), [0], {0: 'x'}]


def run(case):
    from whatami.plugins import WhatamiPluginManager as W, anyobject0x_plugin
    from whatami import What
    W.reset()
    default = tuple(W.DEFAULT_PLUGINS)
    chain = list(default)
    kept = []

    def state(msg):
        got = W.plugins()
        ok(isinstance(got, tuple), '%s: plugins() is not a tuple', msg)
        ok(list(got) == chain, '%s: the chain is %r, should be %r', msg, names(got), names(chain))
        ok(tuple(W.DEFAULT_PLUGINS) == default, '%s: the default chain has changed', msg)
        for t, copy in kept:
            ok(list(t) == copy, '%s: a chain obtained before has changed', msg)
        kept.append((got, list(got)))

    def names(c):
        return [getattr(p, '__name__', 'noname') for p in c]

    def dispatch(v):
        for p in chain:
            s = p(v)
            if s is not None:
                return s
        return None
    try:
        state('reset')
        for op in case:
            kind = op[0]
            if kind == 'insert':
                p = ref_plugin(op[1])
                if len(op) > 2:
                    before = ref_plugin(op[2])
                    call = lambda: W.insert(p, before=before)
                else:
                    before = anyobject0x_plugin
                    call = lambda: W.insert(p)
                if p in chain or (before is not None and before not in chain):
                    e = raises(call)
                    ok(isinstance(e, ValueError), '%r must raise ValueError, not %r', op, e)
                else:
                    ok(call() is None, 'insert must return None')
                    chain.insert(len(chain) if before is None else chain.index(before), p)
            elif kind == 'drop':
                p = ref_plugin(op[1])
                if p in chain:
                    W.drop(p)
                    chain.remove(p)
                else:
                    e = raises(lambda: W.drop(p))
                    ok(isinstance(e, ValueError), '%r must raise ValueError, not %r', op, e)
            elif kind == 'reset':
                W.reset()
                chain = list(default)
            elif kind == 'use':
                for v in VALUES:
                    del CALLS[:]
                    try:
                        want = (dispatch(v),)
                    except Exception as e:
                        want = type(e)
                    calls = list(CALLS)
                    del CALLS[:]
                    try:
                        got = (W.build_string(v),)
                    except Exception as e:
                        got = type(e)
                    ok(got == want and (got == () or type(got) == type(want)), 'the string of %r is %r, should be %r with %r', v,
                       got, want, names(chain))
                    ok(CALLS == calls, 'plugins called for %r: %r, should be %r', v, CALLS, calls)
                    if isinstance(want, tuple):
                        got = What('w', {'k': v}).id()
                        ok(got == 'w(k=%s)' % want[0], 'the id of a configuration with %r is %r with %r', v, got, names(chain))
                for v in structured():
                    try:
                        want = (reference(chain, v),)
                    except Exception as e:
                        want = type(e)
                    try:
                        got = (W.build_string(v),)
                    except Exception as e:
                        got = type(e)
                    ok(got == want, 'the string of %r is %r, should be %r with %r', v, got, want, names(chain))
            state(repr(op))
    finally:
        W.reset()
        ok(W.plugins() == default, 'reset does not restore the default chain')


NAMES = ['what_plugin', 'whatable_plugin', 'builtin_plugin', 'string_plugin', 'tuple_plugin', 'list_plugin', 'dict_plugin',
         'numpy_plugin', 'anyobject0x_plugin', 'anyobject_plugin', 'function_plugin', 'partial_plugin']


def rand_case(rng, use=.3):
    out = []
    for _ in range(rng.randrange(1, 8)):
        k = rng.random()
        p = rng.choice(sorted(CUSTOM)) if rng.random() < .8 else rng.choice(NAMES)
        if k < .45:
            op = ['insert', p]
            if rng.random() < .6:
                op.append(rng.choice([None, None] + sorted(CUSTOM) + NAMES))
            out.append(op)
        elif k < .65:
            out.append(['drop', rng.choice(sorted(CUSTOM) + NAMES)])
        elif k < .72:
            out.append(['reset'])
        else:
            out.append(['use'])
    return out + [['use']]


def shrink(case):
    for i in range(len(case)):
        yield case[:i] + case[i + 1:]
