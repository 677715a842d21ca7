"""WhatamiRegistry: one-to-one mapping between ids and nicknames"""
from .common import *

WHAT2ID = {'whatami.whatutils.what2id': det('what2id')}


def registry(I):
    r = instance(I, 'whatami.registry.WhatamiRegistry', expect={'name': 'any', '_id2nick': 'dict', '_nick2id': 'dict'})
    i2n, n2i = r.f['_id2nick'].f['node'], r.f['_nick2id'].f['node']
    # invariant: both dictionaries are the inverse of each other; nicknames and ids are strings
    I.assume(forall_keys(i2n, lambda k, v: And(has(n2i, v), same(dget(n2i, v), k))))
    I.assume(forall_keys(n2i, lambda k, v: And(has(i2n, v), same(dget(i2n, v), k))))
    I.assume(forall_keys(i2n, lambda k, v: And(pred('isinst:str', k), pred('isinst:str', v))))
    return r


def method(name, *params, **kw):
    def setup(I):
        r = registry(I)
        args = []
        for p in params:
            a = sym(p)
            if p == 'nickname' or p == 'whatid':
                I.assume(Or(pred('isinst:str', a), eq(a, NONE)))
            args.append(a)
        if 'what' in params:
            w = app('what2id', sym('what'))
            I.assume(Or(pred('isinst:str', w), eq(w, NONE)))
            I.assume(Or(Not(eq(sym('what'), NONE)), eq(w, NONE)))
            # ids are never None for objects
            I.assume(Or(eq(sym('what'), NONE), pred('isinst:str', w)))
        real = I.getattr(r, name)
        return dict(call=lambda: I.call(real, args, {}),
                    spec=lambda: I.call(I.resolve('spec.registry.' + name), [r] + args, {}),
                    frame={'registry': r, 'ids': r.f['_id2nick'], 'nicks': r.f['_nick2id']})
    c = Contract('registry.' + name, 'whatami.registry.WhatamiRegistry.' + name, setup, hooks=WHAT2ID, **kw)
    REGISTRY.append(c)
    return c


def invariant(name, *params):
    """the invariant holds after the operation"""
    def setup(I):
        r = registry(I)
        args = [sym(p) for p in params]
        for a in args:
            I.assume(Or(pred('isinst:str', a), eq(a, NONE)) if a.args[0] != 'what' else TRUE)
        if 'what' in params:
            w = app('what2id', sym('what'))
            I.assume(Or(eq(sym('what'), NONE), pred('isinst:str', w)))
            I.assume(Or(Not(eq(sym('what'), NONE)), eq(w, NONE)))
        real = I.getattr(r, name)
        return check(I, lambda: I.call(I.resolve('spec.registry.keeps_one_to_one'), [r, real] + args, {}))
    c = Contract('registry.%s.one_to_one' % name, 'whatami.registry.WhatamiRegistry.' + name, setup, hooks=WHAT2ID,
                 props=('C15',))
    REGISTRY.append(c)


method('register', 'what', 'nickname', props=('C15',))
method('remove', 'nickname', 'what', props=('C16',))
method('nick2id', 'nickname', props=('C15',))
method('id2nick', 'whatid', props=('C15',))
method('nick_or_id', 'what', props=('C15',))
method('list', props=('C15',))
method('reset', props=('C16',))
invariant('register', 'what', 'nickname')
invariant('remove', 'nickname', 'what')
invariant('reset')
