"""The plugins of whatami.plugins: the place and text of each kind of value"""
from .common import *
from .what import member_text, what, state, equal_mappings, QUAL, ordered
from .decorating import call_of
from .misc import a_function

P = 'whatami.plugins.'
S = 'spec.rendering.'
TEXT = det('text', ty='str', params=('v',))


def introspected(I, f, args, kwargs, kwd=None):
    """contract of whatareyou with the default options: a new What"""
    if len(args) != 1 or kwargs:
        raise Unsupported('options of whatareyou')
    v = I.arg(args[0])
    w = HInst(I, I.resolve(QUAL))
    w.f['name'] = app('introspected_name', v, ty='str')
    w.f['conf'] = HDict(I, node=dbase(app('introspected_conf', v, ty='dict')), cls='dict')
    w.f['non_id_keys'] = HSet(I, node=EMPTY)
    w.f['out_name'] = NONE
    return w


def members(I, f, args, kwargs, kwd=None):
    if len(args) != 1 or kwargs:
        raise Unsupported('options of config_dict_for_object')
    return HDict(I, node=dbase(app('members', I.arg(args[0]), ty='dict')), cls='dict')


WHATABLE = det('is_whatable', raises=False)
HOOKS = {'whatami.what.is_whatable': WHATABLE, P + 'WhatamiPluginManager.build_string': TEXT, S + 'text': TEXT, QUAL + '.id': det('id', ty='str'),
         'whatami.what.whatareyou': introspected, S + 'introspected': introspected,
         'whatami.misc.callable2call': call_of, S + 'call_of': call_of,
         'whatami.misc.config_dict_for_object': members, S + 'members_of': members,
         'whatami.misc.curry2partial': lambda I, f, args, kwargs, kwd=None: args[0]}


def plugin(name, kind, make, spec=None, props=('C03',), more=(), raises=True):
    def setup(I):
        I.plain_attr_errors = True
        v = make(I)
        rest = [flag(n) for n in more]
        frame = {'v': v} if isinstance(v, HObj) else {}
        return dict(call=lambda: I.call(I.resolve(P + name), [v] + rest, {}),
                    spec=lambda: I.call(I.resolve(S + (spec or name)), [v] + rest, {}), frame=frame)
    REGISTRY.append(Contract('rendering.%s.%s' % (name, kind), P + name, setup, props=props, hooks=HOOKS,
                             only_raises=kind in ('builtin', 'property')))


def a_list(I):
    return HList(I, node=sym('v', 'S'))


def a_tuple(I):
    return seqv('tuple', sym('v', 'S'))


def a_set(I):
    return HSet(I, node=sym('v', 'S'))


def a_frozenset(I):
    return HSet(I, node=sym('v', 'S'), frozen=True)


def a_dict(cls):
    return lambda I: HDict(I, node=sym('v', 'D'), cls=cls)


def a_string(I):
    """strings without backslashes"""
    v = sym('v', ty='str')
    I.assume(Not(pred('contains', v, const('\\'))))
    return v


def none_of(*kinds):
    def make(I):
        v = sym('v')
        for k in kinds:
            I.assume(Not(pred('isinst:' + k, v)))
        return v
    return make


def an(kind):
    def make(I):
        v = sym('v')
        I.assume(pred('isinst:' + kind, v))
        return v
    return make


def subclass(kind):
    def make(I):
        v = sym('v')
        I.assume(pred('isinst:' + kind, v))
        for k in ('list', 'tuple', 'set', 'dict', 'frozenset', 'What'):
            I.assume(Not(pred('exact:' + k if k == kind else 'isinst:' + k, v)))
        return v
    return make


def function(I):
    v = sym('v')
    a_function(I, v)
    return v


def a_partial(I):
    return app('partial_star', sym('c.func'), seqv('tuple', sym('c.args', 'S')), dictv('dict', sym('c.keywords', 'D')),
               ty='partial')


plugin('what_plugin', 'what', what, props=('C01', 'C02', 'C03'))
plugin('what_plugin', 'subclass', subclass('What'), 'own_id', props=('C01', 'C02', 'C03'))
plugin('what_plugin', 'other', none_of('What'), 'not_mine')
plugin('tuple_plugin', 'tuple', a_tuple)
plugin('tuple_plugin', 'other', none_of('tuple'), 'not_mine')
plugin('list_plugin', 'list', a_list)
plugin('list_plugin', 'other', none_of('list'), 'not_mine')
plugin('dict_plugin', 'dict', a_dict('dict'))
plugin('dict_plugin', 'OrderedDict', a_dict('OrderedDict'), 'ordered_dict')
plugin('dict_plugin', 'other', none_of('dict'), 'not_mine')
plugin('set_plugin', 'set', a_set)
plugin('set_plugin', 'frozenset', a_frozenset, 'frozenset_plugin')
plugin('set_plugin', 'subset', subclass('set'), 'set_subclass_plugin')
plugin('set_plugin', 'subfrozenset', subclass('frozenset'), 'set_subclass_plugin')
plugin('set_plugin', 'other', none_of('set', 'frozenset'), 'not_mine')
plugin('string_plugin', 'str', a_string, props=('C03', 'C06'))
plugin('string_plugin', 'other', none_of('str'), 'not_mine')
plugin('partial_plugin', 'partial', a_partial, props=('C03', 'C12'))
plugin('partial_plugin', 'other', none_of('partial'), 'not_mine')
plugin('function_plugin', 'function', function)
plugin('function_plugin', 'other', none_of('function'), 'not_mine')
plugin('whatable_plugin', 'any', none_of())
plugin('builtin_plugin', 'builtin', an('builtin'))
plugin('builtin_plugin', 'other', none_of('builtin'), 'not_mine')
plugin('property_plugin', 'property', an('property'))
plugin('property_plugin', 'other', none_of('property'), 'not_mine')
for _t in ('int', 'float', 'complex'):
    plugin('numeric_type_plugin', _t, lambda I, t=_t: ClsV(t))


def another_type(I):
    v = sym('v')
    for t in ('int', 'float', 'complex'):
        I.assume(Not(same(v, ClsV(t).t)))
    return v


plugin('numeric_type_plugin', 'other', another_type, 'not_mine')
plugin('anyobject_plugin', 'any', none_of())
plugin('anyobject0x_plugin', 'any', none_of(), more=('deep',))


def subclass(kind):
    def make(I):
        v = sym('v')
        I.assume(pred('isinst:' + kind, v))
        I.assume(Not(pred('exact:' + kind, v)))
        for k in ('list', 'tuple', 'dict', 'OrderedDict', 'set', 'frozenset'):
            if k != kind:
                I.assume(Not(pred('isinst:' + k, v)))
        return v
    return make


plugin('tuple_plugin', 'subclass', subclass('tuple'), 'tuple_subclass')
plugin('list_plugin', 'subclass', subclass('list'), 'list_subclass')
plugin('dict_plugin', 'subclass', subclass('dict'), 'dict_subclass')


# ------------------------------------------------------------------ insertion order does not matter

def canonical(name, kind, make, relate):
    def setup(I):
        a, b = make(I, 'one'), make(I, 'other')
        relate(I, a.f['node'], b.f['node'])
        f = I.resolve(P + name)
        return dict(call=lambda: I.call(f, [a], {}), spec=lambda: I.call(f, [b], {}), frame=dict(a=a, b=b))
    REGISTRY.append(Contract('rendering.%s.%s.canonical' % (name, kind), P + name, setup, props=('C01', 'C03'),
                             hooks=dict(HOOKS, **{P + 'WhatamiPluginManager.build_string': det(
                                 'text', ty='str', params=('v',), raises=False)})))


def equal_sets(I, s1, s2):
    I.assume(forall(s1, lambda x: memf(s2, x)))
    I.assume(forall(s2, lambda x: memf(s1, x)))


canonical('dict_plugin', 'dict', lambda I, n: HDict(I, node=sym(n, 'D'), cls='dict'), equal_mappings)
canonical('set_plugin', 'set', lambda I, n: HSet(I, node=sym(n, 'S')), equal_sets)
canonical('set_plugin', 'frozenset', lambda I, n: HSet(I, node=sym(n, 'S'), frozen=True), equal_sets)


# ------------------------------------------------------------------ members only count by their texts (C21)

def others(s):
    x = fresh('x')
    return flat(s, lam(x, lit(app('other', x))))


def through_chain(name, kind, make):
    """replacing each member by another one with the same text gives the same text"""
    def setup(I):
        I.plain_attr_errors = True
        a, b = make(I, lambda n: n, lambda d: d), make(I, others, lambda d: drekey(d, 'other'))
        f = I.resolve(P + name)
        return dict(call=lambda: I.call(f, [a], {}), spec=lambda: I.call(f, [b], {}), frame={})
    REGISTRY.append(Contract('rendering.%s.%s.through_chain' % (name, kind), P + name, setup, props=('C21',),
                             hooks=dict(HOOKS, **{P + 'WhatamiPluginManager.build_string': member_text})))


through_chain('list_plugin', 'list', lambda I, s, d: HList(I, node=s(sym('v', 'S'))))
through_chain('tuple_plugin', 'tuple', lambda I, s, d: seqv('tuple', s(sym('v', 'S'))))
through_chain('set_plugin', 'set', lambda I, s, d: HSet(I, node=s(sym('v', 'S'))))
through_chain('set_plugin', 'frozenset', lambda I, s, d: HSet(I, node=s(sym('v', 'S')), frozen=True))
through_chain('dict_plugin', 'dict', lambda I, s, d: HDict(I, node=d(sym('v', 'D')), cls='dict'))


# ------------------------------------------------------------------ arrays

HASHED = det('hashed', ty='str', params=('obj',))


def hashed(I, f, args, kwargs, kwd=None):
    """contract of hasher: a text that only depends on the content, with the algorithm and options of the plugins"""
    b = I.bind(f, args, kwargs, kwd)
    if cval(I.arg(b['hash_name'])) != 'md5' or cval(I.arg(b['coerce_mmap'])) is not False:
        return app('other_hash', I.arg(b['obj']), ty='str')
    return HASHED(I, f, args, kwargs, kwd)


HASHING = {'whatami.minijoblib.hashing.hasher': hashed, S + 'hashed': det('hashed', ty='str', params=('v',)),
           'whatami.what.whatareyou': introspected, S + 'introspected': introspected, QUAL + '.id': det('id', ty='str')}


def hash_plugin(name):
    def setup(I):
        I.plain_attr_errors = True
        I.overrides[P + 'np'] = ExtV('numpy')
        I.overrides[P + 'pd'] = ExtV('pandas')
        v = sym('v')
        return dict(call=lambda: I.call(I.resolve(P + name), [v], {}), spec=lambda: I.call(I.resolve(S + name), [v], {}))
    REGISTRY.append(Contract('rendering.%s' % name, P + name, setup, props=('C03', 'C29') if name != 'rng_plugin' else
                             ('C03',), hooks=HASHING))


for _n in ('numpy_plugin', 'pandas_plugin', 'rng_plugin'):
    hash_plugin(_n)
