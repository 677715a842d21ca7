"""A call without its optional arguments is the call with the documented values of these arguments: each function here is compared with
itself (its other contracts are stated for all the values of these arguments)"""
from .common import *
from . import what as w_
from . import whatutils as u_
from . import misc as m_
from . import registry as r_

M = 'whatami.misc.'
U = 'whatami.whatutils.'
Q = 'whatami.what.What'


def documented(target, make, options, props, name=None, hooks=None, **kw):
    """options: pairs name, value (a python constant, a tuple of constants, or None)"""
    def setup(I):
        args, frame = make(I)
        if target.startswith(Q + '.'):
            def real():
                return I.getattr(args[0], target[len(Q) + 1:])
            given = args[1:]
        else:
            def real():
                return I.resolve(target)
            given = args
        values = {k: tup(*[const(x) for x in v]) if isinstance(v, tuple) else const(v) for k, v in options}
        return dict(call=lambda: I.call(real(), list(given), {}), spec=lambda: I.call(real(), list(given), dict(values)), frame=frame)
    REGISTRY.append(Contract('defaults.' + (name or target.split('.')[-1]), target, setup, props=props, hooks=hooks or {}, **kw))


def a_what(*more):
    def make(I):
        w = w_.what(I)
        return [w] + [m(I) for m in more], w_.state(w)
    return make


FLAT = (('non_ids_too', False), ('collections_too', False), ('recursive', True))
documented(Q + '.copy', a_what(), [('deep', False)], ('C09',))
documented(Q + '.flatten', a_what(), FLAT, ('C08',), hooks={w_.INNER: w_.inner_hook})
documented(Q + '.keys', a_what(), FLAT, ('C08',), hooks=w_.FLATTEN)
documented(Q + '.values', a_what(), FLAT, ('C08',), hooks=w_.FLATTEN)
documented(Q + '.get', a_what(lambda I: sym('item')), [('default', None)], ('C08',), hooks=w_.GETITEM)
documented(Q + '.id', a_what(), [('nonids_too', False), ('maxlength', 0)], ('C01', 'C02', 'C04'), hooks=w_.TRIM)
documented(Q + '.positional_id', a_what(), [('non_ids_too', False), ('maxlength', 0)], ('C01', 'C02', 'C04'), hooks=w_.TRIM)
documented(Q + '.to_dict', a_what(), [('nonids_too', False)], ('C25',),
           hooks=dict(w_.BUILD, **{'whatami.whatutils.id2dict': det('id2dict')}))
documented(U + 'obj2what', lambda I: ([sym('obj')], {}),
           [('force_inspect', False), ('name_override', None), ('non_id_keys', None), ('add_dict', True), ('add_slots', True),
            ('add_properties', True), ('exclude_prefix', '_'), ('exclude_postfix', '_'), ('excludes', ('what',))], ('C25', 'C11'),
           hooks={'whatami.what.whatareyou': u_.with_options, 'whatami.what.is_whatable': u_.WHATABLE})


def a_match(I):
    args, _, frame = u_.matching(I)
    return args[:2], {'whatids': frame['whatids']}


documented(U + 'match_whatids', a_match, [('ignored_keys', ())] + list(FLAT), ('C23',),
           hooks=dict(u_.PARSE_VALID, **dict(u_.FLATTEN, **u_.IGNORES)))


def a_dict(I):
    cd = HDict(I, node=sym('cd', 'D'), cls='dict')
    m_.str_keys(I, m_.node(cd))
    return [cd], dict(cd=cd)


documented(M + 'trim_dict', a_dict, [('exclude_prefix', '_'), ('exclude_postfix', '_'), ('excludes', ('what',))], ('C11',))
documented(M + 'config_dict_for_object', lambda I: ([sym('obj')], {}),
           [('add_dict', True), ('add_slots', True), ('add_properties', True), ('add_class', False)], ('C11',), hooks=m_.GROUPS)
documented(M + 'call_dict', lambda I: ([], {}),
           [('depth', 1), ('ignores', ('cls', 'self')), ('ignore_varargs', False), ('overrides', None)], ('C27',))
documented(U + 'call2what', lambda I: ([], {}), [('depth', 1), ('non_id_keys', None)], ('C27',))
documented(Q + '.set', a_what(lambda I: sym('key', ty='str'), lambda I: sym('value')), [('copy', False)], ('C09',))


def a_configuration(I):
    conf = HDict(I, node=sym('conf', 'D'), cls='dict')
    return [sym('name', ty='str'), conf], dict(conf=conf)


documented(Q, a_configuration, [('non_id_keys', None), ('out_name', None)], ('C02', 'C10'), name='What')


for given in ('nickname', 'what'):
    def removing(I, given=given):
        r = r_.registry(I)
        a = sym(given)
        i = app('what2id', a) if given == 'what' else a
        I.assume(pred('isinst:str', i))
        real = I.getattr(r, 'remove')
        other = 'what' if given == 'nickname' else 'nickname'
        return dict(call=lambda: I.call(real, [], {given: a}), spec=lambda: I.call(I.resolve('spec.registry.remove'), [r] + (
            [a, NONE] if given == 'nickname' else [NONE, a]), {}), frame={'ids': r.f['_id2nick'], 'nicks': r.f['_nick2id']})
    REGISTRY.append(Contract('defaults.remove.' + given, 'whatami.registry.WhatamiRegistry.remove', removing, props=('C16',),
                             hooks=r_.WHAT2ID))


def a_library(I):
    return [sym('library_name', ty='str')], {}


documented(M + 'maybe_import', a_library, [('install_msg', None)], ('C28',))


def a_member(I):
    m_.public_name(I, app('rpartition2', sym('member_fqn', ty='str'), const('.'), ty='str'))
    return [sym('member_fqn', ty='str')], {}


documented(M + 'maybe_import_member', a_member, [('fail_if_import_error', True), ('install_msg', None)], ('C28',))


def an_object(I):
    I.plain_attr_errors = True
    return [sym('obj')], {}


documented('whatami.what.whatareyou', an_object,
           [('name_override', None), ('non_id_keys', None), ('add_dict', True), ('add_slots', True), ('add_properties', True),
            ('add_class', False), ('exclude_prefix', '_'), ('exclude_postfix', '_'), ('excludes', ('what',))], ('C11', 'C12'),
           hooks=dict(w_.BUILT, **w_.INTROSPECTION))


def a_frame(I):
    ids = HList(I, node=sym('ids', 'S'))
    u_.hashable_strings(I, ids.f['node'])
    col = sym('whatid_col', ty='str')
    df = I.instantiate(I.resolve(u_.S + 'Frame'), [HDict(I, node=upd(DEMPTY, col, I.tou(ids)), cls='dict')], {})
    return [df, col], dict(df=df, ids=ids)


documented(U + 'whatid2columns', a_frame, [('columns', None), ('prefix', ''), ('postfix', ''), ('inplace', True)], ('C24',),
           hooks=u_.COLUMNS)
