"""whatami.whatutils: conversions, sorting and matching"""
from .common import *
from .what import what, state, BUILD, QUAL

M = 'whatami.whatutils.'
S = 'spec.whatutils.'


def add(name, setup, props, target=None, **kw):
    REGISTRY.append(Contract('whatutils.' + name, M + (target or name), setup, props=tuple(props), **kw))


def same_function(real, spec, make, **kw):
    def setup(I):
        I.plain_attr_errors = kw.get('plain', False)
        args, kwargs, frame = (tuple(make(I)) + ({}, {}))[:3]
        return dict(call=lambda: I.call(I.resolve(M + real), args, kwargs),
                    spec=lambda: I.call(I.resolve(S + spec), args, kwargs), frame=frame)
    return setup


INTROSPECT = {'whatami.what.whatareyou': det('introspected', params=('obj',)),
              S + 'introspected': det('introspected', params=('obj',))}


def instance_of_what(I):
    w = what(I)
    return [w], {}, state(w)


add('what2id.what', same_function('what2id', 'what2id', instance_of_what, plain=True), ['C25'], target='what2id',
    hooks={QUAL + '.id': det('id', raises=False)})
add('what2id', same_function('what2id', 'what2id', lambda I: ([sym('obj')],), plain=True), ['C25'], hooks=INTROSPECT)
def has_attributes_of_what(I, w):
    I.assume(pred('isinst:str', app('attr:name', w)))
    I.assume(pred('isinst:dict', app('attr:conf', w)))
    I.assume(Or(eq(app('attr:out_name', w), NONE), pred('isinst:str', app('attr:out_name', w))))


PARSED = det('parsed', ty='What', ensures=has_attributes_of_what)
VALID = det('parsed', ty='What', ensures=has_attributes_of_what, raises=False)
PARSE_VALID = {'whatami.parsers.parse_whatid': VALID, S + 'parsed': VALID}
PARSE = {'whatami.parsers.parse_whatid': PARSED, S + 'parsed': PARSED}


add('id2dict', same_function('id2dict', 'id2dict', lambda I: ([sym('whatid', ty='str')],)), ['C25'],
    hooks=dict(PARSE, **{QUAL + '.to_dict': det('to_dict')}))


def flat_lists(*a):
    """the keys and the values: two lists of the same length (what.flatten adds to both at once)"""
    pairs = sbase(app('flat_pairs', *a, ty='list'))
    return tup(*[seqv('list', smap(pairs, lambda x: item(x, i))) for i in range(2)])


FLATTEN = {QUAL + '.flatten': det('flattened', raises=False, result=flat_lists)}
LOOKUP = {QUAL + '.__getitem__': det('lookup')}
add('whatvalues', same_function('whatvalues', 'whatvalues', lambda I: ([what(I), sym('keys')],)), ['C22'], hooks=LOOKUP)


def sort(name, real, spec, nkeys):
    def setup(I):
        whats = HList(I, node=sym('whats', 'S'))
        if real == 'sort_whatids':
            I.assume(forall(whats.f['node'], lambda x: pred('isinst:str', x)))
        keys = [sym('key%d' % i) for i in range(nkeys)]
        return dict(call=lambda: I.call(I.resolve(M + real), [whats] + keys, {}),
                    spec=lambda: I.call(I.resolve(S + spec), [whats] + keys, {}), frame=dict(whats=whats))
    add(name, setup, ['C22'], target=real, hooks=dict(PARSE_VALID, **{
        M + 'whatvalues': det('whatvalues', ty='tuple'), S + 'whatvalues': det('whatvalues', ty='tuple')}))


sort('sort_whats', 'sort_whats', 'sort_whats', 2)
sort('sort_whatids', 'sort_whatids', 'sort_whatids', 2)


def adding(I):
    w = what(I)
    vs = HList(I, node=sym('values', 'S'))
    return [w, sym('key', ty='str'), vs], {}, dict(state(w), values=vs)


add('whatadd', same_function('whatadd', 'whatadd', adding), ['C09'],
    hooks=dict(FLATTEN, **{QUAL + '.id': det('id')}))


def clazz(kind):
    def make(I):
        c = sym('cls')
        I.assume(pred('isinst:str', c) if kind == 'name' else Not(pred('isinst:str', c)))
        return [c, sym('what_func'), flag('fail_on_import_error'), flag('force')],
    return make


IMPORT = {'whatami.misc.maybe_import': det('imported'), S + 'imported': det('imported')}
add('whatamize_object.object', same_function('whatamize_object', 'whatamize_object', clazz('object'), plain=True),
    ['C14'], target='whatamize_object')
add('whatamize_object.name', same_function('whatamize_object', 'whatamize_object', clazz('name'), plain=True),
    ['C14'], target='whatamize_object', hooks=IMPORT)


# ------------------------------------------------------------------ matching


def ignores(I, f, args, kwargs, kwd=None):
    return boxb(pred('ignored', *[I.arg(a) for a in args]))


IGNORES = {M + 'match_whatids.<locals>.ignore_key': ignores, S + 'ignored': ignores}


def hashable_strings(I, s):
    I.assume(forall(s, lambda x: pred('isinst:str', x)))


def matching(I):
    ids = HList(I, node=sym('whatids', 'S'))
    hashable_strings(I, ids.f['node'])
    ign = HList(I, node=sym('ignored_keys', 'S'))
    I.assume(forall(ign.f['node'], lambda x: pred('hashable', x)))
    args = [ids, sym('template', ty='str'), ign] + [flag(n) for n in ('non_ids_too', 'collections_too', 'recursive')]
    return args, {}, dict(whatids=ids, ignored_keys=ign)


add('match_whatids', same_function('match_whatids', 'match_whatids', matching), ['C23'],
    hooks=dict(PARSE_VALID, **dict(FLATTEN, **IGNORES)))


def ignore_key(I):
    grabbed = []

    def grab(I, f, args, kwargs, kwd=None):
        grabbed.append(f)
        return boxb(FALSE)
    hooks, I.hooks = I.hooks, dict(PARSE_VALID, **dict(FLATTEN, **{
        M + 'match_whatids.<locals>.ignore_key': grab,
        QUAL + '.flatten': lambda I, *a, **k: tup(seqv('list', lit(const('k'))), seqv('list', lit(const(1))))}))
    try:
        I.call(I.resolve(M + 'match_whatids'), [HList(I, node=EMPTY), const('a()')], {})
    finally:
        I.hooks = hooks
    ign = HSet(I, node=sym('ignored_keys', 'S'))
    key = sym('key')
    I.assume(pred('hashable', key))
    I.assume(Or(Not(pred('isinst:tuple', key)), nonempty(sbase(key))))
    return dict(call=lambda: I.call(I.resolve(S + 'ignore_step'), [grabbed[0], key, ign], {}),
                spec=lambda: I.call(I.resolve(S + 'ignored'), [key, ign], {}), frame=dict(ignored_keys=ign))


add('match_whatids.ignored', ignore_key, ['C23'], target='match_whatids', hooks={
    k: first_inlined(h) for k, h in IGNORES.items()})

# ------------------------------------------------------------------ conversions

OPTIONS = ('name_override', 'non_id_keys', 'add_dict', 'add_slots', 'add_properties', 'exclude_prefix',
           'exclude_postfix', 'excludes')


def converting(I):
    opts = [sym(n) for n in OPTIONS]
    return dict(call=lambda: I.call(I.resolve(M + 'obj2what'), [sym('obj'), flag('force_inspect')],
                                    dict(zip(OPTIONS, opts))),
                spec=lambda: I.call(I.resolve(S + 'obj2what'), [sym('obj'), flag('force_inspect')] + opts, {}))


def with_options(I, f, args, kwargs, kwd=None):
    b = I.bind(f, args, kwargs, kwd)
    if 'options' in b:
        vals = [b['obj']] + [I.thaw(t) for t in I.seq(b['options']).args]
    else:
        vals = [b['obj']] + [b[n] for n in OPTIONS]
        if I.tou(b['add_class']) != const(False):
            raise Unsupported('add_class')
    v = [I.arg(a) for a in vals]
    if I.branch(pred('raises:introspected', *v)):
        e = app('exc:introspected', *v)
        I.assume(pred('isinst:BaseException', e))
        raise PyExc(e)
    return app('introspected', *v)


WHATABLE = det('is_whatable', raises=False)
add('obj2what', converting, ['C25'], hooks={
    'whatami.what.whatareyou': with_options, S + 'introspected': with_options,
    'whatami.what.is_whatable': WHATABLE, S + 'is_it_whatable': WHATABLE})
add('_get_or_none', same_function('_get_or_none', 'get_or_none', lambda I: ([what(I), sym('key')],)), ['C24'],
    hooks=LOOKUP)
add('_key2colname', same_function('_key2colname', 'key2colname', lambda I: ([sym('key')],)), ['C24'])
TRANSLATE = det('translated', ty='What', ensures=has_attributes_of_what)
add('id2whatami4', same_function('id2whatami4', 'id2whatami4', lambda I: ([sym('oldwhatid', ty='str')],)), ['C26'],
    hooks={M + 'oldid2what': TRANSLATE, S + 'translated': TRANSLATE, QUAL + '.id': det('id', raises=False)})


def parsed_instance(I, f, args, kwargs, kwd=None):
    """the contract of parse_whatid: a new What, function of the text and the parser"""
    b = I.bind(f, args, kwargs, kwd)
    a = [I.arg(b[n]) for n in ('id_string', 'parser', 'visitor')]
    if I.branch(pred('raises:parsed', *a)):
        e = app('exc:parsed', *a)
        I.assume(pred('isinst:BaseException', e))
        raise PyExc(e)
    w = HInst(I, I.resolve(QUAL))
    w.f['name'] = app('parsed_name', *a, ty='str')
    w.f['conf'] = HDict(I, node=dbase(app('parsed_conf', *a, ty='dict')), cls='dict')
    w.f['non_id_keys'] = HSet(I, node=EMPTY)
    w.f['out_name'] = app('parsed_out_name', *a)
    str_keys = w.f['conf'].f['node']
    I.assume(forall_keys(str_keys, lambda k, v: pred('isinst:str', k)))
    return w


INSTANCE = {'whatami.parsers.parse_whatid': parsed_instance, S + 'parsed': parsed_instance,
            'whatami.parsers.build_oldwhatami_parser': det('old_parser', raises=False)}
OLD_PARSER = 'OLD_WHATID_PARSER'


def old_id(when):
    """invariant: the parser of old ids is not built yet, or it is the one"""
    def setup(I):
        args = [sym('oldwhatid', ty='str')]
        m = I.module('whatami.whatutils')
        built = I.tou(I.call(I.resolve('whatami.parsers.build_oldwhatami_parser'), [], {}))
        I.assume(Not(eq(built, NONE)))
        if when == 'later':
            if OLD_PARSER not in m.bindings:
                raise Unsupported('the state of oldid2what')
            m.vars[OLD_PARSER] = built

        def invariant():
            v = I.module_global(m, OLD_PARSER) if OLD_PARSER in m.bindings else NONE
            if not isinstance(v, T) or v is not NONE and v.op != 'app':
                raise Unsupported('the state of oldid2what')
            return const(v is NONE or v is built)
        return dict(call=lambda: I.call(I.resolve(M + 'oldid2what'), args, {}),
                    spec=lambda: I.call(I.resolve(S + 'oldid2what'), args, {}),
                    state=[OLD_PARSER], frame=dict(parser=invariant))
    add('oldid2what.' + when, setup, ['C26'], target='oldid2what', hooks=INSTANCE)


old_id('first')
old_id('later')


def function_like(I):
    o = HInst(I, I.resolve(M + 'FunctionLike'))
    return dict(call=lambda: I.call(I.getattr(o, 'what'), [], {}),
                spec=lambda: I.call(I.resolve(S + 'function_like'), [o], {}))


def members(I, f, args, kwargs, kwd=None):
    d = app('members', I.arg(args[0]), ty='dict')
    I.assume(forall_keys(dbase(d), lambda k, v: pred('isinst:str', k)))
    return I.thaw(d)


add('FunctionLike.what', function_like, ['C25'], hooks={'whatami.misc.config_dict_for_object': members})


# ------------------------------------------------------------------ columns

# the part of pandas in use, assumed: a frame is a mapping of columns, a column a sequence of values

def column_hooks(raises):
    return dict(PARSE_VALID, **{
        M + '_get_or_none': det('get_or_none', raises=raises), S + 'get_or_none': det('get_or_none', raises=raises),
        QUAL + '.keys': det('id_keys', raises=False, ty='list'), M + '_key2colname': det('colname', ty='str', raises=False),
        S + 'key2colname': det('colname', ty='str', raises=False)})


COLUMNS = column_hooks(False)


def columns_of(name, whatid_columns, raises=True, fixes=True):
    def setup(I):
        ids = HList(I, node=sym('ids', 'S'))
        hashable_strings(I, ids.f['node'])
        col = sym('whatid_col', ty='str')
        df = I.instantiate(I.resolve(S + 'Frame'), [HDict(I, node=upd(DEMPTY, col, I.tou(ids)), cls='dict')], {})
        prefix, postfix = (sym('prefix'), sym('postfix')) if fixes else (NONE, sym('postfix', ty='str'))
        for p in (prefix, postfix):
            I.assume(Or(eq(p, NONE), pred('isinst:str', p)))
            I.assume(Or(eq(p, NONE), eq(p, const('')), truthy(p)))
        columns = whatid_columns(I)
        args = [df, col, columns, prefix, postfix, flag('inplace')]
        return dict(call=lambda: I.call(I.resolve(M + 'whatid2columns'), args, {}),
                    spec=lambda: I.call(I.resolve(S + 'whatid2columns'), args, {}), frame=dict(df=df, ids=ids))
    add('whatid2columns.' + name, setup, ['C24'], target='whatid2columns', hooks=column_hooks(raises))


columns_of('one', lambda I: HList(I, node=lit(sym('column'))))
columns_of('several', lambda I: HList(I, node=sym('columns', 'S')), raises=False, fixes=False)
columns_of('all', lambda I: NONE, raises=False, fixes=False)


def calling(I):
    keys = HSet(I, node=sym('non_id_keys', 'S'))
    depth = sym('depth', ty='int')
    I.assume(ile(iconst(0), I.toint(depth)))
    return [depth, keys], {}, dict(non_id_keys=keys)


add('call2what', same_function('call2what', 'call2what', calling), ['C27'])
