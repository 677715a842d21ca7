"""What: its ids, lookups, copies and comparisons"""
from .common import *

QUAL = 'whatami.what.What'
BUILD = {'whatami.plugins.WhatamiPluginManager.build_string': det('text', params=('v',))}


def string_keys(I, d):
    I.assume(forall_keys(d, lambda k, v: pred('isinst:str', k)))


def what(I, name='self', conf='dict'):
    w = instance(I, QUAL, args=[const('n'), HDict(I, node=DEMPTY, cls='dict')],
                 expect={'name': 'str', 'conf': conf, 'non_id_keys': 'any', 'out_name': 'any'}, name=name)
    w.f['non_id_keys'] = HSet(I, node=sym(name + '.non_id_keys', 'S'))
    if conf == 'dict':
        string_keys(I, w.f['conf'].f['node'])
    I.assume(Or(eq(w.f['out_name'], NONE), pred('isinst:str', w.f['out_name'])))
    return w


def state(w):
    return {'what': w, 'conf': w.f['conf'], 'non_id_keys': w.f['non_id_keys']}


def method(name, args, props, suffix='', spec=None, **kw):
    static = kw.pop('static', False)

    def setup(I):
        w = what(I)
        a, k = args(I, w)
        real = I.getattr(w, name)
        return dict(call=lambda: I.call(real, a, k),
                    spec=lambda: I.call(I.resolve('spec.what.' + (spec or name)), ([] if static else [w]) + a, k),
                    frame=state(w))
    REGISTRY.append(Contract('what.' + name + suffix, QUAL + '.' + name, setup, props=props, **kw))


method('id', lambda I, w: ([flag('nonids_too'), sym('maxlength', ty='int')], {}), ('C01', 'C02', 'C04'), hooks=BUILD)
TRIM = dict(BUILD, **{'whatami.what.What._trim_too_long': det('trimmed', ty='str', raises=False)})


method('_trim_too_long', lambda I, w: ([sym('text', ty='str'), sym('maxlength', ty='int')], {}), ('C04',),
       spec='trimmed', static=True)
method('flatten', lambda I, w: ([], dict(non_ids_too=flag('non_ids_too'), recursive=boxb(FALSE))), ('C08',),
       suffix='.top_level', spec='flatten_top')
method('positional_id', lambda I, w: ([flag('non_ids_too'), sym('maxlength', ty='int')], {}), ('C01', 'C02', 'C04'),
       hooks=BUILD)
method('__str__', lambda I, w: ([], {}), ('C01', 'C02'), hooks=BUILD)
FLATTEN = {QUAL + '.flatten': det('flattened', result=lambda *a: tup(app('flat_keys', *a, ty='list'),
                                                                    app('flat_values', *a, ty='list')))}
method('keys', lambda I, w: ([flag('non_ids_too'), flag('collections_too'), flag('recursive')], {}), ('C08',),
       hooks=FLATTEN)
method('values', lambda I, w: ([flag('non_ids_too'), flag('collections_too'), flag('recursive')], {}), ('C08',),
       hooks=FLATTEN)
GETITEM = {QUAL + '.__getitem__': det('lookup')}
method('get', lambda I, w: ([sym('item'), sym('default')], {}), ('C08',), hooks=GETITEM)
method('set', lambda I, w: ([sym('key', ty='str'), sym('value'), flag('copy')], {}), ('C09',))
method('to_dict', lambda I, w: ([flag('nonids_too')], {}), ('C25',),
       hooks=dict(BUILD, **{'whatami.whatutils.id2dict': det('id2dict')}))


def built(I, f, args, kwargs, kwd=None):
    """a What with exactly these attributes"""
    b = I.bind(f, args, kwargs, kwd)
    o = HInst(I, I.resolve(QUAL))
    for n in ('name', 'conf', 'non_id_keys', 'out_name'):
        o.f[n] = b[n]
    return o


BUILT = {'spec.what.built': built}
method('copy', lambda I, w: ([flag('deep')], {}), ('C09',), hooks=BUILT)


@contract(['C09'], target=QUAL + '.copy', name='what.copy.independent')
def independent(I):
    w = what(I)
    return check(I, lambda: I.call(I.resolve('spec.what.independent'), [w, flag('deep')], {}))


def init(name, make_ids):
    def setup(I):
        conf = HDict(I, node=sym('conf', 'D'), cls='dict')
        ids = make_ids(I)
        args = [sym('name', ty='str'), conf, ids, sym('out_name')]
        frame = dict(conf=conf)
        if isinstance(ids, HObj):
            frame['ids'] = ids
        return dict(call=lambda: I.call(I.resolve('spec.what.make'), [I.resolve(QUAL)] + args, {}),
                    spec=lambda: I.call(I.resolve('spec.what.made'), args, {}), frame=frame)
    REGISTRY.append(Contract('what.__init__.' + name, QUAL + '.__init__', setup, props=('C02', 'C09', 'C10'),
                             hooks=BUILT))


init('no_nonids', lambda I: NONE)
init('nonids', lambda I: sym('non_id_keys'))
init('set_of_nonids', lambda I: HSet(I, node=sym('non_id_keys', 'S')))


IDS = dict(TRIM, **{QUAL + '.id': det('id', params=('self', 'nonids_too', 'maxlength'))})


@contract(['C10'], target=QUAL + '.__eq__', name='what.__eq__.anything', hooks=IDS)
def eq_anything(I):
    I.plain_attr_errors = True      # looking up attributes that do not exist raises AttributeError
    w = what(I)
    args = [w, sym('other')]
    return dict(call=lambda: I.call(I.getattr(w, '__eq__'), args[1:], {}),
                spec=lambda: I.call(I.resolve('spec.what.__eq__'), args, {}), frame=state(w))


@contract(['C10'], target=QUAL + '.__eq__', name='what.__eq__.what', hooks=IDS)
def eq_what(I):
    w, o = what(I), what(I, 'other')
    return dict(call=lambda: I.call(I.getattr(w, '__eq__'), [o], {}),
                spec=lambda: I.call(I.resolve('spec.what.equal_to_what'), [w, o], {}),
                frame=dict(state(w), other=o, other_conf=o.f['conf']))


method('__getitem__', lambda I, w: ([sym('item')], {}), ('C08',))


# flatten is a recursive local function: flattening the members of a value is covered by its own contract

FLAGS = ('non_ids_too', 'collections_too', 'recursive')
INNER = QUAL + '.flatten.<locals>.flatten'


def inner_hook(I, f, args, kwargs, kwd=None):
    b = I.bind(f, args, kwargs, kwd)
    vals = [v for n, v in b.items()]
    value, ks, vs, prefix = [b[p.arg] for p in f.node.args.args]
    key = [I.arg(value), I.arg(prefix)] + [I.arg(I.lookup(n, f.env)) for n in FLAGS]
    if not (isinstance(ks, HList) and isinstance(vs, HList)):
        raise Unsupported('accumulators of flatten')
    if I.branch(pred('flatten_fails', *key)):
        e = app('flatten_exc', *key)
        I.assume(pred('isinst:BaseException', e))
        raise PyExc(e)
    I.setnode(ks, scat(ks.f['node'], sbase(app('flat_keys', *key, ty='list'))))
    I.setnode(vs, scat(vs.f['node'], sbase(app('flat_values', *key, ty='list'))))
    return tup(I.tou(ks), I.tou(vs))


def spec_hook(I, f, args, kwargs, kwd=None):
    b = I.bind(f, args, kwargs, kwd)
    key = [I.arg(b[n]) for n in ('value', 'prefix') + FLAGS]
    if I.branch(pred('flatten_fails', *key)):
        e = app('flatten_exc', *key)
        I.assume(pred('isinst:BaseException', e))
        raise PyExc(e)
    return tup(app('flat_keys', *key, ty='list'), app('flat_values', *key, ty='list'))


def flatten_whole(I):
    w = what(I)
    flags = [flag(n) for n in FLAGS]
    return dict(call=lambda: I.call(I.getattr(w, 'flatten'), flags, {}),
                spec=lambda: I.call(I.resolve('spec.what.flatten'), [w] + flags, {}), frame=state(w))


REGISTRY.append(Contract('what.flatten', QUAL + '.flatten', flatten_whole, props=('C08',),
                         hooks={INNER: inner_hook, 'spec.what.flattened': spec_hook}))


def flatten_member(kind):
    def setup(I):
        flags = dict(zip(FLAGS, [flag(n) for n in FLAGS]))
        grabbed = []

        def grab(I, f, args, kwargs, kwd=None):
            grabbed.append(f)
            return tup(I.tou(HList(I, node=EMPTY)), I.tou(HList(I, node=EMPTY)))
        hooks, I.hooks = I.hooks, {INNER: grab}
        try:
            I.call(I.getattr(what(I, 'root'), 'flatten'), [], flags)
        finally:
            I.hooks = hooks
        frame = {}
        if kind == 'what':
            value = what(I, 'value')
            frame = state(value)
        elif kind == 'list':
            value = HList(I, node=sym('value', 'S'))
        elif kind in ('dict', 'OrderedDict'):
            value = HDict(I, node=sym('value', 'D'), cls=kind)
        elif kind in ('sublist', 'subtuple'):
            value = sym('value')
            I.assume(pred('isinst:' + kind[3:], value))
            for c in ('What', 'dict', 'list', 'tuple'):
                I.assume(Not(pred('exact:' + c if c == kind[3:] else 'isinst:' + c, value)))
        else:
            value = sym('value')
            for c in ('What', 'list', 'dict') + (() if kind == 'tuple' else ('tuple',)):
                I.assume(Not(pred('isinst:' + c, value)))
            if kind == 'tuple':
                I.assume(pred('isinst:tuple', value))
        if isinstance(value, HObj):
            frame['value'] = value
        prefix = seqv('tuple', sym('prefix', 'S'))
        ks, vs = HList(I, node=sym('keys', 'S')), HList(I, node=sym('values', 'S'))
        args = [value, ks, vs, prefix] + [flags[n] for n in FLAGS]
        return dict(call=lambda: I.call(I.resolve('spec.what.flatten_into'), [grabbed[0]] + args, {}),
                    spec=lambda: I.call(I.resolve('spec.what.flattened_into'), args, {}), frame=frame)
    REGISTRY.append(Contract('what.flatten.member.' + kind, QUAL + '.flatten', setup, props=('C08',), hooks={
        INNER: first_inlined(inner_hook), 'spec.what.flattened': first_inlined(spec_hook)}))


for kind in ('what', 'list', 'dict', 'tuple', 'other', 'OrderedDict', 'sublist', 'subtuple'):
    flatten_member(kind)


def retrieved(kind):
    def setup(I):
        flags = [flag(n) for n in FLAGS[:2]]
        if kind == 'what':
            value = what(I, 'value')
        elif kind == 'list':
            value = HList(I, node=sym('value', 'S'))
        elif kind in ('dict', 'OrderedDict'):
            value = HDict(I, node=sym('value', 'D'), cls=kind)
        else:
            value = seqv('tuple', sym('value', 'S'))
        return check(I, lambda: I.call(I.resolve('spec.what.members_retrieved'), [value] + flags, {}))
    REGISTRY.append(Contract('what.flatten.retrieved.' + kind, QUAL + '.__getitem__', setup, props=('C08',)))


for kind in ('what', 'list', 'dict', 'tuple', 'OrderedDict'):
    retrieved(kind)


# ------------------------------------------------------------------ relations between two configurations

def relation(name, method_name, args, relate, props, spec_what=None, **kw):
    """the real method gives the same result on two related configurations"""
    def setup(I):
        w1, w2 = what(I, 'one'), what(I, 'other')
        relate(I, w1, w2)
        a, k = args(I, w1)
        return dict(call=lambda: I.call(I.getattr(w1, method_name), a, k),
                    spec=lambda: I.call(I.getattr(w2, method_name), a, k),
                    frame=dict(one=w1, other=w2))
    REGISTRY.append(Contract('what.%s.%s' % (method_name, name), QUAL + '.' + method_name, setup, props=props, **kw))


def same_header(I, w1, w2):
    for n in ('name', 'out_name'):
        w2.f[n] = w1.f[n]


def equal_mappings(I, d1, d2):
    """same keys and values, maybe in other order"""
    I.assume(forall_keys(d1, lambda k, v: And(has(d2, k), same(dget(d2, k), v))))
    I.assume(forall_keys(d2, lambda k, v: And(has(d1, k), same(dget(d1, k), v))))


def node(o):
    return o.f['node']


def any_order(I, w1, w2):
    same_header(I, w1, w2)
    equal_mappings(I, node(w1.f['conf']), node(w2.f['conf']))
    n1, n2 = node(w1.f['non_id_keys']), node(w2.f['non_id_keys'])
    I.assume(forall(n1, lambda x: memf(n2, x)))
    I.assume(forall(n2, lambda x: memf(n1, x)))


def same_id_parameters(I, w1, w2):
    same_header(I, w1, w2)
    w2.f['non_id_keys'] = w1.f['non_id_keys']
    d1, d2, n = node(w1.f['conf']), node(w2.f['conf']), node(w1.f['non_id_keys'])
    I.assume(forall_keys(d1, lambda k, v: Or(contains(n, k), And(has(d2, k), same(dget(d2, k), v)))))
    I.assume(forall_keys(d2, lambda k, v: Or(contains(n, k), And(has(d1, k), same(dget(d1, k), v)))))


relation('canonical', 'id', lambda I, w: ([flag('nonids_too'), sym('maxlength', ty='int')], {}), any_order, ('C01',),
         hooks=TRIM)
relation('nonids_ignored', 'id', lambda I, w: ([], {}), same_id_parameters, ('C02',), hooks=TRIM)


def same_texts(I, w1, w2):
    """the values of the parameters of w2 are others with the same texts"""
    same_header(I, w1, w2)
    w2.f['non_id_keys'] = w1.f['non_id_keys']
    d, x = node(w1.f['conf']), fresh('k')
    w2.f['conf'] = HDict(I, node=dcomp(d, lam(x, tup(const(True), app('other', dget(d, x))))), cls='dict')


def member_text(I, f, args, kwargs, kwd=None):
    """contract of build_string, for members x and other(x) that have the same text"""
    v = I.arg(I.bind(f, args, kwargs, kwd)['v'])
    while v.op == 'app' and v.args[0] == 'other':
        v = v.args[1]
    return app('text', v, ty='str')


for _m in ('id', 'positional_id'):
    relation('through_chain', _m, lambda I, w: ([flag('nonids_too'), sym('maxlength', ty='int')], {}), same_texts, ('C21',),
             hooks=dict(TRIM, **{'whatami.plugins.WhatamiPluginManager.build_string': member_text}))


# ------------------------------------------------------------------ introspection

W = 'whatami.what.'
SPEC = 'spec.introspection.'


def call_of(I, f, args, kwargs, kwd=None):
    v = I.arg(args[0])
    if I.branch(pred('raises:call_of', v)):
        e = app('exc:call_of', v)
        I.assume(pred('isinst:BaseException', e))
        raise PyExc(e)
    return tup(app('call_name', v, ty='str'), I.tou(I.thaw(app('call_parameters', v, ty='dict'))))


MEMBERS = ('obj', 'add_dict', 'add_slots', 'add_properties', 'add_class')


def new_dict(name, params):
    """contract of functions that return new dictionaries with string keys"""
    def h(I, f, args, kwargs, kwd=None):
        b = I.bind(f, args, kwargs, kwd)
        names = ordered(f, b)
        if len(names) != params:
            raise Unsupported('parameters of ' + f.qualname)
        n = dbase(app(name, *[I.arg(b[p]) for p in names], ty='dict'))
        return HDict(I, node=n, cls='dict')
    return h


INTROSPECTION = {'whatami.misc.callable2call': call_of, SPEC + 'call_of': call_of,
                 'whatami.misc.config_dict_for_object': new_dict('members', 5), SPEC + 'members_of': new_dict('members', 5),
                 'whatami.misc.trim_dict': new_dict('visible', 4), SPEC + 'visible': new_dict('visible', 4)}


def introspect(kind):
    def setup(I):
        I.plain_attr_errors = True
        if kind == 'other':
            obj = sym('obj')
            for k in ('list', 'tuple', 'set', 'dict'):
                I.assume(Not(pred('isinst:' + k, obj)))
        elif kind in ('sublist', 'subtuple', 'subset'):
            obj = sym('obj')
            I.assume(pred('isinst:' + kind[3:], obj))
            for k in ('list', 'tuple', 'set', 'dict'):
                I.assume(Not(pred('exact:' + k if k == kind[3:] else 'isinst:' + k, obj)))
        elif kind == 'list':
            obj = HList(I, node=sym('obj', 'S'))
        elif kind == 'tuple':
            obj = seqv('tuple', sym('obj', 'S'))
        elif kind == 'set':
            obj = HSet(I, node=sym('obj', 'S'))
        elif kind == 'dict':
            obj = HDict(I, node=sym('obj', 'D'), cls='dict')
        else:
            obj = HDict(I, node=sym('obj', 'D'), cls='OrderedDict')
        ids = HList(I, node=sym('non_id_keys', 'S'))
        args = [obj, sym('name_override'), ids] + [flag(n) for n in MEMBERS[1:]] + [
            sym(n) for n in ('prefix', 'postfix', 'excludes')]
        frame = dict(non_id_keys=ids)
        if isinstance(obj, HObj):
            frame['obj'] = obj
        return dict(call=lambda: I.call(I.resolve(W + 'whatareyou'), args, {}),
                    spec=lambda: I.call(I.resolve(SPEC + 'whatareyou'), args, {}), frame=frame)
    REGISTRY.append(Contract('what.whatareyou.' + kind, W + 'whatareyou', setup, props=('C11', 'C12', 'C25'),
                             hooks=dict(BUILT, **INTROSPECTION)))


for kind in ('other', 'list', 'tuple', 'set', 'dict', 'subclass', 'sublist', 'subtuple', 'subset'):
    introspect(kind)


@contract(['C14', 'C25'], target=W + 'is_whatable', name='what.is_whatable')
def whatable_or_not(I):
    I.plain_attr_errors = True
    return dict(call=lambda: I.call(I.resolve(W + 'is_whatable'), [sym('obj')], {}),
                spec=lambda: I.call(I.resolve(SPEC + 'is_whatable'), [sym('obj')], {}))
