"""whatami.what.whatable: decorating functions, classes and objects"""
from .common import *

W = 'whatami.what.whatable'
S = 'spec.decorating.'


def call_of(I, f, args, kwargs, kwd=None):
    v = I.arg(args[0])
    if I.branch(pred('raises:call_of', v)):
        e = app('exc:call_of', v)
        I.assume(pred('isinst:BaseException', e))
        raise PyExc(e)
    d = app('call_parameters', v, ty='dict')
    return tup(app('call_name', v, ty='str'), I.tou(HDict(I, node=dbase(d), cls='dict')))


HOOKS = {'whatami.misc.callable2call': call_of, S + 'call_of': call_of}
FLAGS = ('add_dict', 'add_slots', 'add_properties', 'add_class')


def options(I, **more):
    o = {n: flag(n) for n in FLAGS}
    for n in ('non_id_keys', 'excludes'):
        o[n] = HList(I, node=sym(n, 'S'))
        I.assume(forall(o[n].f['node'], lambda x: pred('hashable', x)))
    for n in ('exclude_prefix', 'exclude_postfix'):
        o[n] = sym(n, ty='str')
    o.update(more)
    d = HDict(I, node=DEMPTY, cls='dict')
    for n in o:
        I.setnode(d, upd(d.f['node'], const(n), I.tou(o[n])))
    return d


ATTRIBUTES = ('__name__', '__doc__', '__module__', '__dict__', '__qualname__', '__annotations__')


def a_function(I, kind):
    if kind == 'function':
        f = sym('function')
        I.assume(pred('isinst:function', f))
    else:
        f = app('partial_star', sym('c.func'), seqv('tuple', sym('c.args', 'S')), dictv('dict', sym('c.keywords', 'D')),
                ty='partial')
    for n in ATTRIBUTES:
        missing = pred('noattr:' + n, f)
        I.assume(Not(missing) if kind == 'function' or n in ('__doc__', '__dict__') else missing)
    return f


def function_case(real, spec, kind, *extra):
    def setup(I):
        I.plain_attr_errors = True
        f = a_function(I, kind)
        args = [f, options(I)]
        if extra:
            args += [seqv('tuple', sym('args', 'S')), HDict(I, node=sym('kwargs', 'D'), cls='dict')]
            I.assume(forall_keys(sym('kwargs', 'D'), lambda k, v: pred('isinst:str', k)))
        return dict(call=lambda: I.call(I.resolve(S + real), args, {}),
                    spec=lambda: I.call(I.resolve(S + spec), args, {}), frame=dict(f=f))
    REGISTRY.append(Contract('decorating.%s.%s' % (kind, real), W, setup, props=('C13',), hooks=HOOKS))


for kind in ('function', 'partial'):
    function_case('calling', 'called', kind, True)
    function_case('configuration', 'configured', kind)
    function_case('two_configurations', 'configured', kind)
    function_case('marked', 'true', kind)
function_case('name', 'original_name', 'function')
function_case('documentation', 'original_documentation', 'function')
function_case('deferred', 'called_and_configured', 'function', True)


function_case('documentation', 'original_documentation', 'partial')

PARAMETERS = ('obj', 'whatfunc', 'force_flag_as_whatami', 'non_id_keys') + FLAGS + (
    'exclude_prefix', 'exclude_postfix', 'excludes', 'modify_func_inplace')
DECORATED = det('decorated', params=PARAMETERS)


def deferring(I, f, args, kwargs, kwd=None):
    """the call without object is executed; the call with it obeys the contract"""
    if I.bind(f, args, kwargs, kwd)['obj'] is NONE:
        I.stack.append(('verifying', f.qualname))
        try:
            return I.call_function(f, args, kwargs, kwd)
        finally:
            I.stack.pop()
    I.decorated = True
    return DECORATED(I, f, args, kwargs, kwd)


def all_options(given):
    def setup(I):
        f = a_function(I, 'function')
        o = HDict(I, node=DEMPTY, cls='dict')
        for n in (PARAMETERS[1:] if given else ()):
            v = flag(n) if n in FLAGS or n in ('force_flag_as_whatami', 'modify_func_inplace') else sym(n)
            I.setnode(o, upd(o.f['node'], const(n), v))
        I.decorated = False

        def call():
            try:
                return I.call(I.resolve(S + 'deferred_decorator'), [f, o], {})
            finally:
                if not I.decorated:
                    raise Unsupported('deferred decoration that does not call whatable')
        return dict(call=call,
                    spec=lambda: I.call(I.resolve(S + 'direct_decorator'), [f, o], {}))
    REGISTRY.append(Contract('decorating.deferred.' + ('options' if given else 'defaults'), W, setup, props=('C13', 'C14'),
                             hooks={W: deferring, S + 'decorated': DECORATED}))


all_options(True)
all_options(False)


def object_case(real, spec, kind):
    def setup(I):
        args = [const(kind), options(I)]
        return dict(call=lambda: I.call(I.resolve(S + real), args, {}),
                    spec=lambda: I.call(I.resolve(S + spec), args, {}), state=['Some.what'])
    REGISTRY.append(Contract('decorating.%s.%s' % (kind, real), W, setup, props=('C14',), hooks={
        'whatami.what.whatareyou': introspected}))


def introspected(I, f, args, kwargs, kwd=None):
    """contract of whatareyou: a function of the object and of the options"""
    b = I.bind(f, args, kwargs, kwd)
    o = b.pop('obj')
    names = [n for n in ordered(f, b)]
    if not isinstance(o, HInst):
        raise Unsupported('whatareyou of something else')
    vals = [I.typeof(o) if False else const(o.cls.name)] + [I.arg(b[n]) for n in names]
    return app('introspected', *vals)


for kind in ('class', 'instance'):
    object_case('observe', 'observed', kind)
    object_case('decorate_foreign', 'foreign_kept', kind)


@contract(['C14'], target=W, name='decorating.builtin', only_raises=True)
def builtins_rejected(I):
    I.plain_attr_errors = True
    b = sym('builtin')
    I.assume(pred('isinst:builtin', b))
    for n in ('function', 'partial', 'type'):
        I.assume(Not(pred('isinst:' + n, b)))
    args = [b, options(I)]
    return dict(call=lambda: I.call(I.resolve(S + 'builtin'), args, {}),
                spec=lambda: I.call(I.resolve(S + 'rejected'), args, {}), frame=dict(b=b))


def option_case(real, spec, args, **kw):
    def setup(I):
        I.plain_attr_errors = True
        a = args(I)
        return dict(call=lambda: I.call(I.resolve(S + real), a, {}), spec=lambda: I.call(I.resolve(S + spec), a, {}),
                    state=['Some.what'])
    REGISTRY.append(Contract('decorating.%s' % kw.pop('name', real), W, setup, **kw))


def call_of_it(I, f, args, kwargs, kwd=None):
    """the functions of these specifications are the same one"""
    if not getattr(args[0], 'qualname', '').endswith('.<locals>.function'):
        raise Unsupported('parameters of something else than the decorated function')
    return call_of(I, f, [sym('function')], {}, kwd)


ITS_CALL = {k: call_of_it for k in HOOKS}
option_case('modified_in_place', 'modified', lambda I: [options(I), sym('value')], props=('C13',), hooks=ITS_CALL)
option_case('with_own_what', 'own_what', lambda I: [options(I), sym('value'), flag('in_place')], props=('C13',), hooks=ITS_CALL)
INTROSPECTED = {'whatami.what.whatareyou': introspected}
for kind in ('class', 'instance'):
    for real, spec, more in (('object_own_what', 'object_own', ['value']), ('marks', 'are_marked', []),
                             ('force_foreign', 'forced', []), ('again', 'decorated_again', [])):
        option_case(real, spec, (lambda k, m: lambda I: [const(k), options(I)] + [sym(n) for n in m])(kind, more), props=('C14',),
                    hooks=INTROSPECTED, name='%s.%s' % (kind, real))
