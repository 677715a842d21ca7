"""whatami.misc: introspection of objects, signatures and calls"""
from .common import *

M = 'whatami.misc.'
S = 'spec.misc.'


def add(name, setup, props, target=None, **kw):
    REGISTRY.append(Contract('misc.' + name, M + (target or name), setup, props=tuple(props), **kw))


def str_keys(I, d):
    I.assume(forall_keys(d, lambda k, v: pred('isinst:str', k)))


# ------------------------------------------------------------------ introspection of objects

def trim(I):
    cd = HDict(I, node=sym('cd', 'D'), cls='dict')
    str_keys(I, node(cd))
    pre, post = sym('prefix'), sym('postfix')
    for p in (pre, post):
        I.assume(Or(pred('isinst:str', p), eq(p, NONE)))
    ex = HList(I, node=sym('excludes', 'S'))
    I.assume(forall(node(ex), lambda x: pred('hashable', x)))
    args = [cd, pre, post, ex]
    return dict(call=lambda: I.call(I.resolve(M + 'trim_dict'), args, {}),
                spec=lambda: I.call(I.resolve(S + 'trim_dict'), args, {}), frame=dict(cd=cd, excludes=ex))


def node(o):
    return o.f['node']


add('trim_dict', trim, ['C11'])


def same_function(real, spec, *params, **kw):
    def setup(I):
        I.plain_attr_errors = kw.get('plain', False)
        args = [make_input(I, *p) if isinstance(p, tuple) else sym(p) for p in params]
        frame = {}
        for a, p in zip(args, params):
            if isinstance(a, HObj):
                frame[p[0]] = a
        for f in kw.get('assume', ()):
            f(I, *args)
        kwargs = {k: boxb(truthy(sym(k))) for k in kw.get('flags', ())}
        return dict(call=lambda: I.call(I.resolve(M + real), args, kwargs),
                    spec=lambda: I.call(I.resolve(S + spec), args, kwargs), frame=frame)
    return setup


add('_dict', same_function('_dict', 'attributes', 'obj', assume=[lambda I, o: I.branch(
    pred('noattr:__dict__', o)) or I.assume(pred('isinst:dict', app('attr:__dict__', o)))]), ['C11'])
add('_slotsdict', same_function('_slotsdict', 'slots', 'obj'), ['C11'])
add('_propsdict', same_function('_propsdict', 'properties', 'obj'), ['C11'])
add('_classdict', same_function('_classdict', 'class_members', 'obj'), ['C11'])
GROUPS = {}
for _real, _spec in (('_dict', 'attributes'), ('_slotsdict', 'slots'), ('_propsdict', 'properties'),
                     ('_classdict', 'class_members')):
    GROUPS[M + _real] = GROUPS[S + _spec] = det(_spec, ty='dict')
add('config_dict_for_object', same_function('config_dict_for_object', 'config_dict_for_object', 'obj', flags=(
    'add_dict', 'add_slots', 'add_properties', 'add_class')), ['C11'], hooks=GROUPS)
add('is_iterable', same_function('is_iterable', 'is_iterable', 'v'), ['C09', 'C18', 'C31'])

# ------------------------------------------------------------------ signatures

def names(I, obj):
    """names are strings, and they are not changed by reading them"""
    for o in (obj, I.tou(I.typeof(obj))):
        for a in ('__module__', '__qualname__', '__name__'):
            if a == '__module__':
                I.assume(Not(pred('noattr:' + a, o)))
            if not I.branch(pred('noattr:' + a, o)):
                I.assume(pred('isinst:str', app('attr:' + a, o)))


add('fqn', same_function('fqn', 'fqn', 'obj', flags=('use_class',), plain=True, assume=[names]), ['C31'])
add('required_args', same_function('required_args', 'required_args', 'func'), ['C31'])
add('ensure_has_positional_args', same_function('ensure_has_positional_args', 'has_positional_args', 'func', (
    'args', 'list'), assume=[lambda I, f, a: I.assume(Not(pred('noattr:__name__', f)))]), ['C31'], hooks={M + 'required_args': det('required', ty='list'),
                                      S + 'required_args': det('required', ty='list')})


# ------------------------------------------------------------------ calls



# ------------------------------------------------------------------ calls

def call_dict(kind):
    def setup(I):
        ignores = HList(I, node=sym('ignores', 'S'))
        I.assume(forall(node(ignores), lambda x: pred('hashable', x)))
        if kind == 'overrides':
            overrides = HDict(I, node=sym('overrides', 'D'), cls='dict')
        else:
            overrides = NONE
        over = sym('over_overrides', 'D')
        str_keys(I, over)
        for n in ('depth', 'ignores', 'ignore_varargs', 'overrides'):
            I.assume(Not(has(over, const(n))))
        args = [sym('depth', ty='int'), ignores, flag('ignore_varargs'), overrides]
        frame = dict(ignores=ignores)
        if kind == 'overrides':
            frame['overrides'] = overrides
        return dict(call=lambda: I.call(I.resolve(M + 'call_dict'), args, {}, over),
                    spec=lambda: I.call(I.resolve(S + 'call_dict'), args + [HDict(I, node=over, cls='dict')], {}),
                    frame=frame)
    add('call_dict.' + kind, setup, ['C27'], target='call_dict')


call_dict('no_overrides')
call_dict('overrides')


# ------------------------------------------------------------------ parameters of callables

INNER = M + 'callable2call.<locals>.callable2call_recursive'


def recursive_call(I, f, args, kwargs, kwd=None):
    b = I.bind(f, args, kwargs, kwd)
    vals = []
    for p in f.node.args.args:
        v = b[p.arg]
        if v is NONE and p.arg == 'positional':
            v = HList(I, node=EMPTY)
        if v is NONE and p.arg == 'keywords':
            v = HDict(I, node=DEMPTY, cls='dict')
        vals.append(I.arg(v))
    return _call_of(I, vals + [I.arg(I.lookup('closure_extractor', f.env))])


def _call_of(I, vals):
    if I.branch(pred('raises:call_of', *vals)):
        e = app('exc:call_of', *vals)
        I.assume(pred('isinst:BaseException', e))
        raise PyExc(e)
    return tup(app('call_name', *vals), app('call_parameters', *vals, ty='dict'))


def spec_call_of(I, f, args, kwargs, kwd=None):
    b = I.bind(f, args, kwargs, kwd)
    return _call_of(I, [I.arg(b[n]) for n in ('c', 'positional', 'keywords', 'closure_extractor')])


def inner(I, extractor):
    """the local function of callable2call"""
    grabbed = []

    def grab(I, f, args, kwargs, kwd=None):
        grabbed.append(f)
        return NONE
    hooks, I.hooks = I.hooks, {INNER: grab}
    try:
        I.call(I.resolve(M + 'callable2call'), [sym('anything'), extractor], {})
    finally:
        I.hooks = hooks
    return grabbed[0]


def identity(I, f, args, kwargs, kwd=None):
    """contract of curry2partial for functions, partials and objects that do not look like partials"""
    v = args[0]
    return I.thaw(v) if isinstance(v, T) else v


def a_function(I, f, nargs=True):
    """the signature of a function: names of its parameters, without repetitions, at least one for each default value"""
    I.assume(pred('isinst:function', f))
    for p in ('noargspec', 'noattr:__name__', 'noattr:__closure__'):
        I.assume(Not(pred(p, f)))
    I.assume(pred('isinst:str', app('attr:__name__', f)))
    closure = app('attr:__closure__', f)
    if not I.branch(eq(closure, NONE)):
        I.assume(pred('isinst:tuple', closure))
        I.assume(Not(pred('nolen', closure)))
        I.assume(nonempty(sbase(closure)))
    names, defaults = sbase(app('fa:args', f, ty='list')), app('fa:defaults', f)
    I.assume(forall(names, lambda x: pred('isinst:str', x)))
    I.assume(Or(eq(defaults, NONE), pred('isinst:tuple', defaults)))


def callable_case(case):
    def setup(I):
        extractor = sym('closure_extractor', ty='func')
        I.total_fns = {extractor}
        f = inner(I, extractor)
        positional = HList(I, node=sym('positional', 'S'))
        keywords = HDict(I, node=sym('keywords', 'D'), cls='dict')
        str_keys(I, node(keywords))
        if case in ('function', 'closure'):
            c = sym('c')
            a_function(I, c)
            closure = Not(eq(app('attr:__closure__', c), NONE))
            I.assume(closure if case == 'closure' else Not(closure))
            if case == 'closure':
                a_function(I, app('call1', extractor, c))
        elif case == 'partial':
            kw = sym('c.keywords', 'D')
            str_keys(I, kw)
            c = app('partial_star', sym('c.func'), seqv('tuple', sym('c.args', 'S')), dictv('dict', kw), ty='partial')
        else:
            c = sym('c')
            for k in ('function', 'partial'):
                I.assume(Not(pred('isinst:' + k, c)))
            I.assume(Iff(pred('noattr:__call__', c), Not(pred('callable', c))))
            I.plain_attr_errors = True
        args = [c, positional, keywords, extractor]
        return dict(call=lambda: I.call(I.resolve(S + 'infer'), [f] + args, {}),
                    spec=lambda: I.call(I.resolve(S + case.replace('closure', 'function') + '_call'), args, {}),
                    frame=dict(positional=positional, keywords=keywords) if case != 'other' else {})
    add('callable2call.' + case, setup, ['C12'], target='callable2call', hooks={
        INNER: first_inlined(recursive_call), S + 'call_of': spec_call_of, M + 'curry2partial': identity})


for _case in ('function', 'closure', 'partial', 'other'):
    callable_case(_case)


def whole(I):
    args = [sym('c'), sym('closure_extractor', ty='func')]
    return dict(call=lambda: I.call(I.resolve(M + 'callable2call'), args, {}),
                spec=lambda: I.call(I.resolve(S + 'callable2call'), args, {}))


add('callable2call', whole, ['C12'], hooks={INNER: recursive_call, S + 'call_of': spec_call_of})
add('curry2partial', same_function('curry2partial', 'curry2partial', 'obj', plain=True), ['C12'])


# ------------------------------------------------------------------ lazy imports

def variants(I):
    v = sym('variants', 'S')
    I.assume(forall(v, lambda x: pred('isinst:str', x)))
    return v


def message(I):
    msg = sym('install_msg')
    I.assume(Or(eq(msg, NONE), pred('isinst:str', msg)))
    return msg


def public_name(I, name):
    for a in ('_library_name', '_install_msg', '_errors', '_maybe_import', 'module', '_variants'):
        I.assume(Not(same(name, const(a))))


def imports(case):
    def setup(I):
        vs = seqv('tuple', variants(I))
        name = sym('library_name', ty='str')
        msg = message(I)
        if case == 'used':
            x = fresh('x')
            for v in (sym('variants', 'S'), lit(name)):
                I.assume(Not(exists(v, lam(x, Not(And(pred('raises:import', x),
                                                      pred('isinst:ImportError', app('exc:import', x))))))))
            attr = sym('name', ty='str')
            public_name(I, attr)
            return dict(call=lambda: I.call(I.resolve(S + 'use'), [I.resolve(M + 'maybe_import'), name, msg, vs, attr], {}),
                        spec=lambda: I.call(I.resolve(S + 'use_of_missing'), [], {}))
        return dict(call=lambda: I.call(I.resolve(S + 'really_import'), [I.resolve(M + 'maybe_import'), name, msg, vs], {}),
                    spec=lambda: I.call(I.resolve(S + 'maybe_import'), [name, msg, vs], {}))
    add('maybe_import.' + case, setup, ['C28'], target='maybe_import', only_raises=case == 'used')


imports('found')
imports('used')


def member(I):
    vs = variants(I)
    public_name(I, app('rpartition2', sym('member_fqn', ty='str'), const('.'), ty='str'))
    args = [sym('member_fqn', ty='str'), flag('fail'), message(I)]
    return dict(call=lambda: I.call(I.resolve(S + 'apply'), [I.resolve(M + 'maybe_import_member'), args[0], args[1], args[2], seqv('tuple', vs)], {}),
                spec=lambda: I.call(I.resolve(S + 'maybe_import_member'), args + [seqv('tuple', vs)], {}))


add('maybe_import_member', member, ['C28'])


# ------------------------------------------------------------------ classes and closures

def constructor(I, o):
    d = app('fa:defaults', app('attr:__init__', o))
    I.assume(Or(eq(d, NONE), And(pred('isinst:tuple', d), Not(pred('nolen', d)))))


def a_class(I, c):
    I.assume(pred('isinst:list', app('call0', app('attr:__subclasses__', c))))


add('init_argspec', same_function('init_argspec', 'init_argspec', 'obj', assume=[constructor]), ['C31'])
add('is_closure', same_function('is_closure', 'is_closure', 'c'), ['C31'])
SUBCLASSES = det('all_subclasses', ty='list')
add('all_subclasses', same_function('all_subclasses', 'subclasses', 'cls', assume=[a_class]), ['C31'],
    hooks={M + 'all_subclasses': first_inlined(SUBCLASSES), S + 'all_subclasses': SUBCLASSES})
EXTRACTED = det('extracted')


def any_function(I, c):
    a_function(I, c)


add('extract_decorated_function_from_closure', same_function(
    'extract_decorated_function_from_closure', 'decorated_function', 'c', assume=[any_function]), ['C12'],
    hooks={M + 'extract_decorated_function_from_closure': first_inlined(EXTRACTED), S + 'extracted': EXTRACTED})
SUBMODULES = det('import_submodules', ty='dict', params=('package', 'recurse_packages', 'ignore_errors'))


def package(kind, recurse, ignore):
    def setup(I):
        p = sym('package', ty='str') if kind == 'name' else sym('package', ty='module')
        for m in (p, app('module', p, ty='module')):
            for a in ('__name__', '__path__'):
                I.assume(Not(pred('noattr:' + a, m)))
            I.assume(pred('isinst:str', app('attr:__name__', m)))
            rows = sbase(app('iter_modules', app('attr:__path__', m), ty='list'))
            I.assume(forall(rows, lambda r: And(pred('isinst:str', snth(sbase(r), iconst(1))), pred('isinst:tuple', r),
                                                ieq(ilen(sbase(r)), iconst(3)))))
        args = [p, const(recurse), const(ignore)]
        return dict(call=lambda: I.call(I.resolve(M + 'import_submodules'), args, {}),
                    spec=lambda: I.call(I.resolve(S + 'submodules'), args, {}))
    add('import_submodules.%s.%s%s' % (kind, 'all' if recurse else 'flat', '' if ignore else '.strict'), setup, ['C28'], target='import_submodules', hooks={
        M + 'import_submodules': first_inlined(SUBMODULES),
        S + 'import_submodules': det('import_submodules', ty='dict', params=('name', 'recurse_packages', 'ignore_errors'))})


for _kind in ('name', 'module'):
    for _recurse in (False, True):
        for _ignore in (False, True):
            package(_kind, _recurse, _ignore)


# ------------------------------------------------------------------ decorating members of classes

def decorate_some(I):
    """the metaclass: its name and its bases; what its __new__ hands to type.__new__"""
    decorators = sym('decorators', 'D')
    str_keys(I, decorators)
    I.assume(Not(has(decorators, const('name'))))
    name, cname, bases = sym('name', ty='str'), sym('cname', ty='str'), sym('bases', ty='tuple')
    members = sym('d', 'D')
    str_keys(I, members)
    I.total_calls = True
    I.assumptions_used.add('the decorators of decorate_some do not raise')
    made = []
    I.on_type3 = lambda *a: made.append(a) or const('metaclass')
    ds = [HDict(I, node=members, cls='dict') for _ in 'rs']

    def call():
        r = I.call(I.resolve(M + 'decorate_some'), [name], {}, decorators)
        if len(made) != 1 or r is not const('metaclass'):
            raise Unsupported('decorate_some makes no metaclass')
        mname, mbases, ns = made[0]
        new = I.getitem(ns, const('__new__'))
        cls = I.call(new, [sym('mcs'), cname, bases, ds[0]], {})
        return tup(box(mname), I.arg(mbases), box(ilen(keys(node(ns)))), I.arg(cls))
    return dict(call=call, spec=lambda: tup(name, tup(ClsV('type').t), const(1), app(
        'new_class', sym('mcs'), cname, bases, I.freeze(I.call(I.resolve(S + 'decorated_members'), [
            HDict(I, node=decorators, cls='dict'), ds[1]], {})))))


add('decorate_some', decorate_some, ['C31'])
