"""Recorder: atomic addition of records, their content, and the isolation of its configuration"""
from .common import *

QUAL = 'whatami.registry.Recorder'
FIELDS = {'_registry': 'odict', 'name': 'any', 'id_extractor': 'any', 'id_column_name': 'str',
          '_column_defaults': 'dict', '_record_postprocessors': 'list'}


def recorder(I, postprocessors=None):
    """its chain of postprocessors is a list, or a tuple; its containers are known by name: results must not be them"""
    r = instance(I, QUAL, expect=dict(FIELDS, **({} if postprocessors is None else {
        '_record_postprocessors': seqv('tuple', sym('postprocessors', 'S'))})))
    for k in ('_registry', '_column_defaults', '_record_postprocessors'):
        if isinstance(r.f[k], HObj):
            r.f[k].name = 'self.' + k
    return r


def chain(I, r):
    v = I.attr(r, '_record_postprocessors')
    if not (isinstance(v, HList) or isinstance(v, T) and I.kindof(v) == 'tuple'):
        raise Unsupported('the chain of postprocessors is neither a list nor a tuple')
    return seqv('chain', I.seq(v, keep=True))


def method(name, setup_args, props, suffix='', postprocessors=None, **kw):
    def setup(I):
        I.iterables_are_collections = True
        r = recorder(I, postprocessors)
        args, kwargs, kwd = setup_args(I, r)
        # the abstract state: registry in insertion order, defaults, chain of postprocessors, identifier extraction
        frame = {'registry': lambda: I.attr(r, '_registry'),
                 'column_defaults': lambda: I.attr(r, '_column_defaults'),
                 'postprocessors': lambda: chain(I, r),
                 'id_extractor': lambda: r.f['id_extractor'], 'id_column_name': lambda: r.f['id_column_name'],
                 'name': lambda: r.f['name']}
        for i, a in enumerate(args):
            if isinstance(a, HObj) and not isinstance(a, HIter):
                frame['arg%d' % i] = a

        def call():
            real = I.getattr(r, name)
            if isinstance(real, BoundV):
                return I.call(real, args, kwargs, kwd)
            return real
        # an iterator can be consumed: the specification is given its elements
        sargs = [HList(I, node=a.f['node']) if isinstance(a, HIter) else a for a in args if not isinstance(a, tuple)]
        sp = dict(kwargs)
        star = [a for a in args if isinstance(a, tuple)]
        if star:
            sargs.append(seqv('tuple', star[0][1]))
        if kwd is not None:
            sargs.append(HDict(I, node=kwd, cls='dict'))
        return dict(call=call, spec=lambda: I.call(I.resolve('spec.recorder.' + name), [r] + sargs, sp), frame=frame)
    REGISTRY.append(Contract('recorder.' + name + suffix, QUAL + '.' + name, setup, props=props, **kw))


def nothing(I, r):
    return [], {}, None


def star(I, r):
    return [('*', sym('args', 'S'))], {}, None


def kwds(I, r):
    d = sym('columns', 'D')
    I.assume(forall_keys(d, lambda k, v: pred('isinst:str', k)))
    for n in ('self', 'ids', 'unbox_iterables', 'record_postprocessors', 'override_postprocessors'):
        I.assume(Not(has(d, const(n))))
    return [], {}, d


def add_args(case, pp):
    def args(I, r):
        _, _, d = kwds(I, r)
        ids = sym('ids')
        if case == 'single':
            I.assume(Or(pred('isinst:str', ids), Not(pred('iterable', ids))))
            I.assume(Not(pred('isinst:dict', ids)))
        elif case == 'iterator':
            ids = HIter(I, node=sym('ids', 'S'))
        else:
            ids = HList(I, node=sym('ids', 'S'))
        if pp == 'none':
            pp_ = NONE
        else:
            pp_ = HList(I, node=sym('record_postprocessors', 'S'))
        override = boxb({'append': FALSE, 'override': TRUE}.get(pp, truthy(sym('override_postprocessors'))))
        return [ids, boxb(truthy(sym('unbox_iterables'))), pp_, override], {}, d
    return args


def is_iterable(I, f, args, kwargs, kwd=None):
    """contract of is_iterable: True iff iter(v) does not raise TypeError"""
    v = args[0]
    if isinstance(v, (HList, HDict, HSet, HIter)):
        return boxb(TRUE)
    if isinstance(v, T):
        k = I.kindof(v)
        if k in ('str', 'list', 'tuple', 'dict', 'set', 'frozenset', 'tup'):
            return boxb(TRUE)
        if k in ('none', 'int', 'bool', 'float'):
            return boxb(FALSE)
        return boxb(pred('iterable', v))
    raise Unsupported('is_iterable')


def params2dict(I, f, args, kwargs, kwd=None):
    """contract of Recorder._params2dict: a mapping that only depends on ids, value and unbox_iterables"""
    b = I.bind(f, args, kwargs, kwd)
    vals = [b[n] for n in ('ids', 'params', 'unbox_iterables')]
    if isinstance(vals[0], HIter):      # goes through the ids
        vals[0] = seqv('list', I.seq(vals[0]))
    return app('column_values', *[I.arg(v) for v in vals], ty='dict')


def column_values_spec(I, f, args, kwargs, kwd=None):
    b = I.bind(f, args, kwargs, kwd)
    return app('column_values', *[I.arg(b[n]) for n in ('ids', 'value', 'unbox_iterables')], ty='dict')


ADD_HOOKS = {'whatami.misc.is_iterable': is_iterable, QUAL + '._params2dict': params2dict,
             'spec.recorder.column_values': column_values_spec}


@contract(['C18'], target=QUAL + '._params2dict', name='recorder.column_values',
          hooks={'whatami.misc.is_iterable': is_iterable})
def column_values(I):
    I.iterables_are_collections = True
    ids = HList(I, node=sym('ids', 'S'))
    value, an_id, unbox = sym('value'), sym('an_id'), sym('unbox_iterables')
    I.assume(memf(ids.f['node'], an_id))
    I.assume(forall(ids.f['node'], lambda x: pred('hashable', x)))
    real = I.resolve(QUAL + '._params2dict')
    return dict(call=lambda: I.call(I.resolve('spec.recorder.lookup'), [real, ids, value, unbox, an_id], {}),
                spec=lambda: I.call(I.resolve('spec.recorder.column_value'), [value, ids, an_id, unbox], {}))


def constructor(I):
    """a new recorder is empty, and what it was given can change later without changing it"""
    _, _, defaults = kwds(I, None)
    for n in ('name', 'id_column_name', 'id_extractor'):
        I.assume(Not(has(defaults, const(n))))
    postprocessors = HList(I, node=sym('record_postprocessors', 'S'))
    args = [sym('name'), sym('id_column_name'), sym('id_extractor'), postprocessors]

    def call():
        r = I.instantiate(I.resolve(QUAL), args, {}, defaults)
        return tup(*[I.tou(I.attr(r, k)) for k in sorted(FIELDS)])
    return dict(call=call, spec=lambda: I.call(I.resolve('spec.recorder.new'), args + [HDict(I, node=defaults, cls='dict')], {}),
                frame=dict(postprocessors=postprocessors))


REGISTRY.append(Contract('recorder.__init__', QUAL + '.__init__', constructor, props=('C19',)))
method('column_defaults', nothing, ('C19',))
method('add_column_defaults', kwds, ('C19',))
method('remove_column_defaults', star, ('C19',))
for _suffix, _kind in (('', None), ('.tuple', 'tuple')):
    method('record_postprocessors', nothing, ('C19',), _suffix, _kind)
    method('add_record_postprocessors', star, ('C19',), _suffix, _kind)
    method('override_record_postprocessors', star, ('C19',), _suffix, _kind)
method('get', star, ('C18',))
method('__len__', nothing, ('C17',))
method('add', add_args('single', 'append'), ('C18',), '.tuple', 'tuple', hooks=ADD_HOOKS)
for case in ('single', 'many'):
    for pp in ('none', 'append', 'override'):
        method('add', add_args(case, pp), ('C17', 'C18'), suffix='.%s.%s' % (case, pp), budget=200, hooks=ADD_HOOKS)
method('add', add_args('iterator', 'none'), ('C17', 'C18'), suffix='.iterator', budget=200, hooks=ADD_HOOKS)


def one(I, r):
    v = sym('arg')
    I.assume(pred('hashable', v))
    return [v], {}, None


def records(I, r):
    """the records are dictionaries, with values that can be elements of sets"""
    c = sym('column')
    I.assume(pred('hashable', c))
    I.assume(forall_keys(r.f['_registry'].f['node'], lambda k, v: And(pred('isinst:dict', v), Not(
        pred('noattr:items', v)), Not(pred('noattr:__getitem__', v)), Not(exists(keys(dbase(v)), lam(sym('kk'), Not(
            pred('hashable', dget(dbase(v), sym('kk'))))))))))
    return [c], {}, None


def padding(I, r):
    add = sym('add')
    args, _, d = kwds(I, r)
    I.assume(Not(has(d, const('add'))))
    return [add], {}, d


method('__getitem__', one, ('C18',))
method('unique', records, ('C18',))
method('padd', padding, ('C18',))
