"""whatami.wrappers.what_sklearn: configurations of estimators"""
from .common import *

M = 'whatami.wrappers.what_sklearn.'
S = 'spec.sklearn.'


def add(name, setup, **kw):
    REGISTRY.append(Contract('sklearn.' + name, M + (kw.pop('target', None) or name), setup, props=('C30',), **kw))


def registry(I):
    """class name -> declaration"""
    r = HDict(I, node=sym('declared', 'D'), cls='dict')
    d = r.f['node']
    I.assume(forall_keys(d, lambda k, v: And(pred('isinst:str', k), Not(eq(v, NONE)), Not(pred('noattr:short_name', v)),
                                             Not(pred('noattr:non_id_params', v)))))
    I.overrides[M + '_SKLRegistry'] = r
    return r


INSPECTED = lambda name: det('inspected', ty='What', params=('x' if name == 'spec' else 'obj', 'name' if name == 'spec'
                                                             else 'name_override', 'non_id_keys'))


def inspect_forced(I, f, args, kwargs, kwd=None):
    b = I.bind(f, args, kwargs, kwd)
    if not I.branch(truthy(I.arg(b['force_inspect']))):
        return app('not_inspected', I.arg(b['obj']))
    return INSPECTED('real')(I, f, args, kwargs, kwd)


def estimator(I):
    r = registry(I)
    x = sym('x')
    args = [x, flag('use_short')]
    return dict(call=lambda: I.call(I.resolve(M + '_what_for_sklearn'), args, {}),
                spec=lambda: I.call(I.resolve(S + 'what_for_sklearn'), args + [r], {}), frame=dict(declared=r))


add('_what_for_sklearn', estimator, hooks={'whatami.whatutils.obj2what': inspect_forced,
                                           S + 'inspected': INSPECTED('spec')})


# ------------------------------------------------------------------ declarations

META = M + '_ObjectParametersMeta'


def declaring(I):
    r = registry(I)
    c = sym('skclass')
    I.assume(Not(pred('noattr:__name__', c)))
    I.assume(pred('isinst:str', app('attr:__name__', c)))
    nickname, params, notes, override = sym('nickname'), sym('non_id_params'), sym('notes'), flag('override')
    f = I.resolve(M + '_a')
    return dict(call=lambda: I.call(f, [c], dict(nickname=nickname, non_id_params=params, notes=notes,
                                            override=override)),
                spec=lambda: I.call(I.resolve(S + 'declare'), [r, I.resolve(META), c, nickname, params,
                                                                notes, override], {}),
                frame=dict(declared=r))


add('_a', declaring)


def fields(I):
    c, nickname, params = sym('skclass'), sym('nickname'), sym('non_id_params')
    I.assume(Not(pred('noattr:__name__', c)))
    make = I.resolve(META)
    return dict(call=lambda: I.call(I.resolve(S + 'declared'), [make, c, nickname, params, sym('notes')], {}),
                spec=lambda: I.call(I.resolve(S + 'declaration_fields'), [c, nickname, params], {}))


add('declaration', fields, target='_ObjectParametersMeta.__init__')


# ------------------------------------------------------------------ patching

def patching(I):
    patched = HSet(I, node=EMPTY)
    I.patched = patched
    args = [boxb(FALSE), boxb(FALSE)]
    bases = ('sklearn.base.BaseEstimator', 'sklearn.gaussian_process.kernels.Kernel',
             'sklearn.model_selection.BaseCrossValidator', 'sklearn.model_selection._split.BaseShuffleSplit',
             'sklearn.model_selection._split._RepeatedSplits')

    def spec():
        s = EMPTY
        for b in bases:
            s = scat(s, lit(const(b)))
        I.setnode(patched, s)
        return NONE
    return dict(call=lambda: I.call(I.resolve(M + 'whatamize_sklearn'), args, {}), spec=spec, frame=dict(patched=patched))


def patch(I, f, args, kwargs, kwd=None):
    """contract of whatamize_object: a class that has a what method is left alone unless forced"""
    b = I.bind(f, args, kwargs, kwd)
    c = b['clazz_or_fqn']
    c = const(c.name) if isinstance(c, ExtV) else I.arg(c)
    if I.branch(truthy(I.arg(b['force']))):
        c = app('overridden', c)
    I.call_method(I.patched, 'add', [c], {})
    return NONE


def nothing(I, f, args, kwargs, kwd=None):
    return NONE


add('whatamize_sklearn', patching, hooks={'whatami.whatutils.whatamize_object': patch,
                                          M + '_declare_id_nonid_attributes': nothing})
