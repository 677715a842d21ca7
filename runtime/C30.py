# coding=utf-8
"""Configurations of scikit-learn estimators"""
import inspect
import warnings
from .common import *

RULE = 'all the classes declared by the wrapper that can be built, with their default parameters and with random values of random parameters, ' \
       'nested estimators, classes without declaration, objects without get_params, and patching with and without previous what methods'
N = 600
_LOADED = []


def load():
    if not _LOADED:
        warnings.simplefilter('ignore')
        from whatami.wrappers import what_sklearn as w
        from sklearn.base import BaseEstimator
        ok(not hasattr(BaseEstimator, 'what'), 'importing the wrapper patches sklearn')
        ok(w.whatamize_sklearn() is None, 'patching returns something')
        ok(BaseEstimator.__dict__.get('what') is w._what_for_sklearn, 'sklearn is not patched')
        _LOADED.append(w)
    return _LOADED[0]


def values(rng):
    return rng.choice([None, True, False, 0, 1, 2, 0.5, 'auto', 'abc', ['t', 1, 2], ['l', 1.5], ['d', ['a', 1]]])


def klass(name):
    """declared classes, or undeclared ones"""
    w = load()
    from sklearn.base import BaseEstimator
    if name in w._SKLRegistry:
        return w._SKLRegistry[name].object

    class Undeclared(BaseEstimator):
        def __init__(self, a=1, verbose=False, n_jobs=3, zeta='x', estimator=None):
            self.a, self.verbose, self.n_jobs, self.zeta, self.estimator = a, verbose, n_jobs, zeta, estimator
            self.hidden, self._private, self.fitted_ = 33, 34, 35

        def fit(self, x, y=None):
            self.fitted_ = 2
            self.coef_ = x
            return self

    class Mine(Undeclared):
        def __init__(self, b=1):
            Undeclared.__init__(self)
            self.b = b

    class NoParams(object):
        what = w._what_for_sklearn

        def __init__(self, x=1, y=2):
            self.x, self.y, self._z, self.t_ = x, y, 5, 6

        @property
        def prop(self):
            return 9
    class MyForest(w._SKLRegistry['RandomForestClassifier'].object):
        pass

    class MyKMeans(w._SKLRegistry['KMeans'].object):
        def __init__(self, n_clusters=8, verbose=0, n_jobs=None, extra=1):
            super(MyKMeans, self).__init__(n_clusters=n_clusters, verbose=verbose, n_jobs=n_jobs)
            self.extra = extra
    return {'MyForest': MyForest, 'MyKMeans': MyKMeans, 'Undeclared': Undeclared, 'Mine': Mine, 'NoParams': NoParams}[name]


def build(j):
    c = klass(j['class'])
    kw = {}
    for k, v in j.get('params', []):
        kw[str(k)] = build(v) if isinstance(v, dict) else dec(v)
    try:
        return c(**kw)
    except Exception:       # constructors with requirements
        return None


def table():
    w = load()
    for name in list(w._SKLRegistry) + ['Undeclared', 'Mine', 'NoParams', 'MyForest', 'MyKMeans']:
        yield {'class': name}
    for name in ('Undeclared', 'RandomForestClassifier', 'KMeans', 'MyForest', 'MyKMeans'):
        yield {'class': name, 'params': [['verbose', 5], ['n_jobs', 7]]}
    yield {'class': 'Undeclared', 'params': [['estimator', {'class': 'RandomForestClassifier', 'params': [['n_jobs', 3]]}], ['verbose', 1]]}
    yield {'class': 'BaggingClassifier', 'params': [['base_estimator', {'class': 'SVC', 'params': [['C', 2.5], ['verbose', 3]]}]]}
    yield {'class': 'Undeclared', 'params': [['estimator', {'class': 'NoParams'}]]}
    yield {'patch': 'existing'}
    yield {'patch': 'twice'}
    yield {'patch': 'base'}
    for name in ('KMeans', 'LinearRegression', 'StandardScaler', 'PCA', 'GaussianNB', 'KernelRidge'):
        yield {'class': name, 'fit': True}
    yield {'class': 'Undeclared', 'fit': True}


def gen(rng, depth=1):
    w = load()
    name = rng.choice(list(w._SKLRegistry) + ['Undeclared', 'Mine', 'NoParams'] * 5)
    c = klass(name)
    try:
        names = [n for n in inspect.signature(c.__init__).parameters if n not in ('self', 'args', 'kwargs')]
    except (TypeError, ValueError):
        names = []
    params = []
    for n in rng.sample(names, min(len(names), rng.randrange(4))):
        params.append([n, gen(rng, 0) if depth and rng.random() < .3 else values(rng)])
    return {'class': name, 'params': params}


def check(j):
    from whatami import What, whatamize_object, obj2what
    w = load()
    from sklearn.base import BaseEstimator
    if 'patch' in j:
        return patch(j['patch'])
    o = build(j)
    if o is None:
        return
    cname = type(o).__name__
    if type(o).__dict__.get('what') is not None and type(o).__module__.startswith('sklearn'):
        ok(type(o).__dict__['what'] is w._what_for_sklearn, 'another what')
    if not hasattr(o, 'what'):
        return
    declared = {n: (m.object, m.short_name, m.non_id_params) for n, m in w._SKLRegistry.items()}
    short, nonids = cname, ()
    if cname in declared:
        short, nonids = declared[cname][1], declared[cname][2]
        if short is None:
            short = cname
    if hasattr(o, 'get_params'):
        try:
            params = o.get_params(deep=False)
        except AttributeError:
            return          # objects that do not follow the contract of sklearn
    else:
        params = {k: v for k, v in vars(o).items() if not k.startswith('_') and not k.endswith('_')}
        for n in dir(type(o)):
            if isinstance(getattr(type(o), n), property) and not n.startswith('_') and not n.endswith('_'):
                params[n] = getattr(o, n)
    before = dict(vars(o))
    for kw, name in (({}, short), ({'use_short': True}, short), ({'use_short': False}, cname)):
        what = o.what(**kw)
        ok(type(what) is What, 'what() of %s returns %r', cname, what)
        ok(what.name == name, 'the name of %s is %r instead of %r', cname, what.name, name)
        ok(set(what.conf) == set(params) and all(what.conf[k] is params[k] or what.conf[k] == params[k] for k in params),
           'the parameters of %s are %r instead of %r', cname, what.conf, params)
        ok(set(what.non_id_keys) == set(nonids or ()), 'the non-id keys of %s are %r instead of %r', cname, what.non_id_keys, nonids)
        ok(what.out_name is None, 'the output name is %r', what.out_name)
    ok(o.what() is not o.what() and o.what().conf is not o.what().conf, 'configurations are shared')
    try:
        whatid = o.what().id()
    except Exception:
        whatid = None       # values without text
    if whatid is not None:
        bare = What(short, {k: v for k, v in params.items() if k not in (nonids or ())})
        ok(whatid == bare.id() == o.what().id(), 'the id is %r instead of %r', whatid, bare.id())
        ok(str(o.what()).startswith(short + '('), 'the text is %s', o.what())
    ok(set(vars(o)) == set(before) and all(vars(o)[k] is before[k] for k in before), 'the object changed')
    ok(declared == {n: (m.object, m.short_name, m.non_id_params) for n, m in w._SKLRegistry.items()}, 'the declarations changed')
    if whatid is not None and hasattr(o, 'set_params') and params:
        for k in sorted(params):
            if k in (nonids or ()):
                try:
                    o.set_params(**{k: 'something else'})
                except Exception:
                    continue
                ok(o.what().id() == whatid, 'the id depends on %s', k)
                o.set_params(**{k: params[k]})
    if j.get('fit'):
        import numpy as np
        x = np.array([[0., 1.], [1., 3.], [2., 2.5], [4., 0.]] * 5)
        try:
            o.fit(x, np.array([0, 1, 1, 0] * 5))
        except Exception:
            return
        ok(o.what().id() == whatid and o.what() == What(short, params), 'fitting changed the configuration to %s', o.what())


def patch(kind):
    from sklearn.base import BaseEstimator
    from whatami import whatamize_object
    w = load()
    if kind == 'twice':
        before = w._what_for_sklearn
        n = len(w._SKLRegistry)
        w.whatamize_sklearn()
        ok(BaseEstimator.__dict__['what'] is before and len(w._SKLRegistry) == n, 'patching twice is not idempotent')
        return
    if kind == 'base':
        saved = BaseEstimator.what

        def foreign(self):
            return 'foreign'
        others = [c for c in (w.maybe_import_member(n, fail_if_import_error=False) for n in w._WHATAMIZED_BASES[1:]) if c is not None]
        saved2 = [c.__dict__.get('what') for c in others]
        try:
            BaseEstimator.what = foreign
            for c in others:
                c.what = foreign
            w.whatamize_sklearn()
            ok(BaseEstimator.__dict__['what'] is foreign, 'patching replaced a what method')
            ok(all(c.__dict__['what'] is foreign for c in others), 'patching replaced a what method of other classes')
            del BaseEstimator.what
            for c in others:
                del c.what
            w.whatamize_sklearn()
            ok(BaseEstimator.__dict__['what'] is w._what_for_sklearn, 'patching does not patch')
            ok(all(c.__dict__['what'] is w._what_for_sklearn for c in others), 'patching does not patch other classes')
        finally:
            BaseEstimator.what = saved
            for c, s in zip(others, saved2):
                if s is not None:
                    c.what = s
        return

    class Own(BaseEstimator):
        def what(self):
            return 'own'
    w.whatamize_sklearn()
    ok(Own().what() == 'own', 'patching replaced a what method of a subclass')
    whatamize_object(Own, w._what_for_sklearn, force=False)
    ok(Own().what() == 'own', 'whatamize_object replaced a what method')
    whatamize_object(Own, w._what_for_sklearn, force=True)
    ok(type(Own().what()).__name__ == 'What', 'forcing does nothing')
