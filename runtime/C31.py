# coding=utf-8
"""Introspection helpers"""
from .common import *

RULE = 'functions with random signatures (also methods and constructors), random required arguments, random class hierarchies and decorators, and objects ' \
       'iterable in all the ways Python knows'
N = 2500
NAMES = ['a', 'b', 'self', 'c', 'zeta', '_x', 'x1', 'cls']


def make_function(sig, name='f', method=False):
    ns = {}
    parts = (['self'] if method else []) + ['%s=%s' % (n, d) if d is not None else n for n, d in sig['args']]
    if sig.get('varargs'):
        parts.append('*args')
    if sig.get('kwonly'):
        if not sig.get('varargs'):
            parts.append('*')
        parts += ['%s=%s' % (n, d) if d is not None else n for n, d in sig['kwonly']]
    if sig.get('kwargs'):
        parts.append('**kwargs')
    exec('def %s(%s):\n    return 1' % (name, ', '.join(parts)), ns)
    return ns[name]


def sig_gen(rng, names=NAMES):
    n = rng.randrange(5)
    ns = rng.sample(names, n)
    k = rng.randrange(n + 1)
    sig = {'args': [[x, None] for x in ns[:k]] + [[x, rng.choice(['1', 'None', '()', '"x"'])] for x in ns[k:]],
           'varargs': rng.random() < .3, 'kwargs': rng.random() < .3}
    if rng.random() < .3:
        sig['kwonly'] = [['k%d' % i, rng.choice([None, '2'])] for i in range(rng.randrange(1, 3))]
    return sig


def table():
    for args in ([], [['a', None]], [['a', None], ['b', None]], [['a', '1']], [['a', None], ['b', '1']], [['b', None], ['a', None], ['c', '1'], ['d', 'None']],
                 [['self', None], ['a', None]], [['a', None], ['self', None]]):
        for va in (False, True):
            for kw in (False, True):
                for ask in ([], ['a'], ['b'], ['a', 'b'], ['b', 'a'], ['a', 'a'], ['c'], ['a', 'c'], ['self'], ['args'], ['nope'], ['nope', 'also', 'a']):
                    yield {'kind': 'sig', 'sig': {'args': args, 'varargs': va, 'kwargs': kw}, 'ask': ask}
    yield {'kind': 'sig', 'sig': {'args': [['a', None]], 'kwonly': [['k', None], ['l', '3']]}, 'ask': ['k']}
    for sig in (None, {'args': []}, {'args': [['a', None], ['b', '2']]}, {'args': [['a', None]], 'varargs': True, 'kwargs': True}, {'args': [['self_', None]]},
                {'args': [['a', '1'], ['b', '2']]}):
        yield {'kind': 'init', 'sig': sig}
    for j in ITERABLES:
        yield {'kind': 'iterable', 'what': j}
    for i in range(8):
        yield {'kind': 'closure', 'n': i}
    for h in ([[], [0], [0], [1], [3]], [[]] + [[i] for i in range(12)], [[]] + [[i // 2] for i in range(14)], [[], [0], [0], [1, 2]], [[]], [[], [], [0], [1]]):
        yield {'kind': 'subclasses', 'bases': h}
    for own in ([['m'], ['m'], []], [['m', 'n'], ['n'], ['o']], [[], [], []], [['n'], [], ['m', 'n']]):
        for decs in ([['m', 1]], [['m', [1, 2]]], [['m', [1, 2, 1]], ['n', 3]], [['zz', 1]], [], [['m', []]], [['n', ['t', 4, 5]], ['m', 1]]):
            yield {'kind': 'decorate', 'own': own, 'decs': decs}


def gen(rng):
    k = rng.randrange(4)
    if k == 0:
        sig = sig_gen(rng)
        return {'kind': 'sig', 'sig': sig, 'ask': [rng.choice(NAMES + [a for a, _ in sig['args']] * 3) for _ in range(rng.randrange(4))]}
    if k == 1:
        return {'kind': 'init', 'sig': sig_gen(rng, ['a', 'b', 'c', 'selfie', '_x'])}
    if k == 2:
        bases = [[]]
        for i in range(1, rng.randrange(2, 6)):
            bases.append(sorted(rng.sample(range(i), rng.randrange(min(i, 2) + 1)), reverse=True))
        return {'kind': 'subclasses', 'bases': bases}
    ms = ['m', 'n', 'o']
    return {'kind': 'decorate', 'own': [rng.sample(ms, rng.randrange(4)) for _ in range(rng.randrange(1, 4))],
            'decs': [[m, rng.choice([1, 2, [1], [2, 1], [1, 1, 3], [], ['t', 2, 3]])] for m in rng.sample(ms + ['zz'], rng.randrange(4))]}


class It(object):
    def __iter__(self):
        return iter(())


class Old(object):
    def __getitem__(self, i):
        raise IndexError


class NoneIter(list):
    __iter__ = None


class InstanceIter(object):
    def __init__(self):
        self.__iter__ = lambda: iter(())


class BadIter(object):
    def __iter__(self):
        return 3


class MetaIter(type):
    def __iter__(cls):
        return iter(())


ITER_VALUES = {
    'list': lambda: [1], 'tuple': lambda: (), 'str': lambda: 'ab', 'bytes': lambda: b'', 'dict': lambda: {}, 'set': lambda: set(), 'none': lambda: None,
    'int': lambda: 3, 'float': lambda: 2.5, 'gen': lambda: (x for x in ()), 'range': lambda: range(3), 'iter': lambda: It(), 'old': lambda: Old(),
    'noneiter': lambda: NoneIter(), 'instanceiter': lambda: InstanceIter(), 'baditer': lambda: BadIter(), 'class': lambda: It, 'metaclass': lambda: MetaIter('M', (), {}),
    'function': lambda: table, 'object': lambda: object(), 'map': lambda: map(str, []), 'type': lambda: str, 'file': lambda: open('/dev/null'), 'bool': lambda: True,
    'memoryview': lambda: memoryview(b''), 'what': None, 'lambda': lambda: (lambda: 1)}
ITERABLES = sorted(ITER_VALUES)


def check(j):
    from whatami import misc
    kind = j['kind']
    if kind == 'sig':
        sig = j['sig']
        f = make_function(sig)
        required = [str(n) for n, d in sig['args'] if d is None]
        r = misc.required_args(f)
        ok(list(r) == required, 'the required arguments are %r instead of %r', r, required)
        ok(list(misc.required_args(f)) == required, 'the required arguments change')
        ask = [str(x) for x in j['ask']]
        for asked in (ask, tuple(ask), set(ask)):
            snap = list(asked)
            try:
                g, e = misc.ensure_has_positional_args(f, asked), None
            except Exception as x:
                g, e = None, x
            if set(ask) <= set(required):
                ok(e is None and g is f, '%r rejected for %r: %r', asked, required, e)
            else:
                ok(e is not None, '%r accepted for %r', asked, required)
                for missing in set(ask) - set(required):
                    ok(repr(missing) in str(e), 'the error %s does not mention %r', e, missing)
            ok(list(asked) == snap, 'the requested arguments were modified')
        ok(misc.ensure_has_positional_args(f) is f, 'no argument requested, but rejected')
    elif kind == 'init':
        if j['sig'] is None:
            misc.init_argspec(type('C', (), {}))      # depends on the interpreter
            return
        c = type('C', (), {'__init__': make_function(j['sig'], '__init__', True)})
        args, varargs, varkw, defaults, required = misc.init_argspec(c)
        ok(list(args) == ['self'] + [n for n, _ in j['sig']['args']], 'arguments %r', args)
        ok(list(required) == [n for n, d in j['sig']['args'] if d is None], 'required %r', required)
        ok(len(defaults or ()) == len([1 for _, d in j['sig']['args'] if d is not None]), 'defaults %r', defaults)
        ok(varargs == ('args' if j['sig'].get('varargs') else None) and varkw == ('kwargs' if j['sig'].get('kwargs') else None), '%r %r', varargs, varkw)
    elif kind == 'iterable':
        if j['what'] == 'what':
            from whatami import What
            v = What('a', {})
            ok(misc.is_iterable(v) is iterable(v), 'configurations')
            return
        v = ITER_VALUES[j['what']]()
        ok(misc.is_iterable(v) is iterable(v), 'is_iterable(%r) is %r', v, misc.is_iterable(v))
        n = []

        def g():
            n.append(1)
            yield 1
        x = g()
        ok(misc.is_iterable(x) is True and not n and list(x) == [1], 'the iterator is consumed')
    elif kind == 'closure':
        a = 1

        def closure():
            return a

        def plain():
            return 1

        class C(object):
            def __call__(self):
                return a

            def m(self):
                return a
        values = [(closure, True), (plain, False), (lambda: a, True), (lambda x=a: x, False), (C, False), (C(), False), (len, False), (C.m, True)]
        f, expected = values[j['n']]
        ok(misc.is_closure(f) is expected, 'is_closure(%r) is not %r', f, expected)
    elif kind == 'subclasses':
        classes = []
        for i, bs in enumerate(j['bases']):
            try:
                classes.append(type('K%d' % i, tuple(classes[b] for b in bs) or (object,), {}))
            except TypeError:       # no consistent order
                return
        for c in classes:
            expected = {d for d in classes if d is not c and issubclass(d, c)}
            got = misc.all_subclasses(c)
            ok(set(got) == expected, 'the subclasses of %r are %r instead of %r', c, got, expected)
    else:
        decorate(j, misc)


def iterable(v):
    try:
        iter(v)
    except TypeError:
        return False
    return True


class NotCallable(object):
    """a member of a class that cannot be called"""
    def __init__(self, f):
        self.f = f

    def __iter__(self):
        return iter([self.f])


class _Nothing(object):
    def __len__(self):
        return 0


Nothing = _Nothing()


def plain(member):
    """the function in a member"""
    if isinstance(member, staticmethod):
        return member.__func__
    return getattr(member, 'fget', getattr(member, 'f', member))


def decorate(j, misc):
    log = []

    def decorator(n):
        def dec(f):
            log.append((n, f))

            def wrapped(*args, **kwds):
                return [n] + plain(f)(*args, **kwds)
            return wrapped
        return dec
    ds = {}
    for m, spec in j['decs']:
        if isinstance(spec, list):
            xs = [decorator(x) for x in spec if x != 't']
            ds[str(m)] = (tuple(xs) if spec[:1] == ['t'] else xs, [x for x in spec if x != 't'])
        else:
            ds[str(m)] = (decorator(spec), [spec])
    meta = misc.decorate_some('Meta', **{k: v[0] for k, v in ds.items()})
    ok(meta.__name__ == 'Meta' and issubclass(meta, type), 'the metaclass is %r', meta)
    ok(misc.decorate_some().__name__ == 'DecorateSome', 'default name')
    base = object
    for i, own in enumerate(j['own']):
        members = {}
        for m in own:
            def f(self, m=m, i=i):
                return ['%s%d' % (m, i)]
            members[str(m)] = [f, f, staticmethod(f), property(f), NotCallable(f)][(len(ds) + i + len(m) + ord(m[-1])) % 5]
        members['other'] = other = lambda self: 1
        given = dict(members)
        del log[:]
        cls = meta('C%d' % i, (base,), members)
        ok(type(cls) is meta and cls.__bases__ == (base,) and cls.__name__ == 'C%d' % i, 'the class is %r', cls)
        for m in own:
            expected = (ds[m][1][::-1] if m in ds else []) + ['%s%d' % (m, i)]
            got = plain(cls.__dict__[m])(None)
            ok(got == expected, 'the member %r behaves like %r instead of %r', m, got, expected)
            if m not in ds or not ds[m][1]:
                ok(cls.__dict__[m] is given[m], 'the member %r was replaced', m)
        ok(cls.__dict__['other'] is other, 'another member was replaced')
        for m in ds:
            if m not in own:
                ok(m not in cls.__dict__, 'the member %r was invented', m)
        ok(len(log) == sum(len(ds[m][1]) for m in own if m in ds), 'decorators were applied %d times', len(log))
        for v in (None, 0, '', False, (), Nothing):
            members = {str(m): v for m in own}
            del log[:]
            cls = meta('D%d' % i, (base,), dict(members))
            ok([f for _, f in log if f is v] == [v] * len([m for m in own if m in ds and ds[m][1]]), 'decorators of members %r: %r', v, log)
            ok(all((cls.__dict__[m] is v) == (m not in ds or not ds[m][1]) for m in own), 'members %r became %r', v, cls.__dict__)
        base = cls
