# coding=utf-8
"""Detection of whatables and foreign what members"""
import itertools
from .common import *

RULE = 'all kinds of members named what, at the class, a base class or the instance, times all ways of making something whatable; random attributes'
N = 400

KINDS = ['none', 'method_what', 'method_subwhat', 'method_other', 'method_none', 'method_raises', 'method_raises2', 'method_args', 'attr', 'attr_none',
         'attr_what', 'property_other', 'property_raises', 'added', 'added_func', 'getattr_raises', 'id_only', 'attr_class']
PLACES = ['class', 'base', 'instance', 'slots']


def build(kind, place, attrs=()):
    from whatami import What, whatable

    class SubWhat(What):
        pass

    class Weird(Exception):
        pass

    def raiser(e):
        raise e
    members = {
        'method_what': lambda self: What('own', {'x': 1}), 'method_subwhat': lambda self: SubWhat('own', {}),
        'method_other': lambda self: 'own(x=1)', 'method_none': lambda self: None, 'method_raises': lambda self: raiser(ValueError('no')),
        'method_raises2': lambda self: raiser(Weird()), 'method_args': lambda self, other: What('own', {}),
        'attr': 5, 'attr_none': None, 'attr_what': What('own', {}), 'attr_class': int,
        'property_other': property(lambda self: 5), 'property_raises': property(lambda self: raiser(Weird())),
    }
    d = {}
    if kind in members and place in ('class', 'base'):
        d['what'] = members[kind]
    if kind == 'getattr_raises':
        d['__getattr__'] = lambda self, n: raiser(Weird())
    if kind == 'id_only':
        d['id'] = lambda self: 'an id'
    if place == 'slots':
        d['__slots__'] = ('s',)
    A = type('A', (object,), d)
    if kind == 'added' and place in ('class', 'base'):
        A = whatable(A)
    if kind == 'added_func' and place in ('class', 'base'):
        A = whatable(A, whatfunc=lambda self: What('added', {}))
    if place == 'base':
        A = type('A', (A,), {})
    o = A()
    if place != 'slots':
        for k, v in attrs:
            o.__dict__[str(k)] = dec(v)
    else:
        o.s = 7
    if place == 'instance':
        import types
        if kind in ('added', 'added_func'):
            whatable(o, whatfunc=None if kind == 'added' else lambda self: What('added', {}))
        elif kind.startswith('method'):
            o.what = types.MethodType(members[kind], o)
        elif kind in members and not kind.startswith('property'):
            o.what = members[kind]
    return A, o


EXCEPTIONS = [Exception, ValueError, KeyError, IndexError, LookupError, AttributeError, TypeError, OSError, ImportError, RuntimeError,
              NotImplementedError, ArithmeticError, AssertionError, StopIteration, NameError, EOFError, UnicodeError, Warning]


def table():
    for kind in KINDS:
        for place in PLACES:
            if place == 'slots' and kind in ('getattr_raises',):
                continue
            yield {'kind': kind, 'place': place, 'attrs': [['x', 1], ['_h', 2]]}


def gen(rng):
    return {'kind': rng.choice(KINDS), 'place': rng.choice(PLACES[:3]),
            'attrs': [[k, rand_value(rng, 1)] for k in sorted({rand_id(rng) for _ in range(rng.randrange(4))})]}


def effective(kind, place):
    """(kind of the what member of the class, of the instance)"""
    if kind in ('none', 'getattr_raises', 'id_only') or place == 'slots':
        return 'none', 'none'
    if place == 'instance':
        return 'none', ('none' if kind.startswith('property') else kind)
    return kind, kind


def visible(attrs):
    return {k: dec(v) for k, v in attrs if not k.startswith('_') and not k.endswith('_') and k != 'what'}


def check(j):
    from whatami import is_whatable, whatable, What
    from whatami.whatutils import whatamize_object
    kind, place, attrs = j['kind'], j['place'], j['attrs']
    ck, ik = effective(kind, place)
    if any(k == 'what' for k, _ in attrs):
        return
    good = ('method_what', 'method_subwhat', 'added', 'added_func')

    def fresh():
        return build(kind, place, attrs)
    A, o = fresh()
    before = dict(getattr(o, '__dict__', {})), dict(vars(A))
    for _ in range(2):
        ok(is_whatable(o) is (ik in good), 'is_whatable(instance) is %r', is_whatable(o))
        ok(is_whatable(A) is (ck in ('added', 'added_func')), 'is_whatable(class) is %r', is_whatable(A))
    ok((dict(getattr(o, '__dict__', {})), dict(vars(A))) == before, 'is_whatable modified something')
    for e in EXCEPTIONS:
        class Raises(object):
            def what(self):
                raise e('no')

        class Property(object):
            @property
            def what(self):
                raise e('no')
        for x in (Raises(), Raises, Property(), Property):
            ok(is_whatable(x) is False, 'is_whatable(%r) is %r when it raises %r', x, is_whatable(x), e)
    foreign_i, foreign_c = ik != 'none' and ik not in good, ck != 'none' and ck not in ('added', 'added_func')
    if kind == 'property_raises':
        foreign_i = None        # hasattr fails with that exception, nothing specified
    if kind == 'getattr_raises':
        foreign_i = None
    own = [w for w in (None, lambda self: What('mine', {}))]
    for func in own:
        # instances
        A, o = fresh()
        before = dict(getattr(o, '__dict__', {})), dict(vars(A))
        if foreign_i:
            ok(raises(lambda: whatable(o, whatfunc=func)) is not None, 'an instance with a foreign what was made whatable')
            ok((dict(getattr(o, '__dict__', {})), dict(vars(A))) == before, 'the refused instance was modified')
        elif foreign_i is False and place != 'slots':
            r = whatable(o, whatfunc=func)
            ok(r is o and is_whatable(o), 'the instance is not whatable')
            ok(dict(vars(A)) == before[1], 'making the instance whatable modified its class')
            w = o.what()
            if func is None:
                want = visible(attrs)
                ok(w.name == 'A' and canon(w.conf) == canon(want), 'the instance made whatable has configuration %r', w)
                if place != 'slots':
                    o2 = type(o)()
                    o.later, o2.x = 11, 12
                    ok(o.what().conf.get('later') == 11 and 'later' not in w.conf, 'the configuration is not the current one')
            else:
                ok(w.name == 'mine', 'the function given is not used')
        # classes
        A, o = fresh()
        before = dict(vars(A))
        if foreign_c:
            ok(raises(lambda: whatable(A, whatfunc=func)) is not None, 'a class with a foreign what was made whatable')
            ok(raises(lambda: whatable(whatfunc=func)(A)) is not None, 'a class with a foreign what was made whatable')
            ok(dict(vars(A)) == before, 'the refused class was modified')
        else:
            r = whatable(whatfunc=func)(A)
            ok(r is A and is_whatable(A), 'the class is not whatable')
            if place != 'instance' and kind != 'getattr_raises':
                o1 = A()
                sub = type('Sub', (A,), {})
                o3 = sub()
                if place == 'slots':
                    o1.s = o3.s = 0
                ok(is_whatable(o1) and is_whatable(o3) and is_whatable(sub), 'the instances are not whatable')
                if func is None and place != 'slots':
                    o1.x, o3.y = 1, 2
                    ok(o1.what().id() == 'A(x=1)' and o3.what().id() == 'Sub(y=2)', 'the instances are %r and %r', o1.what(), o3.what())
                if func is not None:
                    ok(o1.what().name == 'mine', 'the function given is not used')
    # forced
    if ik in ('method_other', 'method_none', 'method_raises', 'method_raises2', 'method_args'):
        A, o = fresh()
        m = o.what.__func__
        r = whatable(o, force_flag_as_whatami=True)
        ok(r is o and o.what.__func__ is m and o.what.whatami is True, 'forcing did not just flag the member of the instance')
    if ck in ('method_other', 'method_none', 'method_raises', 'method_raises2', 'method_args', 'method_what'):
        A, o = fresh()
        m = A.what
        r = whatable(A, force_flag_as_whatami=True)
        ok(r is A and A.what is m and m.whatami is True and is_whatable(A), 'forcing did not just flag the member of the class')
    # monkey patching
    for force in (None, False, True):
        A, o = fresh()
        has, old = 'what' in dir(A), A.__dict__.get('what')

        def f(self):
            return What('patched', {})
        kw = {} if force is None else {'force': force}
        whatamize_object(A, f, **kw)
        if has and not force:
            ok(A.__dict__.get('what') is old, 'an existing member was replaced')
        else:
            ok(A.__dict__['what'] is f, 'the class was not patched')
            if place not in ('instance', 'slots') and kind != 'getattr_raises':
                ok(A().what().name == 'patched', 'the class was not patched')
    # builtins
    for b in (len, sorted):
        ok(raises(lambda: whatable(b), TypeError) is not None, '%r was made whatable', b)
        ok(is_whatable(b) is False, '%r is whatable', b)
    for b in (None, 3, 'x', [], {}, int, list, object(), len):
        ok(is_whatable(b) is False, '%r is whatable', b)
    # patching by name
    import sys
    import types
    mod = types.ModuleType('oracle_c14_module')
    A, o = fresh()
    mod.A = A
    sys.modules['oracle_c14_module'] = mod
    try:
        has, old = 'what' in dir(A), A.__dict__.get('what')
        whatamize_object('oracle_c14_module.A', f)
        ok(A.__dict__.get('what') is (old if has else f), 'patching by name: what is %r', A.__dict__.get('what'))
        whatamize_object('oracle_c14_module.A', f, force=True)
        ok(A.__dict__.get('what') is f, 'forced patching by name: what is %r', A.__dict__.get('what'))
        ok(raises(lambda: whatamize_object('oracle_c14_missing.A', f), ImportError) is not None, 'a missing module was accepted')
        whatamize_object('oracle_c14_missing.A', f, fail_on_import_error=False)
        ok(raises(lambda: whatamize_object('oracle_c14_missing.A', f, fail_on_import_error=True), ImportError) is not None,
           'a missing module was accepted')
    finally:
        del sys.modules['oracle_c14_module']
