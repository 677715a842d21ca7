"""Helpers shared by the contracts."""
from ..terms import *
from .. import terms as tm
from ..interp import *
from ..interp import memf
from ..prove import Contract, contract, simple, REGISTRY, make_input
from ..solver import same
from ..builtins_ import isinst


def det(name, ty=None, raises=True, params=None, result=None, ensures=None):
    """Callee contract: a deterministic, side-effect free (and possibly raising) function of the content of its arguments"""
    def hook(I, f, args, kwargs, kwd=None):
        b = I.bind(f, args, kwargs, kwd)
        a = [I.arg(b[p]) for p in (params or ordered(f, b))]
        if raises and I.branch(pred('raises:' + name, *a)):
            e = app('exc:' + name, *a)
            I.assume(pred('isinst:BaseException', e))
            raise PyExc(e)
        v = app(name, *a, ty=ty) if result is None else result(*a)
        if ensures is not None:
            ensures(I, v)
        return I.thaw(v)
    return hook


def ordered(f, b):
    a = f.node.args
    names = [p.arg for p in getattr(a, 'posonlyargs', []) + a.args + [a.vararg] + a.kwonlyargs + [a.kwarg]
             if p is not None]
    return [n for n in names if n in b]


def forall_keys(d, f):
    """for all k in d: f(k, d[k])"""
    x = fresh('k')
    return Not(exists(keys(d), lam(x, Not(f(x, dget(d, x))))))


def forall(s, f):
    x = fresh('x')
    return Not(exists(s, lam(x, Not(f(x)))))


def instance(I, qual, args=(), kwargs=None, expect=None, name='self'):
    """Instance of a class of the repository, as left by its real constructor, but with the named attributes arbitrary.

    expect: {attr: kind} with kind in dict, odict, list, any, str; the constructor must create exactly these attributes
    """
    cls = I.resolve(qual)
    o = I.instantiate(cls, list(args), dict(kwargs or {}))
    fields = {k for k in o.f}
    if fields != set(expect):
        raise Unsupported('%s: attributes are %s, not %s' % (qual, sorted(fields), sorted(expect)))
    for k, kind in expect.items():
        old = o.f[k]
        n = name + '.' + k
        if kind in ('dict', 'odict'):
            if not isinstance(old, HDict):
                raise Unsupported('%s.%s is not a dictionary' % (qual, k))
            o.f[k] = HDict(I, node=sym(n, 'D'), cls=old.f.get('cls', 'dict'))
        elif kind == 'list':
            if not isinstance(old, HList):
                raise Unsupported('%s.%s is not a list' % (qual, k))
            o.f[k] = HList(I, node=sym(n, 'S'))
        elif kind == 'set':
            o.f[k] = HSet(I, node=sym(n, 'S'))
        elif kind == 'any':
            o.f[k] = sym(n)
        elif isinstance(kind, T):
            o.f[k] = kind
        else:
            o.f[k] = sym(n, ty=kind)
    return o


def check(I, thunk):
    """A postcondition computed by a specification function: its result must be True"""
    return dict(call=thunk, spec=lambda: boxb(TRUE))


def flag(n):
    return boxb(truthy(sym(n)))


def first_inlined(hook):
    """the function under verification is executed, its recursive calls obey the contract"""
    def h(I, f, args, kwargs, kwd=None):
        if f.qualname in I.stack:
            return hook(I, f, args, kwargs, kwd)
        I.stack.append(('verifying', f.qualname))
        try:
            return I.call_function(f, args, kwargs, kwd)
        finally:
            I.stack.pop()
    return h
