"""Models of the python builtins and of the standard library functions used by the code under verification (trusted)"""
from .terms import *
from . import interp as ip
from .interp import *
from .exprs import Exprs, _Raw
from .solver import same

EXTCONST = {
    'functools.WRAPPER_ASSIGNMENTS': tup(*map(const, ('__module__', '__name__', '__qualname__', '__doc__',
                                                      '__annotations__'))),
}


def noargs(kwargs, *allowed):
    for k in kwargs:
        if k not in allowed:
            raise Unsupported('keyword %s of a builtin' % k)


def key_lambda(I, key, s, image=None, guard=None):
    """lam x. key(x) (the key function must be path independent)"""
    x = I.fresh('k')
    if key is None or key is NONE:
        return lam(x, x)
    s_el = x
    n = len(I.pc)
    I.pc.append(ip.memf(s, x))
    if guard is not None:
        I.pc.append(guard(x))
        s_el = image(x)
    try:
        res = I.explore(lambda: I.tou(I.call(key, [I.thaw(s_el)], {})), sub=True)
    finally:
        del I.pc[n:]
    return lam(x, merge_paths(res))


class NoElements(Unsupported):
    pass


def merge_paths(res):
    def tree(ps, i=0):
        if len(ps) == 1 and len(ps[0][0]) == i:
            return ps[0][1]
        F = ps[0][0][i][0]
        a = [p for p in ps if p[0][i][1]]
        b = [p for p in ps if not p[0][i][1]]
        if not a:
            return tree(b, i + 1)
        if not b:
            return tree(a, i + 1)
        return Ite(F, tree(a, i + 1), tree(b, i + 1))
    if not res:
        raise NoElements('no element can be there')
    return tree(res)


@builtin('noop')
def b_noop(I, args, kwargs):
    return NONE


@builtin('print')
def b_print(I, args, kwargs):
    return NONE


@builtin('len')
def b_len(I, args, kwargs):
    v = args[0]
    if isinstance(v, T):
        v = I.thaw(v)
    if isinstance(v, HInst):
        m = I.class_lookup(v.cls, '__len__')
        if m is None:
            I.raise_('TypeError')
        return I.call(BoundV(m, v), [], {})
    if isinstance(v, HSet):
        return boxi(ilen(dedup(v.f['node'])))
    if isinstance(v, HDict):
        return boxi(ilen(keys(v.f['node'])))
    if isinstance(v, HList):
        return boxi(ilen(v.f['node']))
    if isinstance(v, T):
        if is_const(v) and isinstance(cval(v), (str, bytes)):
            return const(len(cval(v)))
        k = I.kindof(v)
        if k == 'str':
            return boxi(ilen(mk('sbase', (v,), 'S')))
        if k in ('none', 'int', 'bool', 'float', 'func', 'class') or (v.op == 'seqv' and v.args[0] == 'iter'):
            I.raise_('TypeError')
        if k == 'dict':
            return boxi(ilen(keys(dbase(v))))
        if k in ('tuple', 'list', 'set', 'frozenset', 'bytes') or v.op in ('tup', 'seqv'):
            return boxi(ilen(I.seq(v)))
        if I.branch(pred('nolen', v)):
            I.raise_('TypeError')
        return boxi(ilen(I.seq(v)))
    I.raise_('TypeError')


def isinst(I, v, name):
    if isinstance(v, T):
        v = I.thaw(v)
    if name == 'object':
        return TRUE
    if name == 'Hashable':
        return hashable(I, v)
    if isinstance(v, HInst):
        return TRUE if I.subclass_of(v.cls, name) else FALSE
    if isinstance(v, (HList, HDict, HSet)):
        rc = getattr(v, 'repocls', None)
        if rc is not None:
            return TRUE if I.subclass_of(rc, name) else FALSE
        c = I.clsname(v)
        return TRUE if c == name or name in ip.solver.superclasses(c) else FALSE
    if isinstance(v, FuncV):
        return TRUE if name == 'function' else FALSE
    if isinstance(v, PartialV):
        return TRUE if name == 'partial' else FALSE
    if isinstance(v, ClsV):
        return TRUE if name == 'type' else FALSE
    if isinstance(v, ModV):
        return TRUE if name == 'module' else FALSE
    if isinstance(v, (ExtV, BoundV, MethodV, HIter)):
        if name in ('str', 'dict', 'list', 'tuple', 'set', 'frozenset', 'int', 'float', 'What', 'bool', 'bytes',
                    'partial', 'property'):
            return FALSE
        raise Unsupported('isinstance(%r, %s)' % (v, name))
    if isinstance(v, ExcV):
        return TRUE if v.cls == name or name in ip.solver.superclasses(v.cls) else FALSE
    v = box(v)
    if is_const(v):
        c = type(cval(v)).__name__
        return TRUE if c == name or name in ip.solver.superclasses(c) else FALSE
    if v.op in ('cat', 'join'):
        return TRUE if name == 'str' else FALSE
    if v.op == 'tup':
        return TRUE if name == 'tuple' else FALSE
    if v.op == 'boxi':
        return TRUE if name == 'int' else FALSE
    if v.op == 'boxb':
        return TRUE if name in ('bool', 'int') else FALSE
    if v.op == 'seqv':
        return TRUE if name == v.args[0] else FALSE
    if v.ty in ('str', 'tuple', 'list', 'dict', 'none', 'bool', 'float') and name in (
            'str', 'tuple', 'list', 'dict', 'set', 'frozenset', 'What', 'partial', 'property', 'function', 'NoneType',
            'type', 'module', 'builtin', 'float'):
        return TRUE if name == v.ty or (name == 'NoneType' and v.ty == 'none') else FALSE
    if v.ty == 'What':
        return TRUE if name == 'What' else FALSE if name in (
            'str', 'dict', 'list', 'tuple', 'set', 'frozenset', 'int', 'float', 'bool') else pred('isinst:' + name, v)
    if v.op == 'partial_star' or v.ty == 'partial':
        return TRUE if name == 'partial' else FALSE
    if v.ty == 'func' and name in ('str', 'tuple', 'list', 'dict', 'set', 'frozenset', 'What'):
        return FALSE
    if v.op == 'ite':
        return Ite(v.args[0], isinst(I, v.args[1], name), isinst(I, v.args[2], name))
    return pred('isinst:' + name, v)


def hashable(I, v):
    if isinstance(v, (HList, HDict)):
        return FALSE
    if isinstance(v, HSet):
        return TRUE if v.f.get('frozen') else FALSE
    if isinstance(v, T):
        v = box(v)
        if v.ty in ('str', 'none', 'int', 'bool', 'float', 'bytes', 'tuple', 'func', 'class'):
            return TRUE
        return pred('hashable', v)
    return TRUE


def class_names(I, spec):
    if isinstance(spec, T):
        spec = I.thaw(spec)
    if isinstance(spec, T) and spec.op == 'tup':
        return [n for a in spec.args for n in class_names(I, a)]
    if isinstance(spec, (ClsV, ExtV)):
        return [spec.name.split('.')[-1]]
    if isinstance(spec, T) and spec.op == 'app' and spec.args[0].startswith(('class:', 'attr:')):
        return [spec.args[0].split(':', 1)[1]]
    raise Unsupported('isinstance against %r' % (spec,))


@builtin('isinstance')
def b_isinstance(I, args, kwargs):
    return Or(*[isinst(I, args[0], n) for n in class_names(I, args[1])])


@builtin('issubclass')
def b_issubclass(I, args, kwargs):
    c, d = args
    if isinstance(c, ClsV):
        return Or(*[TRUE if I.subclass_of(c, n) else FALSE for n in class_names(I, d)])
    raise Unsupported('issubclass')


@builtin('hasattr')
def b_hasattr(I, args, kwargs):
    n = args[1]
    if not (isinstance(n, T) and is_const(n)):
        o = I.thaw(args[0]) if isinstance(args[0], T) else args[0]
        return pred('hasattr', I.arg(o), I.arg(n))
    return I.hasattr(args[0], cval(n))


@builtin('vars')
def b_vars(I, args, kwargs):
    if len(args) != 1:
        raise Unsupported('vars')
    try:
        return I.getattr(args[0], '__dict__')
    except PyExc:
        I.raise_('TypeError')


@builtin('getattr')
def b_getattr(I, args, kwargs):
    n = args[1]
    if isinstance(args[0], HInst) and I.class_lookup(args[0].cls, '__getattribute__') is not None:
        return I.call(BoundV(I.class_lookup(args[0].cls, '__getattribute__'), args[0]), [n], {})
    if not (isinstance(n, T) and is_const(n)):
        o, n = I.arg(args[0]), I.arg(n)
        if I.branch(pred('getattr_fails', o, n)):
            e = app('getattr_exc', o, n)
            I.assume(pred('isinst:BaseException', e))
            raise PyExc(e)
        return I.thaw(app('getattr', o, n))
    try:
        return I.getattr(args[0], cval(n))
    except PyExc as e:
        if len(args) < 3:
            raise
        if I.exc_matches(e.val, ClsV('AttributeError')):
            return args[2]
        raise


@builtin('setattr')
def b_setattr(I, args, kwargs):
    n = args[1]
    if not is_const(n):
        raise Unsupported('setattr')
    I.setattr(args[0], cval(n), args[2])
    return NONE


@builtin('callable')
def b_callable(I, args, kwargs):
    v = args[0]
    if isinstance(v, T):
        v = I.thaw(v)
    if isinstance(v, (FuncV, PartialV, BoundV, MethodV, ClsV, ExtV)):
        return TRUE
    if isinstance(v, HInst):
        return TRUE if I.class_lookup(v.cls, '__call__') is not None else FALSE
    if isinstance(v, T):
        v = box(v)
        if v.ty in ('func', 'class'):
            return TRUE
        if v.ty in ('str', 'none', 'int', 'bool', 'float', 'tuple', 'list', 'dict'):
            return FALSE
        return pred('callable', v)
    return FALSE


@builtin('new:type')
def b_type(I, args, kwargs):
    if len(args) == 1:
        return I.typeof(args[0] if not isinstance(args[0], T) else I.thaw(args[0]))
    made = getattr(I, 'on_type3', None)
    if made is not None:
        return made(*args)
    return app('type3', *[I.arg(a) for a in args])


@builtin('type')
def b_type1(I, args, kwargs):
    return b_type(I, args, kwargs)


@builtin('new:str')
def b_str(I, args, kwargs):
    if not args:
        return const('')
    return I.str_(args[0])


@builtin('hash')
def b_hash(I, args, kwargs):
    """an integer that depends on the process"""
    v = I.arg(args[0])
    if I.branch(pred('raises:hash', v)):
        I.raise_('TypeError')
    return app('hash', v, ty='int')


@builtin('repr')
def b_repr(I, args, kwargs):
    return I.repr_(args[0])


def _num(name, py):
    @builtin('new:' + name)
    def f(I, args, kwargs):
        if not args:
            return const(py())
        v = args[0]
        if isinstance(v, T):
            v = I.thaw(v)
        if isinstance(v, T) and v.sort in 'IB':
            v = boxi(I.toint(v))
        if isinstance(v, T) and is_const(v):
            try:
                return const(py(cval(v)))
            except (ValueError, TypeError) as e:
                I.raise_(type(e).__name__)
        if name == 'int' and isinstance(v, T) and v.ty in ('int', 'bool'):
            return boxi(I.toint(v))
        if isinstance(v, T) and v in I.number_texts:
            # str of numbers: int(str(i)) is i, float(str(x)) is x, int rejects the text of any float
            kind, number = I.number_texts[v]
            if name == 'int' and kind == 'float':
                I.raise_('ValueError')
            return number if name == kind else app('to' + name, number, ty=name)
        a = I.arg(v)
        if I.branch(pred(name + '_fails', a)):
            if isinstance(v, T) and I.kindof(v) == 'str':
                I.raise_('ValueError')
            e = app(name + '_exc', a)
            I.assume(pred('isinst:BaseException', e))
            raise PyExc(e)
        return app('to' + name, a, ty=name)
    return f


_num('int', int)
_num('float', float)


@builtin('new:bool')
def b_bool(I, args, kwargs):
    return I.formula(args[0]) if args else FALSE


@builtin('new:list')
def b_list(I, args, kwargs):
    return HList(I, node=I.seq(args[0]) if args else EMPTY)


@builtin('new:tuple')
def b_tuple(I, args, kwargs):
    if not args:
        return tup()
    v = args[0]
    if isinstance(v, T) and v.op in ('tup',):
        return v
    if isinstance(v, T) and I.kindof(v) == 'tuple' and v.op not in ('seqv',):
        # copies of exact tuples are the tuple itself
        return seqv('tuple', I.seq(v))
    return seqv('tuple', I.seq(v))


@builtin('new:set')
def b_set(I, args, kwargs):
    return HSet(I, node=_hashed(I, I.seq(args[0])) if args else EMPTY)


def _hashed(I, s):
    if s.hrefs:
        s = I.freeze_term(s)
    return s


@builtin('new:frozenset')
def b_frozenset(I, args, kwargs):
    return I.mkset(_hashed(I, I.seq(args[0])) if args else EMPTY, frozen=True)


def dict_from(I, cls, args, kwargs):
    d = DEMPTY
    if args:
        v = args[0]
        if isinstance(v, T):
            v = I.thaw(v)
        d = update_node(I, DEMPTY, v)
    for k, v in kwargs.items():
        d = upd(d, const(k), I.tou(v))
    return HDict(I, node=d, cls=cls)


def update_node(I, base, v):
    """base.update(v)"""
    if isinstance(v, T):
        v = I.thaw(v)
    if isinstance(v, HDict) or (isinstance(v, T) and I.kindof(v) == 'dict'):
        return merge(base, I.dnode(v))
    if isinstance(v, T) and v.op not in ('tup', 'seqv') and I.kindof(v) is None:
        if I.branch(pred('isinst:dict', v)):
            return merge(base, I.dnode(v))
        if I.branch(pred('update_fails', v)):
            e = app('update_exc', v)
            I.assume(pred('isinst:BaseException', e))
            raise PyExc(e)
        return frompairs(base, I.seq(v))
    s = I.seq(v)
    if s.op == 'lit':
        for p in s.args:
            ps = I.seq(p)
            if ps.op == 'lit':
                if len(ps.args) != 2:
                    I.raise_('ValueError')
                base = upd(base, I.keyt(I.thaw(ps.args[0])), ps.args[1])
            else:
                base = upd(base, item(p, 0), item(p, 1))
        return base
    return frompairs(base, s)


@builtin('new:dict')
def b_dict(I, args, kwargs):
    return dict_from(I, 'dict', args, kwargs)


@builtin('new:OrderedDict')
def b_odict(I, args, kwargs):
    return dict_from(I, 'OrderedDict', args, kwargs)


@builtin('new:object')
def b_object(I, args, kwargs):
    return HInst(I, ClsV('object', module=None))


@builtin('new:partial')
def b_partial(I, args, kwargs):
    if not args:
        I.raise_('TypeError')
    f = args[0]
    if isinstance(f, T):
        f = I.thaw(f)
    if isinstance(f, PartialV):
        kw = dict(f.kwargs)
        kw.update(kwargs)
        return PartialV(I, f.func, list(f.args) + list(args[1:]), kw)
    ok = b_callable(I, [f], {})
    if not I.branch(ok):
        I.raise_('TypeError')
    return PartialV(I, f, list(args[1:]), dict(kwargs))


@builtin('iter')
def b_iter(I, args, kwargs):
    if isinstance(args[0], HIter):
        return args[0]
    return HIter(I, node=I.seq(args[0]))


@builtin('next')
def b_next(I, args, kwargs):
    it = args[0]
    if isinstance(it, T):
        it = I.thaw(it)
    if not isinstance(it, HIter):
        raise Unsupported('next')
    if it.failing is not None:
        def exhausted():
            if len(args) > 1:
                return args[1]
            I.raise_('StopIteration')
        return I.consume(it, lambda v: v, exhausted)
    s = it.f['node']
    if not I.branch(nonempty(s)):
        if len(args) > 1:
            return args[1]
        I.raise_('StopIteration')
    h = snth(s, iconst(0))
    I.setnode(it, sslice(s, iconst(1), None))
    if s.op != 'lit':
        if s.op == 'flat':
            x = fresh('x')
            r = ip.tm._single(inst(s.args[1], x))
            if r is not None and r[0] is not TRUE:
                g = lam(x, r[0])
                x0 = ip.first(s.args[0], g)
                I.assume(inst(g, x0))
                I.assume(ip.memf(s.args[0], x0))
                return I.thaw(subst(r[1], {x: x0}))
        I.assume(ip.memf(s, h))
    return I.thaw(h)


@builtin('memoryview')
def b_memoryview(I, args, kwargs):
    return app('memoryview', I.arg(args[0]))


@builtin('sorted')
def b_sorted(I, args, kwargs):
    noargs(kwargs, 'key', 'reverse')
    s = I.seq(args[0])
    rev = kwargs.get('reverse')
    if getattr(I, 'incomparable', None) is not None and not kwargs and I.incomparable(s):
        I.raise_('TypeError')
    I.assumptions_used.add('elements that get sorted are comparable (otherwise, a TypeError is raised)')
    rev = TRUE if rev is not None and I.branch(I.formula(rev)) else FALSE
    return HList(I, node=sort_by(I, s, kwargs.get('key'), rev))


def sort_by(I, s, key, rev=None):
    try:
        return _sort_by(I, s, key, rev)
    except NoElements:
        return EMPTY


def _sort_by(I, s, key, rev=None):
    if s.op == 'flat' and key is not None and key is not NONE:
        # the key of each image, as a function of the element of the source
        b, l0 = s.args
        x = I.fresh('k')
        r = ip.tm._single(inst(l0, x))
        if r is not None:
            return flat(ssorted(b, key_lambda(I, key, b, lambda y: subst(r[1], {x: y}),
                                              lambda y: subst(r[0], {x: y})), rev), l0)
    return ssorted(unordered(s), key_lambda(I, key, s), rev)


def unordered(s):
    """Sorting forgets the unspecified order of sets"""
    return s


@builtin('reversed')
def b_reversed(I, args, kwargs):
    return HIter(I, node=srev(I.seq(args[0])))


@builtin('zip')
def b_zip(I, args, kwargs):
    return HIter(I, node=szip(*[I.seq(a) for a in args]) if args else EMPTY)


def str_replace(I, s, a, b):
    """s.replace(a, b); see pyver/lemmas/Quoting.lean for the two simplifications"""
    known = lambda t, c: ip.check(I.pc + [pred('contains', t, const(c))]) == 'unsat'
    if any(known(s, c) for c in a):
        I.lemmas_used.add('Quoting')
        return s            # nothing to replace
    if s.op == 'app' and s.args[0] == 'strmethod:replace' and all(is_const(t) for t in s.args[2:]):
        t, x, y = s.args[1], cval(s.args[2]), cval(s.args[3])
        if (a, b) == (y, x) and len(x) == 1 and len(y) == 2 and y[1] == x and y[0] != x and known(t, y[0]):
            I.lemmas_used.add('Quoting')
            return t        # escaping by a character that was not there is undone
    return app('strmethod:replace', s, const(a), const(b), ty='str')


@ext('builtins.zip*')
def transpose(I, args, kwargs, kwd):
    """zip(*rows) of rows of a known, common size"""
    if len(args) != 1 or kwargs or kwd is not None:
        raise Unsupported('zip of several symbolic arguments')
    s = args[0][1]
    n = None
    if s.op == 'flat':
        x = fresh('x')
        r = ip.tm._single(inst(s.args[1], x))
        if r is not None and r[1].op == 'tup':
            n = len(r[1].args)
    if n is None:
        raise Unsupported('zip of symbolic rows')
    if not I.branch(nonempty(s)):
        return HIter(I, node=EMPTY)
    cols = [flat(s, lam(x, lit(item(x, i)))) for i in range(n)]
    return HIter(I, node=lit(*[seqv('tuple', c) for c in cols]))


@builtin('map')
def b_map(I, args, kwargs):
    f = args[0]
    if len(args) == 2:
        again = I.again(args[1])
        return I.lazily(HIter(I, node=EMPTY), lambda body: I.iterate(again(), lambda v: body(I.call(f, [v], {}))))
    n = len(args) - 1
    it = seqv('iter', szip(*[I.seq(a) for a in args[1:]]))
    return I.lazily(HIter(I, node=EMPTY), lambda body: I.iterate(it, lambda v: body(I.call(
        f, [I.getitem(v, const(i)) for i in range(n)], {}))))


@builtin('filter')
def b_filter(I, args, kwargs):
    f = args[0]
    again = I.again(args[1])

    def drive(body):
        def step(v):
            if I.branch(I.formula(v if f is NONE else I.call(f, [v], {}))):
                body(v)
        return I.iterate(again(), step)
    return I.lazily(HIter(I, node=EMPTY), drive)


@builtin('enumerate')
def b_enumerate(I, args, kwargs):
    start = args[1] if len(args) > 1 else kwargs.get('start')
    return HIter(I, node=senum(I.seq(args[0]), I.toint(start) if start is not None else None))


def _truths(I, s, neg):
    x = I.fresh('t')
    return exists(s, lam(x, Not(truthy(x)) if neg else truthy(x)))


@builtin('any')
def b_any(I, args, kwargs):
    if isinstance(args[0], HIter) and args[0].failing is not None:
        return I.consume(args[0], lambda v: const(True) if I.branch(I.formula(v)) else None, lambda: const(False))
    s = I.seq(args[0])
    if s.hrefs:
        if s.op == 'lit':
            return Or(*[I.formula(I.thaw(a)) for a in s.args])
        s = I.freeze_term(s)
    return _truths(I, s, False)


@builtin('all')
def b_all(I, args, kwargs):
    if isinstance(args[0], HIter) and args[0].failing is not None:
        return I.consume(args[0], lambda v: const(False) if not I.branch(I.formula(v)) else None, lambda: const(True))
    s = I.seq(args[0])
    if s.hrefs:
        if s.op == 'lit':
            return And(*[I.formula(I.thaw(a)) for a in s.args])
        s = I.freeze_term(s)
    return Not(_truths(I, s, True))


def lengths_in(i):
    if i.op == 'ilen':
        return [i]
    return [n for a in i.args for n in lengths_in(a)] if i.op == 'iadd' else []


@builtin('range')
def b_range(I, args, kwargs):
    ii = [I.toint(a) for a in args]
    if all(i.op == 'iconst' for i in ii):
        return seqv('range', lit(*[const(i) for i in range(*[i.args[0] for i in ii])]))
    if len(ii) == 1 and ii[0].op == 'iadd':  # the first positions in a sequence
        for n in lengths_in(ii[0]):
            if check(I.pc + [Not(And(ile(iconst(0), ii[0]), ile(ii[0], n)))]) == 'unsat':
                x = fresh('x')
                return seqv('range', flat(senum(sslice(n.args[0], None, ii[0])), lam(x, lit(boxi(unboxi(item(x, 0)))))))
    if len(ii) <= 2:
        return seqv('range', srange(ii[0] if len(ii) == 2 else iconst(0), ii[-1]))
    return seqv('range', mk('srange', tuple(ii), 'S'))


def _minmax(name):
    @builtin(name)
    def f(I, args, kwargs):
        if len(args) == 2 and not kwargs and all(I.is_int(a) for a in args):
            a, b = map(I.toint, args)
            c = ile(a, b)
            return boxi(Ite(c, a, b) if name == 'min' else Ite(c, b, a))
        return app(name, *[I.arg(a) for a in args], *[I.arg(kwargs[k]) for k in sorted(kwargs)])
_minmax('min')
_minmax('max')


@builtin('sum')
def b_sum(I, args, kwargs):
    return app('sum', *[I.arg(a) for a in args])


@builtin('abs')
def b_abs(I, args, kwargs):
    return app('abs', *[I.arg(a) for a in args])


@builtin('id')
def b_id(I, args, kwargs):
    raise Unsupported('id()')


@builtin('super')
def b_super(I, args, kwargs):
    if len(args) != 2:
        raise Unsupported('super')
    return SuperV(args[0], args[1])


@builtin('property')
def b_property(I, args, kwargs):
    raise Unsupported('property()')


# ---------------------------------------------------------------- methods

def lit_strs(I, s):
    """Raises TypeError if some element is not a string"""
    if s.op == 'lit':
        for a in s.args:
            v = I.thaw(a)
            b = isinst(I, v, 'str')
            if not I.branch(b):
                I.raise_('TypeError')
        return
    if s.op == 'scat':
        for p in s.args:
            lit_strs(I, p)
        return
    x = fresh('x')
    if known_str_seq(s):
        return
    if I.branch(exists(s, lam(x, Not(pred('isinst:str', x))))):
        I.raise_('TypeError')


def known_str_seq(s):
    if s.op == 'lit':
        return all(a.ty == 'str' for a in s.args)
    if s.op == 'scat':
        return all(known_str_seq(a) for a in s.args)
    if s.op == 'ite':
        return known_str_seq(s.args[1]) and known_str_seq(s.args[2])
    if s.op == 'flat':
        return known_str_seq(s.args[1].args[1])
    if s.op in ('sorted', 'rev', 'dedup', 'slice', 'prefix', 'setorder'):
        return known_str_seq(s.args[0])
    return False


class Methods(object):

    def call_method(self, o, name, args, kwargs, kwd=None):
        if isinstance(o, _Raw):
            o = o.o
        elif isinstance(o, T):
            o = self.thaw(o)
        if kwd is not None or any(isinstance(a, tuple) and a[0] == '*' for a in args):
            if name == 'update' and isinstance(o, HDict) and not args:
                d = o.f['node']
                for k, v in kwargs.items():
                    d = upd(d, const(k), self.tou(v))
                self.setnode(o, merge(d, kwd))
                return NONE
            raise Unsupported('star arguments to method %s' % name)
        if isinstance(o, HList):
            return self.m_list(o, name, args, kwargs)
        if isinstance(o, HDict):
            return self.m_dict(o, o.f['node'], name, args, kwargs)
        if isinstance(o, HSet):
            return self.m_set(o, o.f['node'], name, args, kwargs)
        if isinstance(o, HIter):
            raise Unsupported('method of iterator')
        if isinstance(o, T):
            k = self.kindof(o)
            if k == 'str':
                return self.m_str(o, name, args, kwargs)
            if k == 'dict':
                return self.m_dict(o, dbase(o), name, args, kwargs)
            if k in ('set', 'frozenset'):
                return self.m_set(o, self.seq(o), name, args, kwargs)
            if k in ('list', 'tuple'):
                return self.m_list(o, name, args, kwargs)
        raise Unsupported('method %s of %r' % (name, o))

    def m_str(self, s, name, args, kwargs):
        args = list(args)
        if name in ('startswith', 'endswith'):
            if len(args) != 1:
                return app('strmethod:' + name, s, *[self.arg(a) for a in args])
            p = self.thaw(args[0]) if isinstance(args[0], T) else args[0]
            if isinstance(p, T) and p.op == 'tup':
                return Or(*[mkpred(name, s, a) for a in p.args])
            if isinstance(p, T) and self.kindof(p) not in ('str', 'tuple'):
                if not self.branch(isinst(self, p, 'str')):
                    self.raise_('TypeError')
            elif not isinstance(p, T):
                self.raise_('TypeError')
            return mkpred(name, s, p)
        if name == 'join':
            q = self.seq(args[0])
            if q.hrefs:
                q = self.freeze_term(q)
            lit_strs(self, q)
            return join(s, q)
        if name == 'format' and is_const(s):
            return self.format_(cval(s), args, kwargs)
        a = [self.arg(x) for x in args]
        if is_const(s) and all(is_const(x) for x in a) and not kwargs:
            try:
                r = getattr(cval(s), name)(*[cval(x) for x in a])
            except (ValueError, TypeError) as e:
                self.raise_(type(e).__name__)
            return self.pyvalue(r)
        if name == 'partition' and len(a) == 1 and is_const(a[0]) and isinstance(cval(a[0]), str) and \
                len(cval(a[0])) == 1 and s.op == 'app' and s.args[0] == 'strslice' and s.args[2].op == 'boxi' and \
                s.args[3] is NONE and s.args[4] is NONE:
            # after a known start without the separator: the same place as in the whole text
            base, k = s.args[1], s.args[2].args[0]
            starts = [p.args[2] for p in self.pc if p.op == 'pred' and p.args[0] == 'startswith' and p.args[1] is base]
            if k.op == 'iconst' and k.args[0] > 0 and any(
                    is_const(p) and len(cval(p)) >= k.args[0] and cval(a[0]) not in cval(p)[:k.args[0]] for p in starts):
                before = app('partition0', base, a[0], ty='str')
                return tup(app('strslice', before, *s.args[2:], ty='str'), app('partition1', base, a[0], ty='str'),
                           app('partition2', base, a[0], ty='str'))
        if name in ('partition', 'rpartition') and len(a) == 1:
            return tup(app(name + '0', s, a[0], ty='str'), app(name + '1', s, a[0], ty='str'),
                       app(name + '2', s, a[0], ty='str'))
        if name in ('replace', 'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'title', 'zfill', 'casefold',
                    'translate', 'format'):
            if kwargs:
                raise Unsupported('str.%s with keywords' % name)
            if name == 'replace' and len(a) == 2 and is_const(a[0]) and is_const(a[1]):
                return str_replace(self, s, cval(a[0]), cval(a[1]))
            return app('strmethod:' + name, s, *a, ty='str')
        if name in ('split', 'rsplit', 'splitlines'):
            return HList(self, node=sbase(app('strmethod:' + name, s, *a, ty='list')))
        if name == 'encode':
            given = dict(zip(('encoding', 'errors'), a), **{k: self.arg(v) for k, v in kwargs.items()})
            for k, usual in (('encoding', ('utf-8', 'utf8', 'UTF-8', 'UTF8', 'utf_8')), ('errors', ('strict',))):
                if k in given and is_const(given[k]) and cval(given[k]) in usual:
                    del given[k]
            return app('encode', s, *[x for k in sorted(given) for x in (const(k), given[k])], ty='bytes')
        if name in ('find', 'count'):
            return app('strmethod:' + name, s, *a, ty='int')
        if name in ('isidentifier', 'islower', 'isdigit', 'isalpha', 'isalnum'):
            return pred('strmethod:' + name, s)
        raise Unsupported('str.%s' % name)

    def format_(self, s, args, kwargs):
        """str.format, for fields without format specifications"""
        import string
        parts, auto = [], 0
        if any(isinstance(a, tuple) and a[0] == '*' for a in args):
            raise Unsupported('format with symbolic arguments')
        for text, field, spec, conversion in string.Formatter().parse(s):
            parts.append(const(text))
            if field is None:
                continue
            if field == '':
                field, auto = str(auto), auto + 1
            if field.isdigit():
                if int(field) >= len(args):
                    self.raise_('IndexError')
                v = args[int(field)]
            elif field.isidentifier():
                if field not in kwargs:
                    self.raise_('KeyError', const(field))
                v = kwargs[field]
            else:
                raise Unsupported('format field %r' % field)
            if spec or conversion not in (None, 's', 'r'):
                raise Unsupported('format specification %r' % spec)
            parts.append(self.repr_(v) if conversion == 'r' else self.str_(v))
        return cat(*parts)

    def pyvalue(self, r):
        if isinstance(r, tuple):
            return tup(*[self.tou(self.pyvalue(x)) for x in r])
        if isinstance(r, list):
            return HList(self, node=lit(*[self.tou(self.pyvalue(x)) for x in r]))
        return const(r)

    def m_list(self, o, name, args, kwargs):
        s = o.f['node'] if isinstance(o, HList) else self.seq(o)
        mutating = name in ('append', 'extend', 'insert', 'remove', 'sort', 'reverse', 'pop', 'clear')
        if mutating and not isinstance(o, HList):
            self.effect(const('listmethod:' + name), o, *[self.arg(a) for a in args])
            return NONE
        if name == 'append':
            self.setnode(o, scat(s, lit(self.tou(args[0]))))
            return NONE
        if name == 'extend':
            self.setnode(o, scat(s, self.seq(args[0])))
            return NONE
        if name == 'insert':
            i = self.toint(args[0])
            x = lit(self.tou(args[1]))
            if s.op == 'lit' and i.op == 'iconst':
                l = list(s.args)
                l.insert(i.args[0], x.args[0])
                self.setnode(o, lit(*l))
            else:
                if not (i.op == 'sindex' or (i.op == 'iconst' and i.args[0] >= 0)):
                    raise Unsupported('insert at symbolic position')
                self.setnode(o, scat(sslice(s, None, i), x, sslice(s, i, None)))
            return NONE
        if name in ('index', 'remove', 'count'):
            if s.hrefs:
                raise Unsupported('list.%s with references' % name)
            v = self.arg(args[0])
            if name == 'count':
                return boxi(ilen(sfilter(s, lambda x: eq(x, v))))
            if not self.branch(contains(s, v)):
                self.raise_('ValueError')
            if name == 'index':
                i = mk('sindex', (s, v), 'I')
                self.assume(ile(iconst(0), i))
                self.assume(ilt(i, ilen(s)))
                return boxi(i)
            self.setnode(o, mk('sremove', (s, v), 'S'))
            return NONE
        if name == 'sort':
            noargs(kwargs, 'key', 'reverse')
            rev = kwargs.get('reverse')
            rev = TRUE if rev is not None and self.branch(self.formula(rev)) else FALSE
            self.setnode(o, sort_by(self, s, kwargs.get('key'), rev))
            return NONE
        if name == 'reverse':
            self.setnode(o, srev(s))
            return NONE
        if name == 'copy':
            return HList(self, node=s)
        if name == 'clear':
            self.setnode(o, EMPTY)
            return NONE
        if name == 'pop':
            i = self.toint(args[0]) if args else iconst(-1)
            if s.op == 'lit' and i.op == 'iconst':
                if not -len(s.args) <= i.args[0] < len(s.args):
                    self.raise_('IndexError')
                l = list(s.args)
                v = l.pop(i.args[0])
                self.setnode(o, lit(*l))
                return self.thaw(v)
            if i.op == 'iconst' and i.args[0] == 0:
                if not self.branch(nonempty(s)):
                    self.raise_('IndexError')
                v = self.thaw(snth(s, i))
                self.setnode(o, sslice(s, iconst(1), None))
                return v
        raise Unsupported('list.%s' % name)

    def m_dict(self, o, d, name, args, kwargs):
        if name in ('update', 'pop', 'setdefault', 'clear', 'popitem', '__setitem__') and not isinstance(o, HDict):
            self.effect(const('dictmethod:' + name), o, *([self.arg(a) for a in args] +
                                                         [self.arg(kwargs[k]) for k in sorted(kwargs)]))
            if name in ('update', 'clear', '__setitem__'):
                return NONE
            raise Unsupported('dict.%s on a value outside of the heap' % name)
        if name == 'items':
            return seqv('setview', items(d))
        if name == 'keys':
            return seqv('setview', keys(d))
        if name == 'values':
            return seqv('view', values(d))
        if name == 'copy':
            return HDict(self, node=d, cls='dict' if not isinstance(o, HDict) else o.f.get('cls', 'dict'))
        if name == 'get':
            kt = self.keyt(args[0])
            self.check_hashable(kt)
            dflt = args[1] if len(args) > 1 else kwargs.get('default', NONE)
            try:
                return self.thaw(Ite(has(d, kt), dget(d, kt), self.tou(dflt)))
            except Unsupported:
                return self.thaw(dget(d, kt)) if self.branch(has(d, kt)) else dflt
        if name == '__getitem__':
            return self.dict_getitem(d, args[0])
        if name == '__contains__':
            return has(d, self.keyt(args[0]))
        if name == '__setitem__':
            self.setnode(o, upd(d, self.keyt(args[0]), self.tou(args[1])))
            return NONE
        if name == '__init__' or name == 'update':
            if args:
                d = update_node(self, d, args[0])
            for k, v in kwargs.items():
                d = upd(d, const(k), self.tou(v))
            self.setnode(o, d)
            return NONE
        if name == 'pop':
            kt = self.keyt(args[0])
            self.check_hashable(kt)
            if self.branch(has(d, kt)):
                self.setnode(o, ddel(d, kt))
                return self.thaw(dget(d, kt))
            if len(args) > 1:
                return args[1]
            self.raise_('KeyError', kt)
        if name == 'setdefault':
            kt = self.keyt(args[0])
            if self.branch(has(d, kt)):
                return self.thaw(dget(d, kt))
            v = args[1] if len(args) > 1 else NONE
            self.setnode(o, upd(d, kt, self.tou(v)))
            return v
        if name == 'clear':
            self.setnode(o, DEMPTY)
            return NONE
        raise Unsupported('dict.%s' % name)

    def m_set(self, o, s, name, args, kwargs):
        seqs = None
        if name in ('add', 'discard', 'remove'):
            if not isinstance(o, HSet):
                self.effect(const('setmethod:' + name), o, *[self.arg(a) for a in args])
                return NONE
            x = self.keyt(args[0])
            if name == 'add':
                self.setnode(o, scat(s, lit(x)))
                return NONE
            if name == 'remove' and not self.branch(contains(s, x)):
                self.raise_('KeyError')
            self.setnode(o, sfilter(s, lambda y: Not(eq(y, x))))
            return NONE
        frozen = isinstance(o, HSet) and bool(o.f.get('frozen'))
        seqs = [_hashed(self, self.setnode_of(a) if self.is_set(a) else self.seq(a)) for a in args]
        if name in ('union', 'update'):
            r = scat(s, *seqs)
        elif name in ('intersection', 'intersection_update'):
            r = s
            for q in seqs:
                r = sfilter(r, lambda x, q=q: contains(q, x))
        elif name in ('difference', 'difference_update'):
            r = s
            for q in seqs:
                r = sfilter(r, lambda x, q=q: Not(contains(q, x)))
        elif name == 'copy':
            r = s
        elif name == 'issubset':
            return Not(exists(s, self.lamof(lambda e: Not(contains(seqs[0], e)))))
        elif name == 'issuperset':
            return Not(exists(seqs[0], self.lamof(lambda e: Not(contains(s, e)))))
        elif name == 'isdisjoint':
            return Not(exists(s, self.lamof(lambda e: contains(seqs[0], e))))
        else:
            raise Unsupported('set.%s' % name)
        if name.endswith('update'):
            if not isinstance(o, HSet):
                self.effect(const('setmethod:' + name), o, *[self.arg(a) for a in args])
                return NONE
            self.setnode(o, r)
            return NONE
        return self.mkset(r, frozen)

    def partial_star(self, args, kwargs, kwd):
        """partial(f, *args, **keywords) with symbolic content"""
        fa = []
        f = args[0]
        if isinstance(f, T):
            f = self.thaw(f)
        if not self.branch(b_callable(self, [f], {})):
            self.raise_('TypeError')
        s = EMPTY
        for a in args[1:]:
            s = scat(s, a[1]) if isinstance(a, tuple) and a[0] == '*' else scat(s, lit(self.tou(a)))
        d = kwd if kwd is not None else DEMPTY
        for k, v in kwargs.items():
            d = upd(d, const(k), self.tou(v))
        return app('partial_star', self.arg(f), seqv('tuple', self.freeze_term(s)),
                   dictv('dict', self.freeze_term(d)), ty='partial')


# ---------------------------------------------------------------- standard library

def _pred_ext(name, cls, hit):
    @ext(name)
    def f(I, args, kwargs):
        v = args[0]
        if isinstance(v, T):
            v = I.thaw(v)
        if isinstance(v, T):
            v = box(v)
            return isinst(I, v, cls)
        return TRUE if isinstance(v, hit) else FALSE


_pred_ext('inspect.isfunction', 'function', FuncV)
_pred_ext('inspect.isclass', 'type', ClsV)
_pred_ext('inspect.ismodule', 'module', ModV)
_pred_ext('inspect.isbuiltin', 'builtin', ())


@ext('inspect.ismemberdescriptor')
def e_ismember(I, args, kwargs):
    return pred('ismemberdescriptor', I.arg(args[0]))


@ext('inspect.isdatadescriptor')
def e_isdata(I, args, kwargs):
    return pred('isdatadescriptor', I.arg(args[0]))


@ext('inspect.getmembers')
def e_getmembers(I, args, kwargs):
    a = [I.arg(x) for x in args]
    r = app('getmembers', *a, ty='list')
    s = sbase(r)
    x = fresh('m')
    # a list of pairs (name, value), with distinct names
    return HList(I, node=flat(keys(mk('dbase', (app('getmembers_dict', *a, ty='dict'),), 'D')),
                              lam(x, lit(tup(x, dget(mk('dbase', (app('getmembers_dict', *a, ty='dict'),), 'D'),
                                                     x))))))


ARGSPEC = ('args', 'varargs', 'varkw', 'defaults', 'kwonlyargs', 'kwonlydefaults', 'annotations')


def named(I, t, names):
    """a tuple with names"""
    if isinstance(t, T) and t.op == 'tup' and len(t.args) == len(names):
        I.named[id(t)] = (t, names)
    return t


@ext('inspect.getfullargspec')
def e_getfullargspec(I, args, kwargs):
    return named(I, full_argspec(I, args, kwargs), ARGSPEC)


def full_argspec(I, args, kwargs):
    f = args[0]
    if isinstance(f, T):
        f = I.thaw(f)
    if isinstance(f, BoundV):
        raise Unsupported('argspec of method')
    if isinstance(f, FuncV):
        a = f.node.args
        names = [p.arg for p in getattr(a, 'posonlyargs', [])] + [p.arg for p in a.args]
        return tup(HList(I, node=lit(*[const(n) for n in names])).t,
                   const(a.vararg.arg) if a.vararg else NONE,
                   const(a.kwarg.arg) if a.kwarg else NONE,
                   tup(*[I.tou(d) for d in f.defaults]) if f.defaults else NONE,
                   HList(I, node=lit(*[const(p.arg) for p in a.kwonlyargs])).t, NONE, HDict(I, node=DEMPTY).t)
    if isinstance(f, T):
        if I.kindof(f) in ('str', 'none', 'int', 'dict', 'list', 'tuple') or \
                I.branch(pred('noargspec', f)):
            I.raise_('TypeError')
        spec = getattr(I, 'argspec_model', None)
        if spec is not None:
            r = spec(I, f)
            if r is not None:
                return r
        defaults = app('fa:defaults', f)
        I.assume(Or(eq(defaults, NONE), And(pred('isinst:tuple', defaults), Not(pred('nolen', defaults)), ile(
            ilen(sbase(defaults)), ilen(sbase(app('fa:args', f, ty='list')))))))
        return tup(app('fa:args', f, ty='list'), app('fa:varargs', f), app('fa:varkw', f), app('fa:defaults', f),
                   app('fa:kwonly', f, ty='list'), app('fa:kwonlydefaults', f), app('fa:annotations', f, ty='dict'))
    raise Unsupported('argspec of %r' % (f,))


@ext('inspect.stack')
def e_stack(I, args, kwargs):
    x = I.fresh('frame')
    return HList(I, node=flat(sym('frames', 'S'), lam(x, lit(tup(*[
        app('caller:' + n, x, ty='str' if n == 'function' else None) for n in ip.FRAMEINFO])))))


@ext('inspect.getargvalues')
def e_getargvalues(I, args, kwargs):
    f = I.arg(args[0])
    I.assumptions_used.add('the arguments of a frame are names of its locals, and its **kwargs is a dictionary')
    names, d = sbase(app('frame:args', f, ty='list')), dbase(app('frame:locals', f, ty='dict'))
    va, kw = app('frame:varargs', f), app('frame:varkw', f)
    x = fresh('x')
    I.assume(Not(exists(names, lam(x, Not(And(pred('isinst:str', x), has(d, x)))))))
    for v in (va, kw):
        I.assume(Or(eq(v, NONE), And(pred('isinst:str', v), has(d, v))))
    I.assume(Or(eq(kw, NONE), pred('isinst:dict', dget(d, kw))))
    I.assume(Or(eq(va, NONE), pred('isinst:tuple', dget(d, va))))
    return named(I, tup(app('frame:args', f, ty='list'), va, kw, app('frame:locals', f, ty='dict')),
                 ('args', 'varargs', 'keywords', 'locals'))


@ext('itertools.chain')
def e_chain(I, args, kwargs):
    return HIter(I, node=scat(*[I.seq(a) for a in args]))


@ext('itertools.chain*')
def e_chain_star(I, args, kwargs, kwd):
    if len(args) == 1 and isinstance(args[0], tuple):
        return e_chain_from(I, [seqv('iter', args[0][1])], {})
    raise Unsupported('chain')


@ext('itertools.chain.from_iterable')
def e_chain_from(I, args, kwargs):
    out = HIter(I, node=EMPTY)
    I.loop(I.seq(args[0]), lambda v: I.setnode(out, scat(out.f['node'], I.seq(v))))
    return out


@ext('operator.itemgetter')
def e_itemgetter(I, args, kwargs):
    if len(args) != 1:
        raise Unsupported('itemgetter')
    return PartialV(I, ExtV('_itemgetter'), [args[0]], {})


@ext('_itemgetter')
def e_itemgetter2(I, args, kwargs):
    return I.getitem(args[1], args[0])


@ext('operator.attrgetter')
def e_attrgetter(I, args, kwargs):
    return PartialV(I, ExtV('_attrgetter'), [args[0]], {})


@ext('_attrgetter')
def e_attrgetter2(I, args, kwargs):
    return I.getattr(args[1], cval(args[0]))


@ext('copy.copy')
def e_copy(I, args, kwargs):
    v = args[0]
    if isinstance(v, T):
        v = I.thaw(v)
    if isinstance(v, HList):
        return HList(I, node=v.f['node'])
    if isinstance(v, HDict):
        o = HDict(I, **v.f)
        if getattr(v, 'repocls', None) is not None:
            o.repocls = v.repocls
        return o
    if isinstance(v, HSet):
        return HSet(I, **v.f)
    if isinstance(v, HInst):
        return HInst(I, v.cls, **v.f)
    if isinstance(v, T):
        if v.ty in ('str', 'none', 'int', 'bool', 'float', 'tuple'):
            return v
        return app('copy', v, ty=v.ty)
    return v


@ext('copy.deepcopy')
def e_deepcopy(I, args, kwargs):
    """texts, numbers and None are themselves; a dictionary (keys are texts) gives a new one with deep copies of the values; any other
    value gives another one, of which nothing is known but that it depends on the original"""
    v = args[0]
    if isinstance(v, T):
        v = I.thaw(v)
    I.assumptions_used.add('deepcopy yields an independent value with the same content')
    if isinstance(v, HDict) and v.f.get('cls', 'dict') == 'dict':
        return I.call(I.resolve('spec.what.deepcopied'), [v], {})
    if isinstance(v, HSet):
        return HSet(I, **v.f)
    if isinstance(v, HInst):
        return HInst(I, v.cls, **{k: e_deepcopy(I, [x], {}) for k, x in v.f.items()})
    if isinstance(v, T):
        if v.ty in ('str', 'none', 'int', 'bool', 'float', 'complex'):
            return v
        return Ite(Or(eq(v, NONE), pred('isinst:str', v)), v, app('deepcopied', v))
    raise Unsupported('deepcopy of this value')


@ext('functools.update_wrapper')
def e_update_wrapper(I, args, kwargs):
    names = ['wrapper', 'wrapped', 'assigned', 'updated']
    b = dict(zip(names, args))
    b.update(kwargs)
    w, f = b['wrapper'], b['wrapped']
    if isinstance(f, T):
        f = I.thaw(f)
    s = I.seq(b['assigned']) if 'assigned' in b else EXTCONST['functools.WRAPPER_ASSIGNMENTS']
    if not isinstance(w, FuncV) or not isinstance(s, T):
        raise Unsupported('update_wrapper')
    if s.op == 'tup':
        s = lit(*s.args)
    if s.op != 'lit':
        raise Unsupported('update_wrapper with symbolic names')
    for n in s.args:
        try:
            v = I.getattr(f, cval(n))
        except PyExc as e:
            if I.exc_matches(e.val, ClsV('AttributeError')):
                continue
            raise
        I.put(w.f, cval(n), v)
    if isinstance(f, (FuncV, PartialV)):
        for k, v in list(f.f.items()):
            if not k.startswith('__'):
                I.put(w.f, k, v)
    I.put(w.f, '__wrapped__', f)
    return w


@ext('hashlib.sha1')
def e_sha1(I, args, kwargs):
    return app('sha1obj', *[I.arg(a) for a in args], ty='obj')


@ext('_hexdigest')
def e_hexdigest(I, args, kwargs):
    return app('hexdigest', I.arg(args[0]), ty='str')


@ext('importlib.import_module')
def e_import_module(I, args, kwargs):
    n = I.arg(args[0])
    I.assumptions_used.add('importing a module again has the same outcome')
    if I.branch(pred('raises:import', n)):
        e = app('exc:import', n)
        I.assume(pred('isinst:BaseException', e))
        raise PyExc(e)
    return app('module', n, ty='module')


@ext('pkgutil.iter_modules')
def e_iter_modules(I, args, kwargs):
    return module_rows(I, 'iter_modules', args)


@ext('pkgutil.walk_packages')
def e_walk_packages(I, args, kwargs):
    return module_rows(I, 'walk_packages', args)


def module_rows(I, name, args):
    v = app(name, *[I.arg(a) for a in args], ty='list')
    x = fresh('x')
    I.assume(Not(exists(sbase(v), lam(x, Not(And(pred('isinst:tuple', x), ieq(ilen(sbase(x)), iconst(3))))))))
    return v


@builtin('new:method')
def e_methodtype(I, args, kwargs):
    f = args[0]
    if isinstance(f, T):
        f = I.thaw(f)
    return BoundV(f, args[1])


@ext('super.__getattribute__')
def e_super_getattribute(I, args, kwargs):
    o, name = args
    if not is_const(name):
        if not isinstance(o, HInst):
            raise Unsupported('getattribute')
        for k in sorted(o.f):
            if I.branch(same(name, const(k))):
                return I.inst_attr(o, k)
        return app('objattr', I.arg(o), name)
    if isinstance(o, HInst):
        return I.inst_attr(o, cval(name))
    return app('objattr', I.arg(o), name)


@ext('type.__new__')
def e_new_class(I, args, kwargs):
    return app('new_class', *[I.arg(a) for a in args])


@ext('dictsuper.__init__')
def d_init(I, args, kwargs):
    return I.call_method(_Raw(args[0]), '__init__', args[1:], kwargs)


for _n in ('__getitem__', '__contains__', '__setitem__', 'get', 'update', 'items', 'keys', 'values', 'copy', 'pop',
           'setdefault'):
    def _mk(n):
        @ext('dictsuper.' + n)
        def f(I, args, kwargs):
            return I.call_method(_Raw(args[0]), n, args[1:], kwargs)
    _mk(_n)


for _k, _ms in Exprs.METHODS.items():
    for _m in _ms:
        def _mk2(m):
            def f(I, args, kwargs):
                return I.call_method(args[0], m, args[1:], kwargs)
            return f
        BUILTINS['%s.%s' % (_k, _m)] = _mk2(_m)


class PyVer(Exprs, Methods, Interp):

    def extval(self, full):
        if full in EXTCONST:
            return EXTCONST[full]
        return Interp.extval(self, full)

    def is_set(self, v):
        return Exprs.is_set(self, v) or (isinstance(v, T) and v.op == 'seqv' and v.args[0] == 'setview')

    def term_attr(self, o, name):
        if o.op == 'app' and o.args[0] == 'sha1obj' and name == 'hexdigest':
            return PartialV(self, ExtV('_hexdigest'), [o], {})
        if o.op == 'app' and o.args[0] == 'partial_star':
            if name == 'func':
                return self.thaw(o.args[1])
            if name == 'args':
                return o.args[2]
            if name == 'keywords':
                return self.thaw(o.args[3])
        return Exprs.term_attr(self, o, name)
