"""Hash-consed terms.

Sorts:  U (python values), B (formulas), I (integers), S (finite sequences), D (insertion-ordered dictionaries)

Binders use the "height" representation: the bound variable of a lambda is bv(n) where n is one more than the highest
bound variable bound inside its body; alpha-equivalent lambdas are therefore the same term.
"""
import itertools

_TABLE = {}
_IDS = itertools.count()


NOSYMS = frozenset()


class T(object):
    __slots__ = ('op', 'args', 'sort', 'ty', 'uid', 'maxbv', 'hasbv', 'hrefs', 'size', 'syms')

    def __repr__(self):
        return show(self)


def mk(op, args, sort, ty=None):
    key = (op, sort, args, ty)
    t = _TABLE.get(key)
    if t is None:
        t = T.__new__(T)
        t.op, t.args, t.sort, t.ty = op, args, sort, ty
        t.uid = next(_IDS)
        m = 0
        free = set()
        hr = False
        size = 1
        syms = NOSYMS
        for a in args:
            if isinstance(a, T):
                if a.syms is not syms and a.syms:
                    syms = a.syms if not syms else (syms if a.syms <= syms else syms | a.syms)
                if a.maxbv > m:
                    m = a.maxbv
                free |= a.hasbv
                hr = hr or a.hrefs
                size += a.size
        if op == 'lam':
            m = max(m, args[0])
            free = free - {args[0]}
        elif op == 'bv':
            free = {args[0]}
        elif op == 'href':
            hr = True
        if op == 'sym' or op == 'href':
            syms = frozenset((t,))
        t.syms = syms
        t.maxbv = m
        t.hasbv = frozenset(free)
        t.hrefs = hr
        t.size = size
        _TABLE[key] = t
    return t


class _K(object):
    """Constant wrapper that distinguishes types (True is not 1) and wraps unhashables by repr."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, _K) and type(o.v) is type(self.v) and (
            o.v == self.v or (self.v != self.v and o.v != o.v)) and repr(self.v) == repr(o.v)

    def __hash__(self):
        return hash((type(self.v).__name__, repr(self.v)))

    def __repr__(self):
        return repr(self.v)


def const(v):
    ty = {str: 'str', bool: 'bool', int: 'int', float: 'float', type(None): 'none', bytes: 'bytes'}.get(type(v))
    if ty is None:
        raise TypeError('not a constant %r' % (v,))
    if ty == 'bool':
        return mk('boxb', (TRUE if v else FALSE,), 'U', 'bool')
    if ty == 'int':
        return mk('boxi', (iconst(v),), 'U', 'int')
    return mk('const', (_K(v),), 'U', ty)


def is_const(t):
    if not isinstance(t, T):
        return False
    return t.op == 'const' or (t.op == 'boxb' and t.args[0].op in ('true', 'false')) or \
        (t.op == 'boxi' and t.args[0].op == 'iconst')


def cval(t):
    if t.op == 'const':
        return t.args[0].v
    if t.op == 'boxb':
        return t.args[0] is TRUE
    return t.args[0].args[0]


def iconst(n):
    return mk('iconst', (n,), 'I')


TRUE = mk('true', (), 'B')
FALSE = mk('false', (), 'B')
NONE = mk('const', (_K(None),), 'U', 'none')
EMPTY = mk('lit', (), 'S')
DEMPTY = mk('dempty', (), 'D')


def sym(name, sort='U', ty=None):
    return mk('sym', (name,), sort, ty)


_FRESH = itertools.count()


def fresh(prefix='x', sort='U', ty=None):
    return mk('sym', ('%s!%d' % (prefix, next(_FRESH)),), sort, ty)


def app(f, *args, **kw):
    return mk('app', (f,) + args, 'U', kw.get('ty'))


def pred(p, *args):
    return mk('pred', (p,) + args, 'B')


# ---- formulas

def Not(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == 'not':
        return b.args[0]
    return mk('not', (b,), 'B')


def And(*bs):
    out = []
    for b in bs:
        if b is FALSE:
            return FALSE
        if b is TRUE:
            continue
        if b.op == 'and':
            for c in b.args:
                if c not in out:
                    out.append(c)
        elif b not in out:
            out.append(b)
    for b in out:
        if Not(b) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', tuple(out), 'B')


def Or(*bs):
    return Not(And(*[Not(b) for b in bs]))


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return Not(b)
    if b is FALSE:
        return Not(a)
    if a.uid > b.uid:
        a, b = b, a
    return mk('iff', (a, b), 'B')


def Ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == 'B':
        return Or(And(c, a), And(Not(c), b))
    if c.op == 'not':
        return Ite(c.args[0], b, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a.sort == 'U' and a.op == 'const' and c is eq(a, b) and a.args[0].v is None:
        return b
    return mk('ite', (c, a, b), a.sort, a.ty if a.ty == b.ty else None)


# ---- integers

def iadd(a, b):
    if a.op == 'iconst' and b.op == 'iconst':
        return iconst(a.args[0] + b.args[0])
    if a.op == 'iconst' and a.args[0] == 0:
        return b
    if b.op == 'iconst' and b.args[0] == 0:
        return a
    if a.op == 'iconst':
        a, b = b, a
    if b.op == 'iconst' and a.op == 'iadd' and a.args[1].op == 'iconst':
        return iadd(a.args[0], iconst(a.args[1].args[0] + b.args[0]))
    return mk('iadd', (a, b), 'I')


def ineg(a):
    if a.op == 'iconst':
        return iconst(-a.args[0])
    if a.op == 'ineg':
        return a.args[0]
    return mk('ineg', (a,), 'I')


def ile(a, b):
    if a.op == 'iconst' and b.op == 'iconst':
        return TRUE if a.args[0] <= b.args[0] else FALSE
    if a is b:
        return TRUE
    return mk('ile', (a, b), 'B')


def ilt(a, b):
    return Not(ile(b, a))


def ieq(a, b):
    if a is b:
        return TRUE
    if a.op == 'iconst' and b.op == 'iconst':
        return FALSE
    if a.uid > b.uid:
        a, b = b, a
    return mk('ieq', (a, b), 'B')


def boxi(i):
    if i.op == 'unboxi':
        if i.args[0].ty == 'int':
            return i.args[0]
    return mk('boxi', (i,), 'U', 'int')


def unboxi(u):
    if u.op == 'boxi':
        return u.args[0]
    if u.op == 'boxb':
        return Ite(u.args[0], iconst(1), iconst(0))
    return mk('unboxi', (u,), 'I')


def boxb(b):
    if b.op == 'truthy' and b.args[0].ty == 'bool':
        return b.args[0]
    return mk('boxb', (b,), 'U', 'bool')


def box(t):
    if t.sort == 'B':
        return boxb(t)
    if t.sort == 'I':
        return boxi(t)
    return t


# ---- strings

def cat(*parts):
    out = []
    for p in parts:
        if p.op == 'cat':
            sub = p.args
        else:
            sub = (p,)
        for q in sub:
            if q.op == 'const' and q.args[0].v == '':
                continue
            if out and out[-1].op == 'const' and q.op == 'const':
                out[-1] = const(out[-1].args[0].v + q.args[0].v)
            else:
                out.append(q)
    if not out:
        return const('')
    if len(out) == 1 and out[0].ty == 'str':
        return out[0]
    return mk('cat', tuple(out), 'U', 'str')


def join(sep, s):
    """sep.join(s) with s a sequence of strings."""
    s = ns(s)
    if s.op == 'lit':
        parts = []
        for i, a in enumerate(s.args):
            if i:
                parts.append(sep)
            parts.append(a)
        return cat(*parts)
    if is_const(sep) and cval(sep) == '' and s.op == 'scat':
        return cat(*[join(sep, p) for p in s.args])
    return mk('join', (sep, s), 'U', 'str')


# ---- tuples / frozen containers

def tup(*items):
    return mk('tup', tuple(box(i) for i in items), 'U', 'tuple')


def seqv(kind, s):
    """Frozen view of a fresh sequence container (list, set, frozenset, tuple, iter...)"""
    s = ns(s)
    if kind == 'tuple' and s.op == 'lit':
        return tup(*s.args)
    return mk('seqv', (kind, s), 'U', kind if kind in ('list', 'tuple', 'set', 'frozenset') else None)


def dictv(kind, d):
    if d.op == 'dbase' and kind == 'dict' and d.args[0].ty == 'dict':
        return d.args[0]
    return mk('dictv', (kind, d), 'U', 'dict')


def new(cls, fields):
    """Frozen view of a fresh instance"""
    return mk('new', (cls, tuple(sorted(fields))) + tuple(fields[k] for k in sorted(fields)), 'U', 'obj')


# ---- lambdas

def lam(x, body):
    """Abstracts symbol x in body"""
    n = body.maxbv + 1
    return mk('lam', (n, subst(body, {x: mk('bv', (n,), x.sort, x.ty)})), 'L')


def inst(l, arg):
    n, body = l.args
    return subst(body, {}, bvn=n, arg=arg)


_SUBST_CACHE = {}


def subst(t, m, bvn=None, arg=None):
    """Capture-free by construction (height binders)... after substitution terms are rebuilt with smart constructors."""
    cache = {}
    keyset = frozenset(m)
    prune = all(k.op in ('sym', 'href') for k in m)
    closed = (arg is None or not arg.hasbv) and not any(v.hasbv for v in m.values())

    def go(t):
        if not isinstance(t, T):
            return t
        if prune and (bvn is None or bvn not in t.hasbv) and keyset.isdisjoint(t.syms):
            return t
        r = cache.get(t.uid)
        if r is not None:
            return r
        if t in m:
            r = m[t]
        elif bvn is not None and t.op == 'bv' and t.args[0] == bvn:
            r = arg
        elif not t.args or t.op in ('sym', 'bv', 'const', 'iconst', 'href'):
            r = t
        elif t.op == 'lam':
            n, body = t.args
            if bvn is not None and bvn == n and not m:
                r = t   # shadowed
            elif closed and bvn != n:
                b2 = go(body)
                if b2 is body:
                    r = t
                elif b2.maxbv + 1 == n:
                    r = mk('lam', (n, b2), 'L')
                else:
                    x = fresh('b')
                    r = lam(x, subst(b2, {}, bvn=n, arg=x))
            else:
                # re-open with a fresh symbol so that heights stay canonical
                x = fresh('b')
                b2 = go(subst(body, {}, bvn=n, arg=x)) if bvn != n else subst(subst(body, {}, bvn=n, arg=x), m)
                r = lam(x, b2)
        else:
            nargs = tuple(go_arg(a) for a in t.args)
            r = t if all(a is b for a, b in zip(nargs, t.args)) else rebuild(t, nargs)
        cache[t.uid] = r
        return r

    def go_arg(a):
        return go(a) if isinstance(a, T) else a

    if bvn is not None and bvn not in t.hasbv and not m:
        return t
    return go(t)


def rebuild(t, a):
    op = t.op
    if op == 'and':
        return And(*a)
    if op == 'not':
        return Not(a[0])
    if op == 'app' and a[0] == 'text' and len(a) == 2 and a[1].op == 'app' and a[1].args[0] == 'other':
        return mk('app', ('text', a[1].args[1]), 'U', t.ty)  # members with the same text (through_chain)
    if op == 'iff':
        return Iff(*a)
    if op == 'ite':
        return Ite(*a)
    if op == 'eq':
        return eq(*a)
    if op == 'iadd':
        return iadd(*a)
    if op == 'ineg':
        return ineg(*a)
    if op == 'ile':
        return ile(*a)
    if op == 'ieq':
        return ieq(*a)
    if op == 'boxi':
        return boxi(*a)
    if op == 'boxb':
        return boxb(*a)
    if op == 'unboxi':
        return unboxi(*a)
    if op == 'truthy':
        return truthy(*a)
    if op == 'cat':
        return cat(*a)
    if op == 'join':
        return join(*a)
    if op == 'tup':
        return tup(*a)
    if op == 'seqv':
        return seqv(*a)
    if op == 'dictv':
        return dictv(*a)
    if op == 'item':
        return item(*a)
    if op == 'has':
        return has(*a)
    if op == 'dget':
        return dget(*a)
    if op == 'lit':
        return lit(*a)
    if op == 'scat':
        return scat(*a)
    if op == 'flat':
        return flat(*a)
    if op == 'sorted':
        return ssorted(*a)
    if op == 'keys':
        return keys(*a)
    if op == 'dcomp':
        return dcomp(*a)
    if op == 'upd':
        return upd(*a)
    if op == 'ddel':
        return ddel(*a)
    if op == 'merge':
        return merge(*a)
    if op == 'frompairs':
        return frompairs(*a)
    if op == 'exists':
        return exists(*a)
    if op == 'ilen':
        return ilen(*a)
    if op == 'zip':
        return szip(*a)
    if op == 'enum':
        return senum(*a)
    if op == 'dedup':
        return dedup(*a)
    if op == 'sbase':
        return sbase(*a)
    if op == 'dbase':
        return dbase(*a)
    if op == 'slice':
        return sslice(*a)
    if op == 'rev':
        return srev(*a)
    if op == 'snth':
        return snth(*a)
    if op == 'pred':
        return mkpred(*a)
    if op == 'setorder':
        return setorder(*a)
    return mk(op, a, t.sort, t.ty)


def mkpred(p, *args):
    """Constant folding for predicates"""
    if p == 'startswith' and all(is_const(a) for a in args) and all(isinstance(cval(a), str) for a in args):
        return TRUE if cval(args[0]).startswith(cval(args[1])) else FALSE
    if p == 'endswith' and all(is_const(a) for a in args) and all(isinstance(cval(a), str) for a in args):
        return TRUE if cval(args[0]).endswith(cval(args[1])) else FALSE
    if p == 'startswith' and args[0].op == 'cat' and is_const(args[0].args[0]) and is_const(args[1]) and \
            isinstance(cval(args[1]), str):
        a, b = cval(args[0].args[0]), cval(args[1])
        if len(a) >= len(b) or not b.startswith(a):
            return TRUE if a.startswith(b) else FALSE
    if p in ('startswith', 'endswith', 'contains') and is_const(args[1]) and cval(args[1]) == '':
        return TRUE
    if p == 'contains' and all(is_const(a) for a in args) and all(isinstance(cval(a), str) for a in args):
        return TRUE if cval(args[1]) in cval(args[0]) else FALSE
    return pred(p, *args)


# ---- equality and truth

_DISJOINT = {'str', 'none', 'tuple', 'list', 'dict', 'set', 'bytes', 'obj', 'class', 'func'}
_NUM = {'int', 'bool', 'float'}


def eq(a, b):
    """python =="""
    a, b = box(a), box(b)
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        return TRUE if cval(a) == cval(b) else FALSE
    if a.ty and b.ty and a.ty != b.ty:
        if (a.ty in _DISJOINT and b.ty in _DISJOINT and 'obj' not in (a.ty, b.ty)) or \
                (a.ty in _NUM and b.ty in (_DISJOINT - {'obj'})) or (b.ty in _NUM and a.ty in (_DISJOINT - {'obj'})):
            return FALSE
    if a.op == 'tup' and b.op == 'tup':
        if len(a.args) != len(b.args):
            return FALSE
        return And(*[eq(x, y) for x, y in zip(a.args, b.args)])
    if a.op == 'boxi' and b.op == 'boxi':
        return ieq(a.args[0], b.args[0])
    if a.op == 'boxb' and b.op == 'boxb':
        return Iff(a.args[0], b.args[0])
    if a.op == 'ite':
        return Or(And(a.args[0], eq(a.args[1], b)), And(Not(a.args[0]), eq(a.args[2], b)))
    if b.op == 'ite':
        return eq(b, a)
    if a.op == 'cat' and b.op == 'cat':
        # strip common prefixes and suffixes
        x, y = list(a.args), list(b.args)
        n = len(x) + len(y)
        while x and y and x[0] is y[0]:
            x.pop(0)
            y.pop(0)
        while x and y and x[-1] is y[-1]:
            x.pop()
            y.pop()
        if len(x) + len(y) < n:
            return eq(cat(*x), cat(*y))
    if a.uid > b.uid:
        a, b = b, a
    return mk('eq', (a, b), 'B')


def truthy(u):
    if u.sort == 'B':
        return u
    if u.sort == 'I':
        return Not(ieq(u, iconst(0)))
    if is_const(u):
        return TRUE if cval(u) else FALSE
    if u.op == 'boxb':
        return u.args[0]
    if u.op == 'boxi':
        return Not(ieq(u.args[0], iconst(0)))
    if u.op == 'tup':
        return TRUE if u.args else FALSE
    if u.op == 'seqv':
        return nonempty(u.args[1])
    if u.op == 'dictv':
        return nonempty(keys(u.args[1]))
    if u.op == 'ite':
        return Ite(u.args[0], truthy(u.args[1]), truthy(u.args[2]))
    if u.op == 'cat':
        if any(p.op == 'const' for p in u.args):
            return TRUE
    if u.op == 'new':
        return TRUE
    return mk('truthy', (u,), 'B')


def item(t, i):
    """i-th component of a tuple value, constant index"""
    if t.op == 'tup':
        return t.args[i]
    if t.op == 'ite':
        return Ite(t.args[0], item(t.args[1], i), item(t.args[2], i))
    return mk('item', (t, i), 'U')


# ---- dictionaries

def dbase(u):
    if u.op == 'dictv':
        return u.args[1]
    if u.op == 'ite':
        return Ite(u.args[0], dbase(u.args[1]), dbase(u.args[2]))
    return mk('dbase', (u,), 'D')


def upd(d, k, v):
    k, v = box(k), box(v)
    if d.op == 'frompairs' and d.args[1].op == 'flat':
        # all these pairs have this very key
        x = fresh('x')
        b = inst(d.args[1].args[1], x)
        if b.op == 'lit' and len(b.args) == 1 and b.args[0].op == 'tup' and b.args[0].args[0] is k \
                and not occurs(x, k):
            return upd(d.args[0], k, v)
    return mk('upd', (d, k, v), 'D')


def ddel(d, k):
    if d.op == 'dempty':
        return d
    return mk('ddel', (d, box(k)), 'D')


def dcomp(d0, l):
    """{k: val for k in d0 if guard}; l is lam k. tup(boxb guard, val)"""
    if d0.op == 'dempty':
        return DEMPTY
    return mk('dcomp', (d0, l), 'D')


def merge(a, b):
    """a.update(b)"""
    if b.op == 'dempty':
        return a
    if a.op == 'dempty':
        return b
    if b.op == 'upd':
        return upd(merge(a, b.args[0]), b.args[1], b.args[2])
    return mk('merge', (a, b), 'D')


def frompairs(base, s):
    """base updated with the sequence of pairs s"""
    s = ns(s)
    if s.op == 'lit':
        for p in s.args:
            base = upd(base, item(p, 0), item(p, 1))
        return base
    if s.op == 'scat':
        for p in s.args:
            base = frompairs(base, p)
        return base
    if s.op == 'ite' and s.sort == 'S':
        return Ite(s.args[0], frompairs(base, s.args[1]), frompairs(base, s.args[2]))
    if s.op == 'flat':
        b, l = s.args
        kd = keys_source(b)
        if kd is None and b.sort == 'S':
            kd = mk('fromseq', (b,), 'D')
        if kd is not None:
            x = fresh('k')
            body = inst(l, x)
            r = _single(body)
            if r is not None:
                g, e = r
                if item(e, 0) is x:
                    d = dcomp(kd, lam(x, tup(boxb(g), item(e, 1))))
                    # identity comprehension
                    if g is TRUE and item(e, 1) is dget(kd, x):
                        d = kd
                    return merge(base, d)
    return mk('frompairs', (base, s), 'D')


def keys_source(b):
    """If sequence b enumerates the keys of a dictionary, that dictionary"""
    if b.op == 'keys':
        return b.args[0]
    return None


def _single(body):
    """body (S) as (guard, element) if it is ite(g, [e], []) or [e] or [] """
    if body.op == 'lit':
        if len(body.args) == 1:
            return TRUE, body.args[0]
        return None
    if body.op == 'ite':
        c, a, b = body.args
        if a.op == 'lit' and not a.args:
            r = _single(b)
            if r:
                return And(Not(c), r[0]), r[1]
            return None
        if b.op == 'lit' and not b.args:
            r = _single(a)
            if r:
                return And(c, r[0]), r[1]
            return None
        ra, rb = _single(a), _single(b)
        if ra and rb:
            return Or(And(c, ra[0]), And(Not(c), rb[0])), Ite(c, ra[1], rb[1])
    return None


def has(d, k):
    k = box(k)
    op = d.op
    if op == 'dempty':
        return FALSE
    if op == 'fromseq':
        return contains(d.args[0], k)
    if op == 'drekey' and k.op == 'app' and k.args[0] == d.args[1]:
        return has(d.args[0], k.args[1])
    if op == 'upd':
        return Or(eq(d.args[1], k), has(d.args[0], k))
    if op == 'ddel':
        return And(Not(eq(d.args[1], k)), has(d.args[0], k))
    if op == 'merge':
        return Or(has(d.args[1], k), has(d.args[0], k))
    if op == 'dcomp':
        gv = inst(d.args[1], k)
        return And(has(d.args[0], k), truthy(item(gv, 0)))
    if op == 'frompairs':
        x = fresh('p')
        return Or(has(d.args[0], k), exists(d.args[1], lam(x, eq(item(x, 0), k))))
    if op == 'ite':
        return Ite(d.args[0], has(d.args[1], k), has(d.args[2], k))
    return mk('has', (d, k), 'B')


def dget(d, k):
    """value at k, assuming present"""
    k = box(k)
    op = d.op
    if op == 'upd':
        return Ite(eq(d.args[1], k), d.args[2], dget(d.args[0], k))
    if op == 'ddel':
        return dget(d.args[0], k)
    if op == 'merge':
        return Ite(has(d.args[1], k), dget(d.args[1], k), dget(d.args[0], k))
    if op == 'dcomp':
        return item(inst(d.args[1], k), 1)
    if op == 'drekey' and k.op == 'app' and k.args[0] == d.args[1]:
        return app(d.args[1], dget(d.args[0], k.args[1]))
    if op == 'frompairs' and d.args[0].op != 'dempty':
        x = fresh('p')
        return Ite(exists(d.args[1], lam(x, eq(item(x, 0), k))), dget(frompairs(DEMPTY, d.args[1]), k),
                   dget(d.args[0], k))
    if op == 'ite':
        return Ite(d.args[0], dget(d.args[1], k), dget(d.args[2], k))
    if op == 'dempty':
        return app('undef')
    return mk('dget', (d, k), 'U')


# ---- sequences

def lit(*items):
    return mk('lit', tuple(box(i) for i in items), 'S')


def sbase(u):
    """The sequence of elements of an (immutable view of an) iterable value"""
    if u.op == 'seqv':
        return u.args[1]
    if u.op == 'tup':
        return lit(*u.args)
    if u.op == 'dictv':
        return keys(u.args[1])
    if u.op == 'ite':
        return Ite(u.args[0], sbase(u.args[1]), sbase(u.args[2]))
    return mk('sbase', (u,), 'S')


def keys(d):
    op = d.op
    if op == 'dempty':
        return EMPTY
    if op == 'drekey':
        x = fresh('k')
        return flat(keys(d.args[0]), lam(x, lit(app(d.args[1], x))))
    if op == 'fromseq':
        return dedup(d.args[0])
    if op == 'dcomp':
        d0, l = d.args
        x = fresh('k')
        return flat(keys(d0), lam(x, Ite(truthy(item(inst(l, x), 0)), lit(x), EMPTY)))
    if op == 'upd':
        return scat(keys(d.args[0]), Ite(has(d.args[0], d.args[1]), EMPTY, lit(d.args[1])))
    if op == 'ddel':
        x = fresh('k')
        return flat(keys(d.args[0]), lam(x, Ite(eq(x, d.args[1]), EMPTY, lit(x))))
    if op == 'merge':
        a, b = d.args
        x = fresh('k')
        return scat(keys(a), flat(keys(b), lam(x, Ite(has(a, x), EMPTY, lit(x)))))
    if op == 'frompairs':
        x = fresh('p')
        base, s = d.args
        ks = flat(s, lam(x, lit(item(x, 0))))
        if base.op == 'dempty':
            return dedup(ks)
        return dedup(scat(keys(base), ks))
    if op == 'ite':
        return Ite(d.args[0], keys(d.args[1]), keys(d.args[2]))
    return mk('keys', (d,), 'S')


def drekey(d, name):
    """The dictionary with key name(k) and value name(v) for each entry (k, v) of d; name is injective"""
    return mk('drekey', (d, name), 'D')


def items(d):
    x = fresh('k')
    return flat(keys(d), lam(x, lit(tup(x, dget(d, x)))))


def values(d):
    x = fresh('k')
    return flat(keys(d), lam(x, lit(dget(d, x))))


def scat(*ss):
    out = []
    for s in ss:
        s = ns(s)
        for p in (s.args if s.op == 'scat' else (s,)):
            if p.op == 'lit' and not p.args:
                continue
            if out and out[-1].op == 'lit' and p.op == 'lit':
                out[-1] = lit(*(out[-1].args + p.args))
            elif out and p.op == 'slice' and out[-1].op == 'slice' and out[-1].args[0] is p.args[0] and \
                    out[-1].args[1] is None and p.args[2] is None and out[-1].args[2] is not None and \
                    out[-1].args[2].op == 'sindex' and out[-1].args[2].args[0] is p.args[0] and \
                    p.args[1] is iadd(out[-1].args[2], iconst(1)):
                out[-1] = mk('sremove', out[-1].args[2].args, 'S')  # all but the first that is equal
            else:
                out.append(p)
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    return mk('scat', tuple(out), 'S')


def ns(s):
    return s


def _enum_norm(s, l):
    """items of s taken by their index, in a function of the pairs (index, item) of s, are the second of the pair;
    the elements of s themselves when nothing is said of the index"""
    base, start = s.args
    if start is not iconst(0):
        return s, l
    x = fresh('x')
    body = inst(l, x)
    i = unboxi(item(x, 0))
    taken = {}

    def go(t):
        if t.uid in seen:
            return
        seen.add(t.uid)
        if t.op == 'snth' and t.args[1] is i and not occurs(x, t.args[0]) and ilen(t.args[0]) is ilen(base):
            taken.setdefault(t, t.args[0])
        for a in t.args:
            if isinstance(a, T) and (x in a.syms):
                go(a)
    seen = set()
    go(body)
    whole = base.args[0] if base.op == 'slice' and base.args[1] is None else base
    body2 = subst(body, {snth(base, i): item(x, 1), snth(whole, i): item(x, 1)})
    if not occurs(item(x, 0), body2):
        y = fresh('y')
        body3 = subst(body2, {item(x, 1): y})
        if not occurs(x, body3):
            return base, lam(y, body3)
    elif taken and not occurs(item(x, 1), body2):  # items of other sequences of that length
        y = fresh('y')
        one = len(taken) == 1
        body3 = subst(body, {t: y if one else item(y, n) for n, t in enumerate(taken)})
        if not occurs(x, body3):
            return (list(taken.values())[0] if one else szip(*taken.values())), lam(y, body3)
    return s, (l if body2 is body else lam(x, body2))


def srange(lo, hi):
    if lo is iconst(0) and hi.op == 'ilen':  # the positions in a sequence
        x = fresh('x')
        return flat(senum(hi.args[0]), lam(x, lit(boxi(unboxi(item(x, 0))))))
    return mk('srange', (lo, hi), 'S')


def flat(s, l):
    """concatenation of l(x) for x in s;  l: lam U -> S"""
    if s.op == 'enum':
        s, l = _enum_norm(s, l)
    elif s.op == 'sorted' and s.args[0].op == 'enum':
        b, key = _enum_norm(s.args[0], s.args[1])
        b2, l2 = _enum_norm(s.args[0], l)
        if b is b2 and b is not s.args[0]:  # neither the order nor what is made say anything of the index
            s, l = ssorted(b, key, s.args[2]), l2
    if s.op == 'lit':
        return scat(*[inst(l, a) for a in s.args])
    if s.op == 'scat':
        return scat(*[flat(p, l) for p in s.args])
    if s.op == 'ite':
        return Ite(s.args[0], flat(s.args[1], l), flat(s.args[2], l))
    if s.op == 'flat':
        b, l0 = s.args
        x = fresh('x')
        return flat(b, lam(x, flat(inst(l0, x), l)))
    body = l.args[1]
    if body.op == 'lit' and not body.args:
        return EMPTY
    if body.op == 'lit' and len(body.args) == 1 and body.args[0].op == 'bv' and body.args[0].args[0] == l.args[0]:
        return s
    if s.op in ('zip', 'enum', 'items') and body.op == 'lit' and len(body.args) == 1 and body.args[0].op == 'tup':
        x = fresh('x')  # the same tuples, built again
        n = len(s.args) if s.op == 'zip' else 2
        if inst(l, x).args[0] is tup(*[item(x, i) for i in range(n)]):
            return s
    return mk('flat', (s, l), 'S')


def smap(s, f):
    x = fresh('x')
    return flat(s, lam(x, lit(f(x))))


def sfilter(s, p):
    x = fresh('x')
    return flat(s, lam(x, Ite(p(x), lit(x), EMPTY)))


def distinct(s):
    """Syntactic guarantee that the elements of s are pairwise different"""
    if s.op in ('keys', 'dedup'):
        return True
    if s.op in ('setorder', 'sorted', 'rev', 'prefix', 'slice'):
        return distinct(s.args[0])
    if s.op == 'flat':
        x = fresh('x')
        r = _single(inst(s.args[1], x))
        return r is not None and r[1] is x and distinct(s.args[0])
    if s.op == 'scat':
        # later parts exclude what is in earlier ones: keys of updated mappings
        return all(_excludes(p, s.args[:i]) for i, p in enumerate(s.args))
    return False


def _excludes(p, earlier):
    x = fresh('x')
    if p.op == 'flat':
        r = _single(inst(p.args[1], x))
        if r is None or r[1] is not x or not distinct(p.args[0]):
            return False
        g = r[0]
    elif p.op == 'ite':
        r = _single(p)
        if r is None:
            return False
        g, x = r
    else:
        return not earlier and distinct(p)
    conj = g.args if g.op == 'and' else (g,)
    for e in earlier:
        out = Not(exists(e, lam_eq(x)))
        if not all(c in conj for c in (out.args if out.op == 'and' else (out,))):
            return False
    return True


def lam_eq(x):
    y = fresh('y')
    return lam(y, eq(y, x))


def ssorted(s, l, rev=None):
    """stable sort of s by key l"""
    rev = FALSE if rev is None else rev
    if s.op == 'enum':
        x = fresh('x')
        l = lam(x, subst(inst(l, x), {snth(s.args[0], unboxi(item(x, 0))): item(x, 1)})) if s.args[1] is iconst(0) else l
    if s.op == 'lit' and len(s.args) <= 1:
        return s
    if s.op == 'flat':
        b, l0 = s.args
        x = fresh('x')
        r = _single(inst(l0, x))
        if r is not None:
            g, e = r
            return flat(ssorted(b, lam(x, inst(l, e)), rev), l0)
    if s.op == 'sorted' and rev is FALSE and s.args[2] is FALSE and s.args[1] is l:
        return s
    # sorting distinct things by tuples starting by the thing itself
    x = fresh('x')
    k = inst(l, x)
    if k.op == 'tup' and k.args and k.args[0] is x and distinct(s):
        return ssorted(s, lam(x, x), rev)
    # sorting by a constant
    if s.op == 'rev' and distinct(s) and inst(l, x) is x:
        return ssorted(s.args[0], l, rev)
    if s.op in ('sorted', 'setorder') and distinct(s) and inst(l, x) is x:
        return ssorted(s.args[0], l, rev)
    return mk('sorted', (s, l, rev), 'S')


def setorder(s):
    """The elements of a set (s, without repetitions) in an arbitrary, fixed order"""
    if s.op == 'lit' and len(s.args) <= 1:
        return s
    if s.op == 'setorder':
        return s
    if _renamed(s):
        return flat(setorder(s.args[0]), s.args[1])
    return mk('setorder', (s,), 'S')


def _renamed(s):
    """a sequence in which each element is replaced by other(element): other is injective and, without loss of generality,
    sets of other elements are enumerated in the order of the set of the elements"""
    if s.op != 'flat':
        return False
    x = fresh('x')
    b = inst(s.args[1], x)
    return b.op == 'lit' and len(b.args) == 1 and b.args[0].op == 'app' and b.args[0].args[0] == 'other' and b.args[0].args[1] is x


def dedup(s):
    if distinct(s):
        return s
    if _renamed(s):
        return flat(dedup(s.args[0]), s.args[1])
    if s.op == 'lit' and len(s.args) <= 1:
        return s
    if s.op == 'flat':
        # filters of distinct sequences
        b, l = s.args
        if b.op == 'dedup':
            return dedup(flat(b.args[0], l))    # repeated elements only repeat what their first occurrence gives
        x = fresh('x')
        r = _single(inst(l, x))
        if r is not None and r[1] is x and distinct(b):
            return s
    return mk('dedup', (s,), 'S')


def szip(*ss):
    if all(s.op == 'lit' for s in ss):
        return lit(*[tup(*x) for x in zip(*[s.args for s in ss])])
    if any(s.op == 'lit' and not s.args for s in ss):
        return EMPTY
    # zip of maps (without filters) over the same sequence
    def split(s):
        if s.op == 'flat':
            b, l = s.args
            body = l.args[1]
            if body.op == 'lit' and len(body.args) == 1:
                return b, l
        return s, None
    sp = [split(s) for s in ss]
    if all(b is sp[0][0] for b, _ in sp) and sp[0][0].op != 'scat':
        x = fresh('x')
        return flat(sp[0][0], lam(x, lit(tup(*[x if l is None else inst(l, x).args[0] for _, l in sp]))))
    # pull maps out
    if any(l is not None for _, l in sp):
        x = fresh('x')
        base = szip(*[b for b, _ in sp])
        return flat(base, lam(x, lit(tup(*[item(x, i) if l is None else inst(l, item(x, i)).args[0]
                                           for i, (_, l) in enumerate(sp)]))))
    return mk('zip', tuple(ss), 'S')


def senum(s, start=None):
    start = iconst(0) if start is None else start
    if s.op == 'lit':
        return lit(*[tup(boxi(iadd(start, iconst(i))), a) for i, a in enumerate(s.args)])
    if s.op == 'flat':
        b, l = s.args
        body = l.args[1]
        if body.op == 'lit' and len(body.args) == 1:
            x = fresh('x')
            return flat(senum(b, start), lam(x, lit(tup(item(x, 0), inst(l, item(x, 1)).args[0]))))
    return mk('enum', (s, start), 'S')


def srev(s):
    if s.op == 'lit':
        return lit(*s.args[::-1])
    if s.op == 'rev':
        return s.args[0]
    if s.op == 'flat':
        x = fresh('x')
        if _single(inst(s.args[1], x)) is not None:
            return flat(srev(s.args[0]), s.args[1])
    return mk('rev', (s,), 'S')


def sslice(s, a, b):
    """s[a:b], a and b I terms (or None)"""
    if s.op == 'lit' and (a is None or a.op == 'iconst') and (b is None or b.op == 'iconst'):
        return lit(*s.args[(a.args[0] if a is not None else None):(b.args[0] if b is not None else None)])
    if a is not None and a.op == 'iconst' and a.args[0] == 0:
        a = None
    if b is not None and b.op == 'ilen' and b.args[0] is s:
        b = None
    if a is None and b is None:
        return s
    if a is None and b is not None and b.op == 'iconst' and b.args[0] == 0:
        return lit()
    if a is not None and a.op == 'ilen' and a.args[0] is s:
        return lit()
    if s.op == 'flat':
        body = s.args[1].args[1]
        if body.op == 'lit' and len(body.args) == 1:
            return flat(sslice(s.args[0], a, b), s.args[1])
    return mk('slice', (s, a, b), 'S')


def exists(s, l):
    """there is x in s with l(x): B"""
    if l.args[1] is FALSE:
        return FALSE
    if s.op == 'enum':
        s, l = _enum_norm(s, l)
    if s.op == 'lit':
        return Or(*[inst(l, a) for a in s.args])
    if s.op == 'scat':
        return Or(*[exists(p, l) for p in s.args])
    if s.op == 'ite':
        return Ite(s.args[0], exists(s.args[1], l), exists(s.args[2], l))
    if s.op == 'flat':
        b, l0 = s.args
        x = fresh('x')
        return exists(b, lam(x, exists(inst(l0, x), l)))
    if s.op in ('sorted', 'dedup', 'rev', 'setorder'):
        return exists(s.args[0], l)
    if s.op == 'keys' or s.op == 'sbase':
        # one-point rule on k == t
        x = fresh('x')
        body = inst(l, x)
        conj = body.args if body.op == 'and' else (body,)
        for c in conj:
            if c.op == 'eq' and x in c.args and s.op == 'keys':
                t = c.args[0] if c.args[1] is x else c.args[1]
                if not occurs(x, t):
                    rest = And(*[d for d in conj if d is not c])
                    return And(has(s.args[0], t), subst(rest, {x: t}))
    if s.op == 'before' and distinct(s.args[0]):
        x = fresh('x')
        body = inst(l, x)
        for c in (body.args if body.op == 'and' else (body,)):
            if c.op == 'eq' and x in c.args and s.args[1] in c.args:
                return FALSE
    # hoist conditions that do not depend on the element
    x = fresh('x')
    body = inst(l, x)
    conj = body.args if body.op == 'and' else (body,)
    out = [c for c in conj if not occurs(x, c)]
    if out and body is not TRUE:
        return And(*(out + [exists(s, lam(x, And(*[c for c in conj if c not in out])))]))
    if body.op == 'not' and body.args[0].op == 'and':
        ds = [Not(c) for c in body.args[0].args]
        return Or(*[exists(s, lam(x, d)) for d in ds])
    return mk('exists', (s, l), 'B')


def occurs(x, t):
    if x.op in ('sym', 'href'):
        return x in t.syms
    seen = set()

    def go(t):
        if t is x:
            return True
        if t.uid in seen:
            return False
        seen.add(t.uid)
        return any(isinstance(a, T) and go(a) for a in t.args)
    return go(t)


def nonempty(s):
    x = fresh('x')
    return exists(s, lam(x, TRUE))


def contains(s, v):
    x = fresh('x')
    return exists(s, lam(x, eq(x, v)))


def ilen(s):
    if s.op == 'lit':
        return iconst(len(s.args))
    if s.op == 'scat':
        r = iconst(0)
        for p in s.args:
            r = iadd(r, ilen(p))
        return r
    if s.op == 'ite':
        return Ite(s.args[0], ilen(s.args[1]), ilen(s.args[2]))
    if s.op == 'flat':
        body = s.args[1].args[1]
        if body.op == 'lit':
            n = ilen(s.args[0])
            if len(body.args) == 1:
                return n
    if s.op in ('sorted', 'rev', 'enum', 'setorder'):
        return ilen(s.args[0])
    if s.op == 'sbase' and is_const(s.args[0]) and isinstance(cval(s.args[0]), str):
        return iconst(len(cval(s.args[0])))
    if s.op == 'sbase' and s.args[0].op == 'cat':
        r, c = iconst(0), 0
        for p in s.args[0].args:
            if is_const(p):
                c += len(cval(p))
            else:
                r = iadd(r, ilen(sbase(p)))
        return iadd(r, iconst(c))
    return mk('ilen', (s,), 'I')


def snth(s, i):
    """i-th element (I term, may be negative constant), assuming in range"""
    if s.op == 'lit' and i.op == 'iconst' and -len(s.args) <= i.args[0] < len(s.args):
        return s.args[i.args[0]]
    if s.op == 'flat':
        body = s.args[1].args[1]
        if body.op == 'lit' and len(body.args) == 1:
            return inst(s.args[1], snth(s.args[0], i)).args[0]
    if s.op == 'enum':
        if i.op != 'iconst' or i.args[0] >= 0:
            return tup(boxi(iadd(s.args[1], i)), snth(s.args[0], i))
    if s.op == 'zip' and (i.op != 'iconst' or i.args[0] >= 0):
        return tup(*[snth(p, i) for p in s.args])
    if i.op == 'unboxi' and i.args[0].op == 'item' and i.args[0].args[1] == 0 and i.args[0].args[0].op == 'first' and \
            i.args[0].args[0].args[0].op == 'enum':
        base, l = _enum_norm(*i.args[0].args[0].args)  # the item at the first position that...
        if base is s:
            return sfirst(s, l)
    return mk('snth', (s, i), 'U')


def sfirst(s, l):
    if s.op == 'flat':
        x = fresh('x')
        r = _single(inst(s.args[1], x))
        if r is not None:
            y = mk('first', (s.args[0], lam(x, And(r[0], inst(l, r[1])))), 'U')
            return subst(r[1], {x: y})
    return mk('first', (s, l), 'U')


# ---- printing

def show(t, depth=0):
    if not isinstance(t, T):
        return repr(t)
    if depth > 12:
        return '...'
    r = lambda a: show(a, depth + 1)
    op, a = t.op, t.args
    if op == 'const':
        return repr(a[0].v)
    if op == 'iconst':
        return str(a[0])
    if op == 'sym':
        return str(a[0])
    if op == 'bv':
        return '#%d' % a[0]
    if op in ('boxb', 'boxi'):
        return r(a[0])
    if op in ('true', 'false'):
        return op
    if op == 'not':
        return '!' + r(a[0])
    if op == 'and':
        return '(' + ' & '.join(map(r, a)) + ')'
    if op == 'eq' or op == 'ieq':
        return '%s==%s' % (r(a[0]), r(a[1]))
    if op == 'lam':
        return '\\%d.%s' % (a[0], r(a[1]))
    if op == 'app' or op == 'pred':
        return '%s(%s)' % (a[0], ', '.join(map(r, a[1:])))
    if op == 'tup':
        return '(%s)' % ', '.join(map(r, a))
    if op == 'lit':
        return '[%s]' % ', '.join(map(r, a))
    if op == 'ite':
        return '(%s ? %s : %s)' % (r(a[0]), r(a[1]), r(a[2]))
    if op == 'cat':
        return '+'.join(map(r, a))
    if op == 'href':
        return 'ref<%s>' % (a[0],)
    return '%s(%s)' % (op, ', '.join(map(r, a)))
