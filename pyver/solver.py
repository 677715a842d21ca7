"""Discharges ground verification conditions with Z3 (EUF + LIA); quantifiers (exists over sequences, invariants over
dictionaries) are instantiated here, on the ground terms of the problem. cvc5 is a second opinion for unknowns."""
import itertools
import time
import z3

from .terms import *
from . import terms as tm

UU = z3.DeclareSort('U')
SS = z3.DeclareSort('S')
DD = z3.DeclareSort('D')
LL = z3.DeclareSort('L')
SORTS = {'U': UU, 'S': SS, 'D': DD, 'L': LL, 'I': z3.IntSort(), 'B': z3.BoolSort()}

KINDS = ['none', 'bool', 'int', 'float', 'str', 'bytes', 'tuple', 'list', 'dict', 'set', 'frozenset', 'obj', 'func',
         'class', 'complex', 'module', 'builtin', 'partial', 'property', 'exc', 'other']
KINDNO = {k: i for i, k in enumerate(KINDS)}

# python classes that determine the memory layout (so instances cannot be of two of these)
ISINST_KIND = {'NoneType': ['none'], 'bool': ['bool'], 'int': ['bool', 'int'], 'float': ['float'], 'str': ['str'],
               'bytes': ['bytes'], 'tuple': ['tuple'], 'list': ['list'], 'dict': ['dict'], 'OrderedDict': ['dict'],
               'set': ['set'], 'frozenset': ['frozenset'], 'complex': ['complex'], 'property': ['property'],
               'partial': ['partial'], 'type': ['class'], 'function': ['func'], 'What': ['obj'],
               'builtin': ['builtin'], 'module': ['module'], 'BaseException': ['exc']}
ITERABLE_KINDS = ['str', 'bytes', 'tuple', 'list', 'dict', 'set', 'frozenset']
NOT_ITERABLE_KINDS = ['none', 'bool', 'int', 'float', 'complex', 'func', 'builtin', 'module', 'property']

SUBCLASS = {  # ground axioms: subclass -> superclasses
    'bool': ['int'], 'OrderedDict': ['dict'],
    'ValueError': ['Exception'], 'UnicodeError': ['ValueError'], 'TypeError': ['Exception'],
    'AttributeError': ['Exception'], 'LookupError': ['Exception'], 'KeyError': ['LookupError'],
    'IndexError': ['LookupError'], 'ImportError': ['Exception'], 'NoMatch': ['Exception'],
    'ModuleNotFoundError': ['ImportError'], 'Exception': ['BaseException'], 'StopIteration': ['Exception'],
    'AssertionError': ['Exception'], 'RuntimeError': ['Exception'], 'NotImplementedError': ['RuntimeError'],
    'PicklingError': ['Exception'], 'KeyboardInterrupt': ['BaseException'],
}


def superclasses(c):
    out, todo = [], [c]
    while todo:
        k = todo.pop()
        for s in SUBCLASS.get(k, ()):
            if s not in out:
                out.append(s)
                todo.append(s)
    return out


STATS = {'queries': 0, 'time': 0.0, 'unknown': 0, 'cvc5': 0}
RESOLVE_HREF = [None]   # set by the interpreter: href term -> frozen term
TIMEOUT_MS = [10000]
LIGHT_ROUNDS = [1]
ROUNDS = [4]
MAXTERMS = [6000]


class Problem(object):
    def __init__(self):
        self.cache = {}
        self.axioms = []
        self.terms = []
        self.consts = []
        self.funs = {}
        self.exists_terms = []
        self.seen_pairs = set()
        self.cands = {}       # seq uid -> {uid: term}
        self.seqs = {}
        self.firsts = []
        self.isinst_terms = []
        self.opaque_groups = {}
        self.lens = []
        self.eqs = []
        self.haskeys = {}
        self.tups = []

    def fun(self, name, *sorts):
        key = (name,) + tuple(s.name() for s in sorts)
        f = self.funs.get(key)
        if f is None:
            f = self.funs[key] = z3.Function('|%s|' % '/'.join(map(str, key)).replace('|', '_').replace('\\', '_'), *sorts)
        return f

    def kind(self, z):
        return self.fun('kind', UU, z3.IntSort())(z)

    def ax(self, b):
        self.axioms.append(b)

    def enc(self, t):
        r = self.cache.get(t.uid)
        if r is None:
            if len(self.cache) > 200000:
                raise MemoryError('too many terms')
            r = self._enc(t)
            self.cache[t.uid] = r
            if t.sort == 'U' and not t.hasbv:
                self._after_u(t, r)
        return r

    def _generic(self, name, args, sort):
        zargs = [self.enc(a) for a in args]
        return self.fun(name, *([z.sort() for z in zargs] + [SORTS[sort]]))(*zargs) if zargs else \
            z3.Const('|%s|' % name.replace('|', '_').replace('\\', '_'), SORTS[sort])

    def _enc(self, t):
        op, a = t.op, t.args
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op == 'not':
            return z3.Not(self.enc(a[0]))
        if op == 'and':
            return z3.And(*[self.enc(x) for x in a])
        if op == 'iff':
            return self.enc(a[0]) == self.enc(a[1])
        if op == 'ite':
            return z3.If(self.enc(a[0]), self.enc(a[1]), self.enc(a[2]))
        if op == 'iconst':
            return z3.IntVal(a[0])
        if op == 'iadd':
            return self.enc(a[0]) + self.enc(a[1])
        if op == 'ineg':
            return -self.enc(a[0])
        if op == 'ile':
            return self.enc(a[0]) <= self.enc(a[1])
        if op == 'ieq':
            return self.enc(a[0]) == self.enc(a[1])
        if op == 'sym':
            return z3.Const('|%s:%s|' % (a[0], t.sort), SORTS[t.sort])
        if op == 'bv':
            return z3.Const('|bv%d:%s|' % (a[0], t.sort), SORTS[t.sort])
        if op == 'lam':
            return z3.Const('|lam%d|' % t.uid, LL)
        if op == 'href':
            return self.enc(RESOLVE_HREF[0](t))
        if op == 'const':
            z = z3.Const('|c:%s:%s|' % (t.ty, repr(a[0].v).encode('unicode_escape').decode().replace('|', '_')), UU)
            for c, cz in self.consts:
                self.ax(cz != z)
            self.consts.append((t, z))
            return z
        if op == 'boxi':
            i = self.enc(a[0])
            z = self.fun('boxi', z3.IntSort(), UU)(i)
            self.ax(self.fun('unboxi', UU, z3.IntSort())(z) == i)
            return z
        if op == 'boxb':
            b = self.enc(a[0])
            z = self.fun('boxb', z3.BoolSort(), UU)(b)
            self.ax(self.fun('unboxb', UU, z3.BoolSort())(z) == b)
            return z
        if op == 'unboxi':
            return self.fun('unboxi', UU, z3.IntSort())(self.enc(a[0]))
        if op == 'truthy':
            u = self.enc(a[0])
            z = self.fun('truthy', UU, z3.BoolSort())(u)
            k = self.kind(u)
            self.ax(z3.Implies(k == KINDNO['none'], z3.Not(z)))
            self.ax(z3.Implies(k == KINDNO['str'], z == (u != self.enc(const('')))))
            self.ax(z3.Implies(k == KINDNO['bool'], z == self.fun('unboxb', UU, z3.BoolSort())(u)))
            self.ax(z3.Implies(k == KINDNO['int'], z == (self.fun('unboxi', UU, z3.IntSort())(u) != 0)))
            if not t.hasbv:
                ne = self.enc(nonempty(sbase(a[0])))
                self.ax(z3.Implies(z3.Or([k == KINDNO[c] for c in ('tuple', 'list', 'set', 'frozenset')]), z == ne))
                ne = self.enc(nonempty(keys(dbase(a[0]))))
                self.ax(z3.Implies(k == KINDNO['dict'], z == ne))
                for c in ('func', 'class', 'module', 'builtin'):
                    self.ax(z3.Implies(k == KINDNO[c], z))
            return z
        if op == 'eq':
            x, y = a
            zx, zy = self.enc(x), self.enc(y)
            if x.ty in ('str', 'none', 'class') or y.ty in ('str', 'none', 'class'):
                return zx == zy
            z = self.fun('pyeq', UU, UU, z3.BoolSort())(zx, zy)
            self.ax(z3.Implies(zx == zy, z))
            self.ax(self.fun('pyeq', UU, UU, z3.BoolSort())(zy, zx) == z)
            kx, ky = self.kind(zx), self.kind(zy)
            for k in ('str', 'none', 'bytes', 'bool'):
                if k == 'bool':
                    self.ax(z3.Implies(z3.And(kx == KINDNO[k], ky == KINDNO[k]), z == (zx == zy)))
                else:
                    self.ax(z3.Implies(z3.Or(kx == KINDNO[k], ky == KINDNO[k]), z == (zx == zy)))
            ui = self.fun('unboxi', UU, z3.IntSort())
            self.ax(z3.Implies(z3.And(kx == KINDNO['int'], ky == KINDNO['int']), z == (ui(zx) == ui(zy))))
            self.eqs.append(t)
            return z
        if op == 'app':
            z = self._generic('app:' + '/'.join(x if isinstance(x, str) else '' for x in a),
                              [x for x in a if isinstance(x, T)], 'U')
            return z
        if op == 'pred':
            name = a[0]
            z = self._generic('pred:' + name, [x for x in a[1:] if isinstance(x, T)], 'B')
            if not t.hasbv:
                self._after_pred(t, z)
            return z
        if op == 'tup':
            zs = [self.enc(x) for x in a]
            z = self.fun('tup%d' % len(zs), *([UU] * (len(zs) + 1)))(*zs) if zs else z3.Const('emptytuple', UU)
            for i, x in enumerate(zs):
                self.ax(self.fun('item%d' % i, UU, UU)(z) == x)
            self.ax(self.fun('tlen', UU, z3.IntSort())(z) == len(zs))
            return z
        if op == 'item':
            i = a[1]
            return self.fun('item%d' % i if i >= 0 else 'itemneg%d' % -i, UU, UU)(self.enc(a[0]))
        if op == 'has':
            z = self._generic('has', a, 'B')
            self._cand(keys(a[0]), a[1], t)
            return z
        if op == 'dget':
            z = self._generic('dget', a, 'U')
            self._cand(keys(a[0]), a[1], t)
            return z
        if op == 'exists':
            z = z3.Const('|exists%d|' % t.uid, z3.BoolSort()) if not t.hasbv else self._generic('exists', a, 'B')
            if not t.hasbv:
                self.exists_terms.append((t, z))
            return z
        if op == 'ilen':
            z = self._generic('ilen', a, 'I')
            self.ax(z >= 0)
            if not t.hasbv:
                self.ax((z > 0) == self.enc(nonempty(a[0])))
                if a[0].op == 'slice' and a[0].args[1] is None and a[0].args[2] is not None:
                    n, k = self.enc(ilen(a[0].args[0])), self.enc(a[0].args[2])
                    self.ax(z3.And(z <= n, z3.Implies(z3.And(k >= 0, k <= n), z == k)))
            return z
        if op == 'first':
            z = self._generic('first', a, 'U')
            self.cache[t.uid] = z
            if not t.hasbv:
                self.opaque_groups.setdefault(('first', a[0].uid), []).append((t, z))
                self._cand(a[0], t, t)
                # if there is one, it is a member that satisfies
                e = self.enc(exists(a[0], a[1]))
                self.ax(z3.Implies(e, z3.And(self.mem(a[0], t), self.enc(inst(a[1], t)))))
            return z
        if op == 'new':
            z = self._generic('new:' + str(a[0]) + ':' + ','.join(a[1]), a[2:], 'U')
            return z
        if op == 'cat' and len(a) == 1:
            return self.enc(a[0])
        # everything else is opaque modulo congruence
        name = op + ':' + ','.join(str(x) for x in a if not isinstance(x, T))
        z = self._generic(name, [x for x in a if isinstance(x, T)], t.sort)
        if not t.hasbv and op in ('prefix', 'flat', 'sorted', 'dcomp') and a[0].sort in 'SD':
            self.opaque_groups.setdefault((op, a[0].uid), []).append((t, z))
        if not t.hasbv and op in ('seqv', 'dictv', 'join', 'new'):
            self.opaque_groups.setdefault((op,), []).append((t, z))
        return z

    def _after_u(self, t, z):
        if t.ty:
            ks = {'none': ['none'], 'obj': ['obj']}.get(t.ty, [t.ty] if t.ty in KINDNO else None)
            if ks and t.op != 'ite':
                self.ax(z3.Or([self.kind(z) == KINDNO[k] for k in ks]))
            if t.ty == 'none' and t is not NONE:
                self.ax(z == self.enc(NONE))
        k = self.kind(z)
        self.ax(z3.And(k >= 0, k < len(KINDS)))
        if t is not NONE:
            self.ax((k == KINDNO['none']) == (z == self.enc(NONE)))
        # coherence of boxed values
        if t.op not in ('boxi', 'boxb', 'const', 'cat', 'join', 'tup', 'seqv', 'dictv', 'new') and not t.ty:
            self.ax(z3.Implies(k == KINDNO['int'], z == self.fun('boxi', z3.IntSort(), UU)(
                self.fun('unboxi', UU, z3.IntSort())(z))))
            self.ax(z3.Implies(k == KINDNO['bool'], z == self.fun('boxb', z3.BoolSort(), UU)(
                self.fun('unboxb', UU, z3.BoolSort())(z))))
        if t.op == 'new':
            self.ax(self.kind(z) == KINDNO['obj'])

    def _after_pred(self, t, z):
        name = t.args[0]
        if name.startswith('isinst:'):
            c = name[7:]
            x = t.args[1]
            zx = self.enc(x)
            k = self.kind(zx)
            ks = ISINST_KIND.get(c)
            if ks is not None:
                anyk = z3.Or([k == KINDNO[q] for q in ks])
                if c in ('OrderedDict', 'What', 'partial', 'property', 'module', 'BaseException'):
                    self.ax(z3.Implies(z, anyk))
                else:
                    self.ax(z == anyk)
            elif c in SUBCLASS:
                self.ax(z3.Implies(z, k == KINDNO['exc']))
            for s in superclasses(c):
                self.ax(z3.Implies(z, self.enc(pred('isinst:' + s, x))))
        elif name.startswith('exact:'):
            c = name[6:]
            x = t.args[1]
            self.ax(z3.Implies(z, self.enc(pred('isinst:' + c, x))))
            f = self.fun('typeof', UU, UU)
            self.ax(z == (f(self.enc(x)) == self.enc(app('class:' + c, ty='class'))))
            if c == 'int':
                self.ax(z3.Implies(z, self.kind(self.enc(x)) == KINDNO['int']))
            if c in ('NoneType', 'bool'):
                self.ax(z == self.enc(pred('isinst:' + c, x)))
            for other in ('dict', 'OrderedDict', 'list', 'tuple', 'set', 'frozenset', 'str', 'int', 'bool', 'float'):
                if other != c:
                    self.ax(self.enc(app('class:' + c, ty='class')) != self.enc(app('class:' + other, ty='class')))
            if c == 'dict':
                self.ax(z3.Implies(z, z3.Not(self.enc(pred('isinst:OrderedDict', x)))))
        elif name == 'iterable':
            k = self.kind(self.enc(t.args[1]))
            self.ax(z3.Implies(z3.Or([k == KINDNO[q] for q in ITERABLE_KINDS]), z))
            self.ax(z3.Implies(z3.Or([k == KINDNO[q] for q in NOT_ITERABLE_KINDS]), z3.Not(z)))
        elif name == 'hashable':
            k = self.kind(self.enc(t.args[1]))
            self.ax(z3.Implies(z3.Or([k == KINDNO[q] for q in ('str', 'none', 'int', 'bool', 'float', 'bytes')]), z))
            self.ax(z3.Implies(z3.Or([k == KINDNO[q] for q in ('list', 'dict', 'set')]), z3.Not(z)))
        elif name == 'mem':
            self._cand(t.args[1], t.args[2], t)
        elif name == 'callable':
            k = self.kind(self.enc(t.args[1]))
            self.ax(z3.Implies(z3.Or([k == KINDNO[q] for q in ('func', 'class', 'builtin', 'partial')]), z))
            self.ax(z3.Implies(z3.Or([k == KINDNO[q] for q in ('none', 'bool', 'int', 'float', 'str', 'bytes', 'tuple',
                                                               'list', 'dict', 'set', 'frozenset')]), z3.Not(z)))

    # ---- sequences: membership and quantifiers

    def mem(self, s, m):
        """z3 formula: m is an element of s"""
        if s.op == 'keys':
            return self.enc(has(s.args[0], m))
        if s.op in ('sorted', 'dedup', 'rev', 'setorder'):
            return self.mem(s.args[0], m)
        if s.op == 'lit':
            return z3.Or([self.enc(m) == self.enc(x) for x in s.args])
        z = self._generic('pred:mem', [s, m], 'B')
        key = ('mem', s.uid, m.uid)
        if key not in self.seen_pairs:
            self.seen_pairs.add(key)
            self._cand(s, m, m)
            if s.op == 'prefix':
                self.ax(z3.Implies(z, z3.And(self.mem(s.args[0], m), z3.Not(self.enc(inst(s.args[1], m))))))
                self._cand(s.args[0], m, m)
            elif s.op in ('slice', 'before', 'foldprefix'):
                src = s.args[-1] if s.op == 'foldprefix' else s.args[0]
                self.ax(z3.Implies(z, self.mem(src, m)))
                self._cand(src, m, m)
            elif s.op == 'sbase':
                self.ax(z3.Implies(z3.And(z, self.enc(ieq(ilen(s), iconst(1)))), self.enc(m) == self.enc(snth(s, iconst(0)))))
            elif s.op == 'srange' and len(s.args) <= 2:
                lo, hi = (iconst(0),) * (2 - len(s.args)) + tuple(s.args)
                i = unboxi(m)
                self.ax(z3.Implies(z, self.enc(And(same(m, boxi(i)), ile(lo, i), ilt(i, hi)))))
            elif s.op == 'zip':
                n = len(s.args)
                self.ax(z3.Implies(z, self.enc(m) == self.enc(tup(*[item(m, i) for i in range(n)]))))
                for i, p in enumerate(s.args):
                    self.ax(z3.Implies(z, self.mem(p, item(m, i))))
                    self._cand(p, item(m, i), m)
            elif s.op == 'enum':
                self.ax(z3.Implies(z, self.enc(m) == self.enc(tup(item(m, 0), item(m, 1)))))
                self.ax(z3.Implies(z, self.mem(s.args[0], item(m, 1))))
                self._cand(s.args[0], item(m, 1), m)
                i, start = unboxi(item(m, 0)), s.args[1]
                start = start if isinstance(start, T) else iconst(start)
                off = iadd(i, ineg(start))
                self.ax(z3.Implies(z, self.enc(And(same(item(m, 0), boxi(i)), ile(start, i), ilt(off, ilen(s.args[0])),
                                                   same(snth(s.args[0], off), item(m, 1))))))
        return z

    def _cand(self, s, m, origin):
        while s.op in ('sorted', 'dedup', 'rev', 'setorder'):
            s = s.args[0]
        if m.hasbv or s.hasbv:
            return
        self.cands.setdefault(s.uid, {})[m.uid] = m
        self.seqs[s.uid] = s

    def saturate(self, rounds):
        for rnd in range(rounds):
            n0 = len(self.axioms)
            for t, z in list(self.exists_terms):
                s, l = t.args
                key = ('sk', t.uid)
                if key not in self.seen_pairs:
                    self.seen_pairs.add(key)
                    sk = sym('sk!%d' % t.uid)
                    self.ax(z3.Implies(z, z3.And(self.mem(s, sk), self.enc(inst(l, sk)))))
                    self._cand(s, sk, t)
                for m in list(self.cands.get(s.uid, {}).values()):
                    key = ('inst', t.uid, m.uid)
                    if key not in self.seen_pairs:
                        self.seen_pairs.add(key)
                        self.ax(z3.Implies(z3.And(self.mem(s, m), self.enc(inst(l, m))), z))
            for key, group in list(self.opaque_groups.items()):
                if len(key) == 2 and len(group) > 1 and key[0] in ('first', 'prefix', 'flat', 'sorted', 'dcomp'):
                    for (t1, z1), (t2, z2) in itertools.combinations(group, 2):
                        k2 = ('pair', t1.uid, t2.uid)
                        if k2 in self.seen_pairs:
                            continue
                        self.seen_pairs.add(k2)
                        if key[0] == 'sorted' and t1.args[2] is not t2.args[2]:
                            continue
                        x = fresh('pw')
                        b1, b2 = inst(t1.args[1], x), inst(t2.args[1], x)
                        base = t1.args[0] if t1.args[0].sort == 'S' else keys(t1.args[0])
                        if b1.sort == 'B':
                            d = Not(Iff(b1, b2))
                        elif b1.sort == 'U':
                            d = Not(same(b1, b2))
                        else:
                            d = Not(same(b1, b2))
                        self.ax(z3.Implies(z3.Not(self.enc(exists(base, lam(x, d)))), z1 == z2))
            if len(self.axioms) == n0:
                break
            if len(self.cache) > MAXTERMS[0]:
                break


def same(a, b):
    """identity of terms (not python ==)"""
    if a is b:
        return TRUE
    if a.op == 'ite':
        return Or(And(a.args[0], same(a.args[1], b)), And(Not(a.args[0]), same(a.args[2], b)))
    if b.op == 'ite':
        return same(b, a)
    if a.op == 'tup' and b.op == 'tup' and len(a.args) == len(b.args):
        return And(*[same(x, y) for x, y in zip(a.args, b.args)])
    if a.op == 'lit' and b.op == 'lit':
        if len(a.args) != len(b.args):
            return FALSE
        return And(*[same(x, y) for x, y in zip(a.args, b.args)])
    if is_const(a) and is_const(b) and a.sort == 'U':
        return FALSE
    if a.op == 'boxb' and b.op == 'boxb':
        return Iff(a.args[0], b.args[0])
    if a.op == 'boxi' and b.op == 'boxi':
        return ieq(a.args[0], b.args[0])
    if a.op in ('cat',) and b.op == 'cat' and len(a.args) == len(b.args):
        # sufficient only when all the pieces match; keep as opaque otherwise
        pass
    if a.uid > b.uid:
        a, b = b, a
    return mk('same', (a, b), 'B')


# "same" is encoded as z3 equality
_old = Problem._enc


def _enc(self, t):
    if t.op == 'same':
        return self.enc(t.args[0]) == self.enc(t.args[1])
    if t.op == 'mem':
        return self.mem(t.args[0], t.args[1])
    return _old(self, t)


Problem._enc = _enc

_RESULTS = {}


def check(assumptions, want_model=False, light=False):
    """'sat' | 'unsat' | 'unknown' for the conjunction"""
    fs = []
    for a in assumptions:
        if a is TRUE:
            continue
        if a is FALSE:
            return ('unsat', None) if want_model else 'unsat'
        fs.append(a)
    key = frozenset(f.uid for f in fs)
    if not want_model and key in _RESULTS:
        return _RESULTS[key]
    if light and ('light', key) in _RESULTS:
        return _RESULTS['light', key]
    t0 = time.time()
    STATS['queries'] += 1
    p = Problem()
    zs = [p.enc(f) for f in fs]
    p.saturate(LIGHT_ROUNDS[0] if light else ROUNDS[0])
    s = z3.SolverFor('QF_UFLIA') if False else z3.Solver()
    s.set('timeout', TIMEOUT_MS[0])
    for z in zs:
        s.add(z)
    for z in p.axioms:
        s.add(z)
    r = str(s.check())
    if r == 'unknown' and not light:
        r = _cvc5(s)
    STATS['time'] += time.time() - t0
    if r == 'unknown':
        STATS['unknown'] += 1
    if light and r != 'unsat':
        _RESULTS['light', key] = r
    else:
        _RESULTS[key] = r
    if want_model:
        m = None
        if r == 'sat':
            try:
                m = s.model()
            except z3.Z3Exception:
                m = None
        return r, (m, p, s)
    return r


def _cvc5(s):
    import subprocess, tempfile, os
    STATS['cvc5'] += 1
    txt = '(set-logic ALL)\n' + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    try:
        out = subprocess.run(['cvc5', '--tlimit=%d' % TIMEOUT_MS[0], f.name], capture_output=True, text=True,
                             timeout=TIMEOUT_MS[0] / 1000. + 5).stdout.strip().splitlines()
        return out[0] if out and out[0] in ('sat', 'unsat') else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        os.unlink(f.name)
