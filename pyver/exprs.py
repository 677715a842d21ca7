"""Expressions, attribute access and operators"""
import ast
import functools

from .terms import *
from . import solver
from .solver import same, check
from .interp import *
from . import interp as ip


def _a_function():
    pass


def atoms(b):
    """atomic formulas of b"""
    out = []

    def go(b):
        if b.op in ('not', 'and', 'iff') or b.op == 'ite' and b.sort == 'B':
            for a in b.args:
                go(a)
        else:
            out.append(b)
    go(b)
    return out


def subterms(t):
    seen = set()

    def go(t):
        if t not in seen:
            seen.add(t)
            for a in t.args:
                if isinstance(a, T):
                    go(a)
    go(t)
    return seen


# of external functions without a model
SIGNATURES = {'arpeggio.visit_parse_tree': ('parse_tree', 'visitor')}


def cat_slice(o, a, b):
    """text[a:b] when both ends fall in constant parts of the text"""
    parts = list(o.args) if o.op == 'cat' else [o]
    if len(parts) < 2:
        return None
    if b is not None and b.op == 'iadd':  # from the end, when it is not beyond the start
        (n, least), (m, c) = [(t.args[0], t.args[1].args[0]) if t.op == 'iadd' and t.args[1].op == 'iconst' else (t, 0)
                              for t in (ilen(sbase(o)), b)]
        if n is m and c <= least:
            if c == least:
                b = None
            elif c >= 0:
                b = iconst(c - least)
    first, last = parts[0], parts[-1]
    if all(x is None or x.op == 'iconst' and x.args[0] >= 0 for x in (a, b)) and b is not None and is_const(first) and \
            b.args[0] <= len(cval(first)):
        return const(cval(first)[0 if a is None else a.args[0]:b.args[0]])
    if all(x is None or x.op == 'iconst' and x.args[0] < 0 for x in (a, b)) and a is not None and is_const(last) and \
            -a.args[0] <= len(cval(last)):
        return const(cval(last)[a.args[0]:None if b is None else b.args[0]])
    if a is not None and a.op != 'iconst' or b is not None and b.op != 'iconst':
        return None
    lo, hi = 0 if a is None else a.args[0], 0 if b is None else b.args[0]
    if lo < 0 or hi > 0 or b is not None and hi == 0:
        return None
    if lo and not (is_const(first) and lo <= len(cval(first))) or hi and not (is_const(last) and -hi <= len(cval(last))):
        return None
    if lo:
        parts[0] = const(cval(first)[lo:])
    if hi:
        parts[-1] = const(cval(last)[:hi])
    parts = [p for p in parts if not (is_const(p) and cval(p) == '')]
    return cat(*parts) if parts else const('')


class Exprs(object):
    marker = None


    def eval_cond(self, e, env):
        """Evaluates an expression in boolean context, as a formula"""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            for i, v in enumerate(e.values):
                b = self.eval_cond(v, env)
                last = i == len(e.values) - 1
                if last:
                    return b
                d = self.branch(b)
                if isand and not d:
                    return FALSE
                if not isand and d:
                    return TRUE
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return Not(self.eval_cond(e.operand, env))
        return self.formula(self.eval(e, env))

    def eval(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        if isinstance(e.value, (str, bool, int, float, bytes, type(None))):
            return const(e.value)
        if e.value is Ellipsis:
            return app('ellipsis')
        raise Unsupported('constant %r' % (e.value,))

    def e_Name(self, e, env):
        return self.lookup(e.id, env)

    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        for i, v in enumerate(e.values):
            x = self.eval(v, env)
            if i == len(e.values) - 1:
                return x
            d = self.branch(self.formula(x))
            if isand and not d:
                return x
            if not isand and d:
                return x

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            return Not(self.formula(v))
        if isinstance(e.op, ast.USub):
            if isinstance(v, T) and is_const(v) and not isinstance(cval(v), (str, type(None))):
                return const(-cval(v))
            i = self.toint(v)
            return boxi(ineg(i))
        raise Unsupported('unary operator')

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.eval(e.left, env), self.eval(e.right, env))

    def e_IfExp(self, e, env):
        return self.eval(e.body if self.branch(self.eval_cond(e.test, env)) else e.orelse, env)

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Lambda(self, e, env):
        outer = env.func.qualname if env.func is not None else ''
        return self.make_function(e, env, '<lambda>')

    def e_Tuple(self, e, env):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return seqv('tuple', scat(*[self.seq(self.eval(x.value, env)) if isinstance(x, ast.Starred) else
                                        lit(self.tou(self.eval(x, env))) for x in e.elts]))
        return tup(*[self.tou(self.eval(x, env)) for x in e.elts])

    def _elts(self, e, env):
        return scat(*[self.seq(self.eval(x.value, env)) if isinstance(x, ast.Starred) else
                      lit(self.tou(self.eval(x, env))) for x in e.elts])

    def e_List(self, e, env):
        return HList(self, node=self._elts(e, env))

    def e_Set(self, e, env):
        return HSet(self, node=self._elts(e, env))

    def e_Dict(self, e, env):
        d = DEMPTY
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = merge(d, self.dnode(self.eval(v, env)))
            else:
                kk = self.eval(k, env)
                d = upd(d, self.keyt(kk), self.tou(self.eval(v, env)))
        return HDict(self, node=d, cls='dict')

    def keyt(self, k):
        t = self.tou(k)
        return self.freeze(k) if t.hrefs else t

    # comprehensions are loops that accumulate

    def _comp(self, gens, env, emit, first_iter=None):
        env2 = Env(parent=env, module=env.module, func=env.func)
        if first_iter is None:
            first_iter = self.eval(gens[0].iter, env)

        def level(i, s):
            g = gens[i]

            def body(v):
                self.assign(g.target, v, env2)
                for c in g.ifs:
                    if not self.branch(self.eval_cond(c, env2)):
                        return
                if i + 1 < len(gens):
                    if level(i + 1, self.eval(gens[i + 1].iter, env2)):
                        raise Brk()
                else:
                    emit(env2)
            return self.iterate(s, body)
        return level(0, first_iter)

    def e_ListComp(self, e, env):
        out = HList(self, node=EMPTY)
        self._comp(e.generators, env, lambda env2: self.setnode(
            out, scat(out.f['node'], lit(self.tou(self.eval(e.elt, env2))))))
        return out

    def e_GeneratorExp(self, e, env):
        first_iter = self.eval(e.generators[0].iter, env)
        again = self.again(first_iter)
        return self.lazily(HIter(self, node=EMPTY), lambda body: self._comp(
            e.generators, env, lambda env2: body(self.eval(e.elt, env2)), again()))

    def e_SetComp(self, e, env):
        out = HSet(self, node=EMPTY)
        self._comp(e.generators, env, lambda env2: self.setnode(
            out, scat(out.f['node'], lit(self.keyt(self.eval(e.elt, env2))))))
        return out

    def e_DictComp(self, e, env):
        out = HDict(self, node=DEMPTY, cls='dict')

        def emit(env2):
            k = self.keyt(self.eval(e.key, env2))
            v = self.tou(self.eval(e.value, env2))
            self.setnode(out, upd(out.f['node'], k, v))
        self._comp(e.generators, env, emit)
        return out

    def e_JoinedStr(self, e, env):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(const(p.value))
            else:
                v = self.eval(p.value, env)
                if p.format_spec is not None:
                    parts.append(app('format', self.arg(v), self.arg(self.eval(p.format_spec, env)), ty='str'))
                elif p.conversion == 114:
                    parts.append(self.repr_(v))
                else:
                    parts.append(self.str_(v))
        return cat(*parts)

    def e_Starred(self, e, env):
        raise Unsupported('starred')

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        if isinstance(e.slice, ast.Slice):
            sl = e.slice
            parts = [None if p is None else self.toint(self.eval(p, env)) for p in (sl.lower, sl.upper, sl.step)]
            return self.slice_(o, *parts)
        return self.getitem(o, self.eval(e.slice, env))

    def e_Slice(self, e, env):
        raise Unsupported('slice object')

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = TRUE
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            b = self.compare(op, left, right)
            if len(e.ops) == 1:
                return b
            if not self.branch(b):
                return FALSE
            left = right
        return TRUE

    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            return self.super_(env)
        f = self.eval(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                s = self.seq(self.eval(a.value, env))
                if s.op == 'lit':
                    args += [self.thaw(t) for t in s.args]
                else:
                    args.append(('*', s))
            else:
                args.append(self.eval(a, env))
        kwargs, kwd = {}, None
        for k in e.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                d = self.dnode(v)
                flatd = self.const_keys(d)
                if flatd is not None and kwd is None:
                    for kk, vv in flatd:
                        kwargs[kk] = self.thaw(vv)
                else:
                    kwd = d if kwd is None else merge(kwd, d)
            else:
                kwargs[k.arg] = v
        return self.call(f, args, kwargs, kwd, env)

    def const_keys(self, d):
        out = []
        while d.op == 'upd':
            if not is_const(d.args[1]):
                return None
            out.append((cval(d.args[1]), d.args[2]))
            d = d.args[0]
        if d.op != 'dempty':
            return None
        res = {}
        for k, v in reversed(out):
            res[k] = v
        return list(res.items())

    def super_(self, env):
        e = env
        while e is not None and (e.func is None or e.func.owner is None):
            e = e.parent
        if e is None:
            raise Unsupported('super')
        a = e.func.node.args.args
        return SuperV(e.func.owner, e.vars[a[0].arg])

    # ---------------------------------------------------------------- calls

    def call(self, f, args, kwargs, kwd=None, env=None):
        if isinstance(f, T):
            f = self.thaw(f)
        if isinstance(f, FuncV):
            if f.fkind == 'staticmethod' or f.fkind in (None, 'property', 'classmethod', 'decorated'):
                return self.call_function(f, args, kwargs, kwd)
        if isinstance(f, BoundV):
            return self.call(f.func, [f.selfv] + args, kwargs, kwd, env)
        if isinstance(f, PartialV):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.func, list(f.args) + args, kw, kwd, env)
        if isinstance(f, ClsV):
            return self.instantiate(f, args, kwargs, kwd)
        if isinstance(f, MethodV):
            return self.call_method(f.selfv, f.name, args, kwargs, kwd)
        if isinstance(f, ExtV):
            name = f.name
            if name.startswith('builtins.'):
                h = BUILTINS.get(name[9:])
            else:
                h = EXT.get(name)
            if h is None:
                for n in SIGNATURES.get(name, ())[len(args):] if kwd is None else ():
                    if n not in kwargs:
                        break
                    kwargs = dict(kwargs)
                    args = list(args) + [kwargs.pop(n)]
                return self.call_unknown(f.t, args, kwargs, kwd)
            if any(isinstance(a, tuple) and a[0] == '*' for a in args) or kwd is not None:
                hs = EXT.get(name + '*')
                if hs is None:
                    raise Unsupported('symbolic star arguments to %s' % name)
                return hs(self, args, kwargs, kwd)
            self.callenv = env
            return h(self, args, kwargs)
        if isinstance(f, HInst):
            m = self.class_lookup(f.cls, '__call__')
            if m is not None:
                return self.call(BoundV(m, f), args, kwargs, kwd, env)
            self.raise_('TypeError')
        if isinstance(f, T):
            return self.call_unknown(f, args, kwargs, kwd)
        raise Unsupported('call to %r' % (f,))

    def call_unknown(self, f, args, kwargs, kwd=None):
        """Unknown callable: an uninterpreted, possibly raising, function of the content of its arguments"""
        fa = []
        for a in args:
            if isinstance(a, tuple) and a[0] == '*':
                fa.append(seqv('star', self.freeze_term(a[1])))
            else:
                fa.append(self.arg(a))
        sig = 'call%d' % len(args)
        for k in sorted(kwargs):
            sig += ',' + k
            fa.append(self.arg(kwargs[k]))
        if kwd is not None:
            sig += ',**'
            fa.append(dictv('dict', self.freeze_term(kwd)))
        ft = self.arg(f)
        self.trace_call(sig, ft, fa)
        self.assumptions_used.add('unknown callables are deterministic functions of the content of their arguments and '
                                  'do not modify the objects under verification')
        if not self.total(ft) and self.branch(pred('raises:' + sig, ft, *fa)):
            e = app('exc:' + sig, ft, *fa, ty=None)
            self.assume(pred('isinst:BaseException', e))
            raise PyExc(e)
        return self.thaw(app(sig, ft, *fa))

    def total(self, ft):
        return getattr(self, 'total_calls', False) or ft in getattr(self, 'total_fns', ())

    def trace_call(self, sig, ft, fa):
        tr = getattr(self, 'traced', None)
        if tr is not None and ft in tr:
            self.setnode(self.trace, scat(self.trace.f['node'], lit(tup(ft, *fa))))

    def instantiate(self, c, args, kwargs, kwd=None):
        if c.info is None:
            h = BUILTINS.get('new:' + c.name)
            if h is not None:
                if any(isinstance(a, tuple) and a[0] == '*' for a in args) or kwd is not None:
                    if c.name == 'dict' and not args:
                        d = kwd
                        for k, v in kwargs.items():
                            d = upd(d, const(k), self.tou(v))
                        return HDict(self, node=d, cls='dict')
                    if c.name == 'partial':
                        return self.partial_star(args, kwargs, kwd)
                    raise Unsupported('star arguments to %s' % c.name)
                return h(self, args, kwargs)
            if c.name in solver.SUBCLASS or c.name in ('BaseException',):
                return ExcV(c.name, args)
            return self.call_unknown(c.t, args, kwargs, kwd)
        hook = self.hooks.get('new:' + c.name)
        if hook is not None:
            return hook(self, c, args, kwargs, kwd)
        init = self.class_lookup(c, '__init__')
        if self.class_lookup(c, '__new__') is not None:
            raise Unsupported('__new__')
        if self.subclass_of(c, 'dict'):
            o = HDict(self, node=DEMPTY, cls=c.name)
            o.repocls = c
        elif any(self.subclass_of(c, b) for b in ('list', 'tuple', 'set', 'str', 'int')):
            raise Unsupported('instance of subclass of builtin')
        else:
            o = HInst(self, c)
        if init is not None:
            self.call(BoundV(init, o), args, kwargs, kwd)
        elif args or kwargs:
            self.raise_('TypeError')
        return o

    # ---------------------------------------------------------------- attributes

    def kindof(self, t):
        """Known builtin kind of a symbolic value, or None"""
        if not isinstance(t, T):
            return {HList: 'list', HDict: 'dict', HSet: 'set'}.get(type(t))
        if t.ty:
            return t.ty
        if t.op == 'seqv':
            return t.args[0]
        for p in self.pc:
            if p.op == 'pred' and p.args[0].startswith(('isinst:', 'exact:')) and p.args[1] is t:
                k = p.args[0].split(':')[1]
                return {'OrderedDict': 'dict'}.get(k, k)
        c = self.kindcache.get((t.uid, len(self.pc)))
        if c is None:
            c = ''
            pc = self.relevant(t)
            for k in ('str', 'What', 'dict', 'list', 'tuple', 'set'):
                if pc and check(pc + [Not(pred('isinst:' + k, t))]) == 'unsat':
                    c = k
                    break
            self.kindcache[(t.uid, len(self.pc))] = c
        return c or None

    kindcache = {}

    def relevant(self, t):
        """assumptions that talk about the kind of t: about t itself, or about the elements of what t comes from"""
        out = []
        sub = None
        for p in self.pc:
            if t.op in ('sym', 'href'):
                if t in p.syms and any(s.op == 'pred' or s.op == 'eq' for s in atoms(p) if t in s.args):
                    out.append(p)
                continue
            if not (t.syms & p.syms):
                continue
            for s in atoms(p):
                if s.op in ('pred', 'eq', 'same') and t in s.args:
                    out.append(p)
                    break
                if s.op == 'exists' and any(a.op == 'pred' and a.args[0].startswith('isinst:') for a in atoms(s.args[1].args[1])):
                    if sub is None:
                        sub = subterms(t)
                    b = s.args[0]
                    while b.op in ('sorted', 'dedup', 'rev', 'setorder', 'keys') and b.args:
                        b = b.args[0]
                    if b in sub:
                        out.append(p)
                        break
        if out:
            out += [p for p in self.pc if p not in out and any(
                s.op == 'pred' and s.args[0].startswith('mem') or s.op == 'has' for s in atoms(p))]
        return out

    METHODS = {
        'str': {'startswith', 'endswith', 'replace', 'join', 'split', 'partition', 'rpartition', 'encode', 'lower',
                'upper', 'strip', 'lstrip', 'rstrip', 'format', 'find', 'index', 'count', 'isidentifier', 'title',
                'rsplit', 'islower', 'isdigit', 'zfill', 'isalpha', 'isalnum', 'splitlines', 'casefold', 'translate'},
        'dict': {'items', 'keys', 'values', 'get', 'copy', 'update', 'pop', 'setdefault', 'clear', 'popitem',
                 'fromkeys', '__getitem__', '__contains__', '__setitem__'},
        'list': {'append', 'extend', 'insert', 'remove', 'index', 'sort', 'reverse', 'copy', 'pop', 'count', 'clear'},
        'tuple': {'index', 'count'},
        'set': {'add', 'update', 'discard', 'remove', 'union', 'intersection', 'difference', 'issubset', 'issuperset',
                'copy', 'isdisjoint', 'intersection_update', 'difference_update', 'symmetric_difference', 'pop',
                'clear'},
        'iter': {'__next__'},
    }
    METHODS['frozenset'] = METHODS['set']

    def getattr(self, o, name):
        if isinstance(o, T):
            o = self.thaw(o)
        if isinstance(o, HInst):
            custom = self.class_lookup(o.cls, '__getattribute__')
            if custom is not None:
                return self.call(BoundV(custom, o), [const(name)], {})
            return self.inst_attr(o, name)
        return self.other_attr(o, name)

    def inst_attr(self, o, name):
        if name in o.f:
            v = o.f[name]
            if isinstance(v, Poison):
                raise Unsupported(v.why)
            return self.thaw(v) if isinstance(v, T) else v
        if name == '__class__':
            return o.cls
        if name == '__dict__':
            if self.class_lookup(o.cls, '__slots__') is not None:
                self.raise_('AttributeError')
            return HDict(self, node=self._fields(o), cls='dict')
        v = self.class_lookup(o.cls, name)
        if v is not None:
            return self.bindattr(v, o, o.cls)
        for b in self.all_bases(o.cls):
            if b.info is None and b.name + '.' + name in EXT:
                return BoundV(ExtV(b.name + '.' + name), o)
        if any(b.info is None and b.name not in ('object',) for b in self.all_bases(o.cls)):
            raise Unsupported('attribute %s of a class with external bases' % name)
        self.raise_('AttributeError', const(name))

    def other_attr(self, o, name):
        if isinstance(o, T) and o.op == 'tup' and name in ip.FRAMEINFO and len(o.args) == 6 and \
                o.args[0].op == 'app' and o.args[0].args[0] == 'caller:frame':
            return self.thaw(o.args[ip.FRAMEINFO.index(name)])
        if isinstance(o, T) and id(o) in self.named and name in self.named[id(o)][1]:
            return self.thaw(o.args[self.named[id(o)][1].index(name)])
        if isinstance(o, SuperV):
            for b in self.class_bases(o.cls):
                if b.info is not None:
                    v = self.class_lookup(b, name)
                    if v is not None:
                        return self.bindattr(v, o.selfv, b)
                elif isinstance(o.selfv, HDict):
                    return BoundV(ExtV('dictsuper.' + name), o.selfv)
            if name == '__init__':
                return ExtV('builtins.noop')
            if isinstance(o.selfv, HDict):
                return MethodV(_Raw(o.selfv), name)
            hook = EXT.get('super.' + name)
            if hook is not None:
                return BoundV(ExtV('super.' + name), o.selfv)
            raise Unsupported('super().%s' % name)
        if isinstance(o, ClsV):
            return self.cls_attr(o, name)
        if isinstance(o, ModV):
            m = self.module(o.name)
            try:
                return self.module_global(m, name)
            except KeyError:
                self.raise_('AttributeError')
        if isinstance(o, ExtV):
            if name == '__name__':
                return const(o.name.split('.')[-1])
            full = o.name + '.' + name
            return self.extval(full)
        if isinstance(o, FuncV):
            if name in o.f:
                return o.f[name]
            if name == '__name__':
                return const(o.fname)
            if name == '__defaults__':
                return tup(*[self.tou(d) for d in o.defaults]) if o.defaults else NONE
            if name in ('__doc__', '__module__', '__dict__', '__closure__', '__code__', '__qualname__',
                        '__annotations__'):
                return app('funcattr:' + name, const(o.qualname))
            if name in dir(_a_function):
                raise Unsupported('attribute %s of a function' % name)
            self.raise_('AttributeError', const(name))
        if isinstance(o, PartialV):
            if name == 'func':
                return o.func
            if name == 'args':
                return tup(*[self.tou(a) for a in o.args])
            if name == 'keywords':
                return HDict(self, node=frompairs(DEMPTY, lit(*[tup(const(k), self.tou(v))
                                                               for k, v in o.kwargs.items()])), cls='dict')
            if name in o.f:
                return o.f[name]
            if name in dir(functools.partial):
                raise Unsupported('attribute %s of a partial' % name)
            self.raise_('AttributeError', const(name))
        if isinstance(o, BoundV):
            if name == '__self__':
                return o.selfv
            if name == '__func__':
                return o.func
            return self.getattr(o.func, name)
        if isinstance(o, (HList, HDict, HSet, HIter)):
            if isinstance(o, HDict) and getattr(o, 'repocls', None) is not None:
                if name in o.f and name not in ('node', 'cls'):
                    return o.f[name]
                v = self.class_lookup(o.repocls, name)
                if v is not None:
                    return self.bindattr(v, o, o.repocls)
            if name == '__class__':
                return ClsV(self.clsname(o))
            if name == '__dict__':
                self.raise_('AttributeError', const(name))
            if name in self.METHODS.get(o.kind, ()):
                return MethodV(o, name)
            if name == '__name__' or not name.startswith('__'):
                self.raise_('AttributeError', const(name))
            raise Unsupported('attribute %s of %s' % (name, o.kind))
        if isinstance(o, ExcV):
            if name == 'args':
                return tup(*[self.tou(a) for a in o.args])
            if name == '__class__':
                return ClsV(o.cls)
            raise Unsupported('attribute of exception')
        if isinstance(o, MethodV):
            if name == '__self__':
                return o.selfv
            if name == '__name__':
                return const(o.name)
            raise Unsupported('attribute of method')
        if isinstance(o, T):
            return self.term_attr(o, name)
        raise Unsupported('getattr %r.%s' % (o, name))

    def _fields(self, o):
        d = DEMPTY
        for k, v in o.f.items():
            d = upd(d, const(k), self.tou(v))
        return d

    def all_bases(self, c):
        out = []
        for b in self.class_bases(c):
            out.append(b)
            out += self.all_bases(b)
        return out

    def bindattr(self, v, o, cls):
        if isinstance(v, FuncV):
            if v.fkind == 'property':
                return self.call_function(v, [o], {})
            if v.fkind == 'staticmethod':
                return v
            if v.fkind == 'classmethod':
                return BoundV(v, cls)
            return BoundV(v, o)
        return v

    def cls_attr(self, c, name):
        if name == '__name__':
            return const(c.name)
        if name == '__module__' and c.info is None and c.name in BUILTIN_CLASSES:
            return const('builtins')
        if c.info is not None:
            v = self.class_lookup(c, name)
            if v is not None:
                if isinstance(v, FuncV) and v.fkind == 'classmethod':
                    return BoundV(v, c)
                return v
            if name in ('__module__', '__qualname__', '__doc__'):
                return app('clsattr:' + name, c.t)
            self.raise_('AttributeError', const(name))
        if name in self.METHODS.get(c.name, ()):
            return ExtV('builtins.%s.%s' % (c.name, name))
        if c.name == 'type' and name == '__new__':
            return ExtV('type.__new__')
        return self.term_attr(c.t, name)

    def term_attr(self, o, name):
        """Attribute of an unknown value: present (an uninterpreted function of the value), or raises"""
        if o.op == 'app' and o.args[0] == 'typeof' and name == '__name__':
            return app('clsname', o.args[1], ty='str')
        if name == '__class__':
            k = o.ty
            return self.typeof(o)
        k = self.kindof(o)
        if k == 'tup':
            k = 'tuple'
        if k in self.METHODS:
            if name in self.METHODS[k]:
                return MethodV(o, name)
            if o.op in ('const', 'cat', 'join', 'tup', 'boxi', 'boxb') or is_const(o):
                self.raise_('AttributeError', const(name))
        if k == 'none' or k in ('int', 'bool', 'float'):
            self.raise_('AttributeError', const(name))
        fk = (k, name)
        repoc = self.classes.get(k) if k else None
        if k == 'What' and repoc is None:
            repoc = self.module_global(self.module('whatami.what'), 'What')
        if repoc is not None and repoc.info is not None:
            v = self.class_lookup(repoc, name)
            if v is not None and isinstance(v, FuncV):
                self.assumptions_used.add('subclasses of %s do not override the methods used' % k)
                return self.bindattr(v, o, repoc)
            return self.thaw(app('attr:' + name, o))
        mock = getattr(self, 'sure_attrs', {})
        if (o, name) not in mock and not ((o.op, name) in mock):
            if self.branch(pred('noattr:' + name, o)):
                e = app('attrexc:' + name, o)
                self.assume(pred('isinst:BaseException', e))
                if getattr(self, 'plain_attr_errors', False):
                    self.assume(pred('isinst:AttributeError', e))
                raise PyExc(e)
        return self.thaw(app('attr:' + name, o))

    def typeof(self, o):
        if isinstance(o, T):
            if o.op == 'href':
                return self.typeof(self.heap[o.args[0]])
            ty = o.ty
            if ty in ('str', 'int', 'bool', 'float') and (is_const(o) or o.op in ('cat', 'join', 'boxi', 'boxb')):
                return ClsV(ty)
            if o is NONE:
                return ClsV('NoneType')
            if o.op in ('tup',) or (o.op == 'seqv' and o.args[0] == 'tuple'):
                return ClsV('tuple')
            for p in self.pc:
                if p.op == 'pred' and p.args[0].startswith('exact:') and p.args[1] is o:
                    return ClsV(p.args[0][6:])
            return app('typeof', o, ty='class')
        if isinstance(o, HInst):
            return o.cls
        if isinstance(o, (HList, HDict, HSet)):
            if getattr(o, 'repocls', None) is not None:
                return o.repocls
            return ClsV(self.clsname(o))
        if isinstance(o, ExcV):
            return ClsV(o.cls)
        if isinstance(o, FuncV):
            return ClsV('function')
        if isinstance(o, PartialV):
            return ClsV('partial')
        if isinstance(o, ClsV):
            return ClsV('type')
        if isinstance(o, (MethodV, BoundV)):
            return ClsV('method')       # PyPy: the methods of builtin objects too
        if isinstance(o, ModV) or isinstance(o, ExtV) and '.' not in o.name:
            return ClsV('module')
        raise Unsupported('type of %r' % (o,))

    def clsname(self, o):
        if isinstance(o, HSet):
            return 'frozenset' if o.f.get('frozen') else 'set'
        if isinstance(o, HDict):
            return o.f.get('cls', 'dict')
        return {HList: 'list', HIter: 'iterator'}[type(o)]

    def hasattr(self, o, name):
        try:
            self.getattr(o, name)
            return TRUE
        except PyExc as e:
            if isinstance(e.val, ExcV):
                if e.val.cls == 'AttributeError':
                    return FALSE
                raise
            if self.branch(pred('isinst:AttributeError', e.val)):
                return FALSE
            raise

    def setattr(self, o, name, v):
        if isinstance(o, T):
            o = self.thaw(o)
        if isinstance(o, (HInst, FuncV, PartialV)) or (isinstance(o, HDict) and getattr(o, 'repocls', None) is not None):
            if o.detached:
                raise Unsupported('mutation of an element of a summarised collection')
            if isinstance(o, HObj) and o.stamp < 0:
                self.outlives(o.name or name, 'changed')
            self.put(o.f, name, v)
        elif isinstance(o, ClsV) and o.info is not None:
            self.outlives('%s.%s' % (o.name, name), 'changed')
            self.put(o.f, name, v)
            self.put(o.ns, name, v)
        elif isinstance(o, ModV):
            self.outlives(name, 'changed')
            self.put(self.module(o.name).vars, name, v)
        elif isinstance(o, BoundV):
            self.raise_('AttributeError')
        elif isinstance(o, T):
            # attributes of unknown objects: recorded as an effect; might fail
            val = self.freeze(v, ident=True)
            if self.branch(pred('setattr_fails:' + name, o)):
                e = app('setattr_exc:' + name, o)
                self.assume(pred('isinst:BaseException', e))
                raise PyExc(e)
            self.effect(const('setattr'), o, const(name), val)
        else:
            raise Unsupported('setattr on %r' % (o,))

    # ---------------------------------------------------------------- items

    def toint(self, v):
        if isinstance(v, T):
            if v.sort == 'I':
                return v
            if v.sort == 'B':
                return Ite(v, iconst(1), iconst(0))
            if is_const(v) and isinstance(cval(v), (int, bool)):
                return iconst(int(cval(v)))
            return unboxi(v)
        raise Unsupported('integer from %r' % (v,))

    def dnode(self, v):
        if isinstance(v, T):
            v = self.thaw(v)
        if isinstance(v, HDict):
            return v.f['node']
        if isinstance(v, T):
            return dbase(v)
        raise Unsupported('dictionary from %r' % (v,))

    def getitem(self, o, k):
        if isinstance(o, T):
            o = self.thaw(o)
        if isinstance(o, HDict):
            rc = getattr(o, 'repocls', None)
            if rc is not None:
                m = self.class_lookup(rc, '__getitem__')
                if m is not None:
                    return self.call(BoundV(m, o), [k], {})
            return self.dict_getitem(o.f['node'], k)
        if isinstance(o, HInst):
            m = self.class_lookup(o.cls, '__getitem__')
            if m is None:
                self.raise_('TypeError')
            return self.call(BoundV(m, o), [k], {})
        if isinstance(o, T):
            kind = self.kindof(o)
            if kind == 'dict':
                return self.dict_getitem(dbase(o), k)
            if kind == 'What':
                c = self.module_global(self.module('whatami.what'), 'What')
                return self.call(BoundV(self.class_lookup(c, '__getitem__'), o), [k], {})
            if o.op in ('tup',) and isinstance(k, T) and is_const(k) and isinstance(cval(k), int):
                i = cval(k)
                if not -len(o.args) <= i < len(o.args):
                    self.raise_('IndexError')
                return self.thaw(o.args[i])
            if isinstance(k, T) and is_const(k) and isinstance(cval(k), int) and cval(k) >= 0 and \
                    self.known_tuple_len(o) is not None and cval(k) < self.known_tuple_len(o):
                return self.thaw(item(o, cval(k)))
            if kind in ('tuple', 'list', 'str') or (o.op == 'seqv' and o.args[0] in ('tuple',)):
                return self.seq_getitem(o, self.seq(o), k)
            return self.unknown_getitem(o, k)
        if isinstance(o, HList):
            return self.seq_getitem(o, o.f['node'], k)
        if isinstance(o, (HSet, HIter, FuncV, PartialV, BoundV)):
            self.raise_('TypeError')
        raise Unsupported('getitem %r' % (o,))

    def known_tuple_len(self, o):
        for n in (2, 3, 4):
            if self.is_tuple_n(o, n):
                return n
        return None

    def unknown_getitem(self, o, k):
        kk = self.arg(k)
        self.assumptions_used.add('indexing unknown values is a deterministic, effect free operation')
        if self.branch(pred('getitem_fails', o, kk)):
            e = app('getitem_exc', o, kk)
            self.assume(pred('isinst:BaseException', e))
            raise PyExc(e)
        return self.thaw(app('getitem', o, kk))

    def dict_getitem(self, d, k):
        kt = self.keyt(k)
        self.check_hashable(kt)
        if self.branch(has(d, kt)):
            return self.thaw(dget(d, kt))
        self.raise_('KeyError', kt)

    def check_hashable(self, kt):
        if kt.op in ('seqv', 'dictv') and kt.args[0] in ('list', 'set', 'dict'):
            self.raise_('TypeError')
        if kt.ty in ('str', 'none', 'int', 'bool', 'float') or kt.op in ('tup',):
            return
        if kt.op in ('sym', 'app', 'dget', 'item') and getattr(self, 'check_hash', False):
            if not self.branch(pred('hashable', kt)):
                self.raise_('TypeError')

    def seq_getitem(self, o, s, k):
        i = self.toint(k)
        if isinstance(o, T) and o.op == 'cat' and i.op == 'iconst':
            c = cat_slice(o, i, None if i.args[0] == -1 else iconst(i.args[0] + 1))
            if c is not None and is_const(c) and len(cval(c)) == 1:
                return c
        n = ilen(s)
        if i.op == 'iconst':
            ok = ilt(i, n) if i.args[0] >= 0 else ile(iconst(-i.args[0]), n)
        else:
            if self.branch(ilt(i, iconst(0))):
                i = iadd(i, n)
                ok = ile(iconst(0), i)
            else:
                ok = ilt(i, n)
        if not self.branch(ok):
            self.raise_('IndexError')
        return self.thaw(snth(s, i))

    def setitem(self, o, k, v):
        if isinstance(o, T):
            o = self.thaw(o)
        if isinstance(o, HDict):
            kt = self.keyt(k)
            self.check_hashable(kt)
            self.setnode(o, upd(o.f['node'], kt, self.tou(v)))
        elif isinstance(o, HInst):
            m = self.class_lookup(o.cls, '__setitem__')
            if m is None:
                self.raise_('TypeError')
            self.call(BoundV(m, o), [k, v], {})
        elif isinstance(o, HList):
            s = o.f['node']
            i = self.toint(k)
            if s.op == 'lit' and i.op == 'iconst' and -len(s.args) <= i.args[0] < len(s.args):
                a = list(s.args)
                a[i.args[0]] = self.tou(v)
                self.setnode(o, lit(*a))
            else:
                raise Unsupported('list item assignment')
        elif isinstance(o, T):
            self.effect(const('setitem'), o, self.arg(k), self.arg(v))
        else:
            raise Unsupported('setitem')

    def delitem(self, o, k):
        if isinstance(o, T):
            o = self.thaw(o)
        if isinstance(o, HDict):
            kt = self.keyt(k)
            if not self.branch(has(o.f['node'], kt)):
                self.raise_('KeyError', kt)
            self.setnode(o, ddel(o.f['node'], kt))
        elif isinstance(o, HList):
            s, i = o.f['node'], self.toint(k)
            if i.op == 'sindex' and i.args[0] is s:
                self.setnode(o, mk('sremove', i.args, 'S'))
                return
            if i.op != 'iconst':
                if not self.implied(ile(iconst(0), i)) or not self.branch(ile(iadd(i, iconst(1)), ilen(s))):
                    raise Unsupported('deletion of a list item: %s of %s' % (show(i), show(s)))
                self.setnode(o, scat(sslice(s, None, i), sslice(s, iadd(i, iconst(1)), None)))
                return
            i = i.args[0]
            if not self.branch(ile(iconst(i + 1 if i >= 0 else -i), ilen(s))):
                self.raise_('IndexError')
            self.setnode(o, scat(sslice(s, None, iconst(i)), sslice(s, iconst(i + 1), None) if i != -1 else lit()))
        elif isinstance(o, T):
            self.effect(const('delitem'), o, self.arg(k))
        else:
            raise Unsupported('delitem')

    def slice_(self, o, a, b, step):
        if isinstance(o, T):
            o = self.thaw(o)
        if isinstance(o, T) and is_const(o) and isinstance(cval(o), str):
            if all(p is None or p.op == 'iconst' for p in (a, b, step)):
                return const(cval(o)[slice(*[None if p is None else p.args[0] for p in (a, b, step)])])
        if isinstance(o, T) and self.kindof(o) == 'str':
            f = lambda p: NONE if p is None else boxi(p)
            ends = cat_slice(o, a, b) if step is None else None
            if ends is not None:
                return ends
            return app('strslice', o, f(a), f(b), f(step), ty='str')
        if isinstance(o, T) and o.op not in ('tup', 'seqv') and self.kindof(o) is None:
            f = lambda p: NONE if p is None else boxi(p)
            return self.unknown_getitem(o, app('slice', f(a), f(b), f(step)))
        s = self.seq(o, keep=True)
        if step is not None:
            if step.op == 'iconst' and step.args[0] == -1 and a is None and b is None:
                r = srev(s)
            else:
                raise Unsupported('slice step')
        else:
            def from_end(e):
                if e is not None and e.op == 'ineg':
                    n = e.args[0]
                    if check(self.pc + [Not(And(ilt(iconst(0), n), ile(n, ilen(s))))]) == 'unsat':
                        return iadd(ilen(s), e)
                return e
            a, b = from_end(a), from_end(b)
            r = sslice(s, a, b)
        if isinstance(o, HList):
            return HList(self, node=r)
        if isinstance(o, T) and (o.op in ('tup',) or self.kindof(o) in ('tuple',)):
            return seqv('tuple', r)
        if isinstance(o, T) and self.kindof(o) == 'list':
            return HList(self, node=r)
        raise Unsupported('slice of %r' % (o,))

    def seq(self, v, keep=False):
        """Sequence of elements obtained when iterating v (raises TypeError if not iterable)"""
        if isinstance(v, T):
            v = self.thaw(v)
        if isinstance(v, HList):
            return v.f['node']
        if isinstance(v, HSet):
            return setorder(dedup(v.f['node']))
        if isinstance(v, HDict):
            return keys(v.f['node'])
        if isinstance(v, HIter):
            if v.failing is not None:
                exc, v.failing = v.failing[0], (None, None)
                if exc is None or keep:
                    raise Unsupported('generator consumed twice')
                raise exc
            s = v.f['node']
            if not keep:
                self.put(v.f, 'node', EMPTY)
            return s
        if isinstance(v, T):
            if v.op == 'tup':
                return lit(*v.args)
            if v.op == 'seqv':
                return v.args[1]
            if is_const(v) and isinstance(cval(v), str):
                return lit(*[const(c) for c in cval(v)])
            k = self.kindof(v)
            if k == 'dict':
                return keys(dbase(v))
            if k in ('tuple', 'list', 'set', 'frozenset', 'str', 'bytes'):
                return sbase(v)
            if k in ('none', 'int', 'bool', 'float', 'func', 'class', 'What'):
                self.raise_('TypeError')
            if not self.branch(pred('iterable', v)):
                self.raise_('TypeError')
            self.assumptions_used.add('iterating an unknown iterable is repeatable and effect free')
            return sbase(v)
        if isinstance(v, HInst):
            m = self.class_lookup(v.cls, '__iter__')
            if m is not None:
                return self.seq(self.call(BoundV(m, v), [], {}))
            if self.class_lookup(v.cls, '__getitem__') is not None:
                raise Unsupported('iteration through __getitem__')
            self.raise_('TypeError')
        if isinstance(v, (ClsV, FuncV, BoundV, MethodV, PartialV, ModV)):
            self.raise_('TypeError')
        raise Unsupported('iteration over %r' % (v,))

    # ---------------------------------------------------------------- operators

    def binop(self, op, a, b):
        if isinstance(a, T):
            a = self.thaw(a)
        if isinstance(b, T):
            b = self.thaw(b)
        if isinstance(op, ast.Mod) and isinstance(a, T) and (a.ty == 'str'):
            if is_const(a):
                return self.format_percent(cval(a), b)
            return app('percent', a, self.arg(b), ty='str')
        if isinstance(op, ast.Add):
            if isinstance(a, HList) and isinstance(b, HList):
                return HList(self, node=scat(a.f['node'], b.f['node']))
            ka = self.kindof(a) if isinstance(a, T) else None
            kb = self.kindof(b) if isinstance(b, T) else None
            if ka == 'str' and kb == 'str':
                return cat(a, b)
            if ka == 'str' or kb == 'str':
                other = b if ka == 'str' else a
                if isinstance(other, T) and other.ty is None:
                    # unknown + str: strings only
                    if self.branch(pred('isinst:str', other)):
                        return cat(a, b)
                    self.raise_('TypeError')
                self.raise_('TypeError')
            if ka == 'tuple' and kb == 'tuple':
                return seqv('tuple', scat(self.seq(a), self.seq(b)))
            if isinstance(a, HList) or isinstance(b, HList):
                x, y = (a, b)
                other = y if isinstance(a, HList) else x
                if isinstance(other, T) and self.kindof(other) == 'list':
                    return HList(self, node=scat(self.seq(a), self.seq(b)))
                if isinstance(other, T) and self.kindof(other) in ('tuple', 'str', 'none', 'dict', 'int'):
                    self.raise_('TypeError')
                if isinstance(other, T) and self.kindof(other) is None:
                    if self.branch(pred('isinst:list', other)):
                        return HList(self, node=scat(self.seq(a), self.seq(b)))
                    self.raise_('TypeError')
                raise Unsupported('list + %r' % (other,))
            if ka == 'list' and kb == 'list':
                return HList(self, node=scat(self.seq(a), self.seq(b)))
        if isinstance(op, (ast.Sub, ast.BitAnd, ast.BitOr, ast.BitXor)) and self.is_set(a) and self.is_set(b):
            sa, sb = self.setnode_of(a), self.setnode_of(b)
            return self.mkset(self.setop(op, sa, sb))
        if isinstance(op, (ast.Add, ast.Sub, ast.Mult, ast.Pow, ast.FloorDiv, ast.Div, ast.Mod)):
            if isinstance(a, T) and isinstance(b, T) and is_const(a) and is_const(b):
                import operator
                f = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Pow: operator.pow,
                     ast.FloorDiv: operator.floordiv, ast.Div: operator.truediv, ast.Mod: operator.mod}[type(op)]
                try:
                    return const(f(cval(a), cval(b)))
                except TypeError:
                    self.raise_('TypeError')
                except ZeroDivisionError:
                    self.raise_('ZeroDivisionError')
            if self.is_int(a) and self.is_int(b):
                ia, ib = self.toint(a), self.toint(b)
                if isinstance(op, ast.Add):
                    return boxi(iadd(ia, ib))
                if isinstance(op, ast.Sub):
                    return boxi(iadd(ia, ineg(ib)))
        if isinstance(op, ast.Mult) and isinstance(a, T) and is_const(a) and isinstance(cval(a), str):
            return app('strmul', a, self.arg(b), ty='str')
        return app('binop:' + type(op).__name__, self.arg(a), self.arg(b))

    def is_int(self, v):
        return isinstance(v, T) and (v.sort in 'IB' or v.ty in ('int', 'bool') or
                                     self.kindof(v) in ('int', 'bool'))

    def is_set(self, v):
        return isinstance(v, HSet) or (isinstance(v, T) and self.kindof(v) in ('set', 'frozenset')) or \
            (isinstance(v, T) and v.op == 'setview')

    def setnode_of(self, v):
        if isinstance(v, HSet):
            return v.f['node']
        return self.seq(v)

    def mkset(self, s, frozen=False):
        o = HSet(self, node=s)
        if frozen:
            o.f['frozen'] = True
        return o

    def setop(self, op, sa, sb):
        if isinstance(op, ast.BitOr):
            return scat(sa, sb)
        if isinstance(op, ast.BitAnd):
            return sfilter(sa, lambda x: contains(sb, x))
        if isinstance(op, ast.Sub):
            return sfilter(sa, lambda x: Not(contains(sb, x)))
        return scat(sfilter(sa, lambda x: Not(contains(sb, x))), sfilter(sb, lambda x: Not(contains(sa, x))))

    def compare(self, op, a, b):
        if isinstance(a, T):
            a = self.thaw(a)
        if isinstance(b, T):
            b = self.thaw(b)
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return Not(self.is_(a, b))
        if isinstance(op, ast.Eq):
            return self.eq_(a, b)
        if isinstance(op, ast.NotEq):
            return Not(self.eq_(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return Not(self.contains(b, a))
        # ordering
        if self.is_set(a) and self.is_set(b):
            sa, sb = self.setnode_of(a), self.setnode_of(b)
            sub = lambda x, y: Not(exists(x, self.lamof(lambda e: Not(contains(y, e)))))
            if isinstance(op, ast.LtE):
                return sub(sa, sb)
            if isinstance(op, ast.GtE):
                return sub(sb, sa)
            if isinstance(op, ast.Lt):
                return And(sub(sa, sb), Not(sub(sb, sa)))
            return And(sub(sb, sa), Not(sub(sa, sb)))
        if isinstance(a, T) and isinstance(b, T) and is_const(a) and is_const(b) and a.sort == b.sort == 'U':
            import operator
            f = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[type(op)]
            return TRUE if f(cval(a), cval(b)) else FALSE
        if self.is_int(a) or self.is_int(b):
            ia, ib = self.toint(a), self.toint(b)
            if isinstance(op, ast.Lt):
                return ilt(ia, ib)
            if isinstance(op, ast.LtE):
                return ile(ia, ib)
            if isinstance(op, ast.Gt):
                return ilt(ib, ia)
            return ile(ib, ia)
        x, y = self.arg(a), self.arg(b)
        if isinstance(op, ast.Lt):
            return pred('lt', x, y)
        if isinstance(op, ast.Gt):
            return pred('lt', y, x)
        if isinstance(op, ast.LtE):
            return pred('le', x, y)
        return pred('le', y, x)

    def lamof(self, f):
        x = fresh('x')
        return lam(x, f(x))

    def is_(self, a, b):
        if isinstance(a, T) and isinstance(b, T):
            if a.sort != 'U':
                a = box(a)
            if b.sort != 'U':
                b = box(b)
            if a.op == 'app' and a.args[0] == 'typeof' or b.op == 'app' and b.args[0] == 'typeof':
                return self.eq_(a, b)
            if a is NONE or b is NONE:
                return self.none_test(b if a is NONE else a)
            for x, y in ((a, b), (b, a)):
                if y is self.marker and x is not y:
                    # no value of a configuration is this very object
                    return Ite(x.args[0], self.is_(x.args[1], y), self.is_(x.args[2], y)) if x.op == 'ite' else FALSE
            if a.op in ('boxb',) and b.op in ('boxb',):
                return Iff(a.args[0], b.args[0])
            if a is b:
                return TRUE
            if b.op == 'boxb' and is_const(b):
                return same(a, b)
            if a.op == 'boxb' and is_const(a):
                return same(a, b)
            self.assumptions_used.add('"is" between unknown values is equality of values')
            return same(a, b)
        if isinstance(a, (ClsV, ExtV, ModV)) or isinstance(b, (ClsV, ExtV, ModV)):
            return self.eq_(a, b)
        if isinstance(a, T) and a is NONE or isinstance(b, T) and b is NONE:
            return FALSE
        if isinstance(a, BoundV) and isinstance(b, BoundV):
            return FALSE
        if isinstance(a, HObj) and isinstance(b, HObj):
            return TRUE if a is b else FALSE
        if isinstance(a, HObj) and isinstance(b, T) or isinstance(b, HObj) and isinstance(a, T):
            o, t = (a, b) if isinstance(a, HObj) else (b, a)
            if o.name is None:
                return FALSE
            return same(t, app('old:' + o.name))
        return TRUE if a is b else FALSE

    def none_test(self, t):
        if t is NONE:
            return TRUE
        if t.ty and t.ty != 'none':
            return FALSE
        if t.op in ('tup', 'seqv', 'dictv', 'new', 'cat', 'join', 'href', 'boxi', 'boxb', 'const'):
            return FALSE
        if t.op == 'ite':
            return Ite(t.args[0], self.none_test(t.args[1]), self.none_test(t.args[2]))
        return eq(t, NONE)

    def eq_(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, T) and x.op == 'app' and x.args[0] == 'typeof':
                if isinstance(y, (ClsV, ExtV)):
                    n = y.name.split('.')[-1]
                    return pred('exact:' + n, x.args[1])
                if isinstance(y, T) and y.op == 'app' and y.args[0].startswith('class:'):
                    return pred('exact:' + y.args[0][6:], x.args[1])
        if isinstance(a, (ClsV, ExtV, ModV)) or isinstance(b, (ClsV, ExtV, ModV)):
            x = a.t if not isinstance(a, T) and hasattr(a, 't') else a
            y = b.t if not isinstance(b, T) and hasattr(b, 't') else b
            if isinstance(x, T) and isinstance(y, T):
                if x is y:
                    return TRUE
                if x.op == y.op == 'app' and len(x.args) == 1 and len(y.args) == 1:
                    return FALSE
                return same(x, y)
            return FALSE
        for x, y in ((a, b), (b, a)):
            if isinstance(x, HInst):
                m = self.class_lookup(x.cls, '__eq__')
                if m is not None:
                    return self.formula(self.call(BoundV(m, x), [y], {}))
                if isinstance(y, HInst):
                    return TRUE if x is y else FALSE
                return FALSE if isinstance(y, HObj) else pred('eqinst', self.arg(x), self.arg(y))
        if isinstance(a, FuncV) or isinstance(b, FuncV):
            return self.is_(a, b)
        if isinstance(a, (HSet,)) and isinstance(b, HSet):
            return And(*[Not(exists(x, self.lamof(lambda e: Not(contains(y, e)))))
                         for x, y in ((a.f['node'], b.f['node']), (b.f['node'], a.f['node']))])
        if isinstance(a, (MethodV, BoundV)) or isinstance(b, (MethodV, BoundV)):
            raise Unsupported('comparison of methods')
        if isinstance(a, HList) and isinstance(b, HList):
            return same_seq_eq(a.f['node'], b.f['node'], self)
        x, y = self.arg(a), self.arg(b)
        return eq(x, y)

    def contains(self, c, v):
        if isinstance(c, T):
            c = self.thaw(c)
        if isinstance(c, HDict):
            rc = getattr(c, 'repocls', None)
            if rc is not None:
                m = self.class_lookup(rc, '__contains__')
                if m is not None:
                    return self.formula(self.call(BoundV(m, c), [v], {}))
            return has(c.f['node'], self.keyt(v))
        if isinstance(c, HInst):
            m = self.class_lookup(c.cls, '__contains__')
            if m is not None:
                return self.formula(self.call(BoundV(m, c), [v], {}))
            raise Unsupported('in')
        if isinstance(c, T):
            k = self.kindof(c)
            if k == 'str':
                vv = self.arg(v)
                if is_const(c) and is_const(vv) and isinstance(cval(vv), str):
                    return TRUE if cval(vv) in cval(c) else FALSE
                return pred('contains', c, vv)
            if k == 'dict':
                return has(dbase(c), self.keyt(v))
            if c.op not in ('tup', 'seqv') and k is None:
                # unknown container
                if not self.branch(pred('iterable', c)):
                    self.raise_('TypeError')
                return pred('in_unknown', c, self.arg(v))
        if isinstance(c, HSet):
            s = c.f['node']
        else:
            s = self.seq(c)
        if s.op == 'lit':
            return Or(*[self.eq_(v, self.thaw(t)) for t in s.args])
        return contains(s, self.arg(v))

    # ---------------------------------------------------------------- strings

    def str_(self, v):
        if isinstance(v, T):
            v = self.thaw(v)
        if isinstance(v, T):
            if v.ty == 'str':
                return v
            if is_const(v):
                return const(str(cval(v)))
            k = self.kindof(v)
            if k == 'str':
                return mk('cat', (v,), 'U', 'str')
            return app('str', box(v), ty='str')
        if isinstance(v, HInst):
            m = self.class_lookup(v.cls, '__str__') or self.class_lookup(v.cls, '__repr__')
            if m is not None:
                return self.call(BoundV(m, v), [], {})
        return app('str', self.arg(v), ty='str')

    def repr_(self, v):
        if isinstance(v, T):
            v = self.thaw(v)
        if isinstance(v, T) and is_const(v):
            return const(repr(cval(v)))
        if isinstance(v, HInst):
            m = self.class_lookup(v.cls, '__repr__')
            if m is not None:
                return self.call(BoundV(m, v), [], {})
        return app('repr', self.arg(v), ty='str')

    def format_percent(self, fmt, b):
        import re
        parts = re.split(r'(%(?:\([^)]*\))?[-#0 +]*\d*(?:\.\d+)?[a-zA-Z%])', fmt)
        specs = [p for i, p in enumerate(parts) if i % 2 and p != '%%']
        if any('(' in s for s in specs):
            raise Unsupported('mapping format')
        if isinstance(b, T) and (b.op == 'tup' or self.kindof(b) == 'tuple'):
            s = self.seq(b)
            if s.op != 'lit':
                raise Unsupported('format with symbolic tuple')
            vals = [self.thaw(t) for t in s.args]
        elif isinstance(b, T) and not is_const(b) and b.op not in ('seqv', 'dictv', 'new') and \
                self.kindof(b) is None and b.sort == 'U':
            if self.branch(pred('isinst:tuple', b)):
                s = sbase(b)
                if not self.branch(ieq(ilen(s), iconst(len(specs)))):
                    self.raise_('TypeError')
                vals = [self.thaw(snth(s, iconst(i))) for i in range(len(specs))]
            else:
                vals = [b]
        else:
            vals = [b]
        if len(vals) != len(specs):
            self.raise_('TypeError')
        out = []
        j = 0
        for i, p in enumerate(parts):
            if i % 2 == 0:
                out.append(const(p))
            elif p == '%%':
                out.append(const('%'))
            else:
                v = vals[j]
                j += 1
                if p == '%s':
                    out.append(self.str_(v))
                elif p == '%r':
                    out.append(self.repr_(v))
                elif p == '%d' and isinstance(v, T) and is_const(v) and isinstance(cval(v), int):
                    out.append(const('%d' % cval(v)))
                else:
                    out.append(app('format' + p, self.arg(v), ty='str'))
        return cat(*out)


class _Raw(object):
    """view of a dict subclass as a plain dict"""
    def __init__(self, o):
        self.o = o


def same_seq_eq(s1, s2, I):
    if s1 is s2:
        return TRUE
    if s1.op == 'lit' and s2.op == 'lit':
        if len(s1.args) != len(s2.args):
            return FALSE
        return And(*[I.eq_(I.thaw(a), I.thaw(b)) for a, b in zip(s1.args, s2.args)])
    if s1.op == 'lit' and s2.op == 'slice':
        s1, s2 = s2, s1
    if s1.op == 'slice' and s2.op == 'lit' and s1.args[1] is None and s1.args[2] is iconst(len(s2.args)) and s2.args:
        s = s1.args[0]  # the first n elements
        return And(ile(iconst(len(s2.args)), ilen(s)),
                   *[I.eq_(I.thaw(snth(s, iconst(i))), I.thaw(b)) for i, b in enumerate(s2.args)])
    return eq(seqv('list', I.freeze_term(s1)), seqv('list', I.freeze_term(s2)))
