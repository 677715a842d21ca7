"""Symbolic execution of the real Python source (ast), for all inputs.

Paths are explored by re-execution with a script of decisions; loops over symbolic sequences are summarised (the body is
executed on an arbitrary element, from an arbitrary accumulator state), so there is no bound on the number of iterations.
Anything outside of the supported subset raises Unsupported: nothing is proved about such a function.
"""
import ast
import os

from . import terms as tm
from .terms import *
from . import solver
from .solver import same, check

REPO = os.environ.get('WHATAMI_REPO', '/repo')


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    """The current path turned out to be infeasible"""


class PyExc(Exception):
    def __init__(self, val):
        Exception.__init__(self, val)
        self.val = val


class Ret(Exception):
    def __init__(self, val):
        self.val = val


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class _Missing(object):
    def __repr__(self):
        return '<missing>'


MISSING = _Missing()


class Poison(object):
    def __init__(self, why):
        self.why = why


# ------------------------------------------------------------------ values

class HObj(object):
    """Mutable object in the heap, state in self.f (journaled)"""
    kind = 'obj'
    _n = [0]

    def __init__(self, I, name=None, **f):
        self.f = dict(f)
        self.stamp = I.newstamp()
        self.name = name       # pre-existing object of the contract
        self.detached = False
        I.heap[self.stamp] = self
        self.t = mk('href', (self.stamp,), 'U', self.ty())

    def ty(self):
        return None

    def __repr__(self):
        return '<%s %s %s>' % (type(self).__name__, self.name or self.stamp, self.f)


class HList(HObj):
    kind = 'list'

    def ty(self):
        return 'list'


class HDict(HObj):
    kind = 'dict'

    def ty(self):
        return 'dict'


class HSet(HObj):
    kind = 'set'

    def ty(self):
        return None


FRAMEINFO = ('frame', 'filename', 'lineno', 'function', 'code_context', 'index')


class HIter(HObj):
    kind = 'iter'
    # a generator whose elements may raise: (the exception if all of it is consumed, how to go through it lazily)
    failing = None


class HInst(HObj):
    kind = 'inst'

    def __init__(self, I, cls, name=None, **f):
        self.cls = cls
        HObj.__init__(self, I, name, **f)

    def ty(self):
        return 'obj'


class Env(object):
    def __init__(self, parent=None, module=None, func=None):
        self.vars = {}
        self.parent = parent
        self.module = module if module is not None else (parent.module if parent else None)
        self.func = func if func is not None else None
        self.globals_decl = set()
        self.nonlocals = set()
        self.stamp = None


class FuncV(HObj):
    kind = 'func'

    def __init__(self, I, node, env, module, qualname, owner=None):
        self.node, self.env, self.module, self.qualname, self.owner = node, env, module, qualname, owner
        self.defaults = []
        self.kwdefaults = {}
        self.fkind = None    # property, staticmethod, classmethod
        HObj.__init__(self, I)

    def ty(self):
        return 'func'

    @property
    def fname(self):
        return self.node.name if hasattr(self.node, 'name') else '<lambda>'


class BoundV(object):
    def __init__(self, func, selfv):
        self.func, self.selfv = func, selfv


class MethodV(object):
    """Method of a builtin type, or unknown method"""
    def __init__(self, selfv, name):
        self.selfv, self.name = selfv, name


class PartialV(HObj):
    kind = 'partial'

    def __init__(self, I, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs
        HObj.__init__(self, I)


class ClsV(object):
    """Class: builtin, external or from the repository"""
    def __init__(self, name, info=None, module=None):
        self.name, self.info, self.module = name, info, module
        self.t = app('class:' + name, ty='class')
        self.f = {}

    def __repr__(self):
        return '<class %s>' % self.name


class ModV(object):
    def __init__(self, name):
        self.name = name
        self.t = app('module:' + name, ty='module')


class ExtV(object):
    """External entity, by dotted name"""
    def __init__(self, name):
        self.name = name
        self.t = app('ext:' + name, ty='func' if name.split('.')[-1].islower() else None)

    def __repr__(self):
        return '<ext %s>' % self.name


class ExcV(object):
    """Concrete exception"""
    def __init__(self, cls, args=()):
        self.cls, self.args = cls, tuple(args)

    def __repr__(self):
        return '%s%r' % (self.cls, self.args)


class SuperV(object):
    def __init__(self, cls, selfv):
        self.cls, self.selfv = cls, selfv


class KwD(object):
    """**kwargs with symbolic content"""
    def __init__(self, d):
        self.d = d


BUILTIN_CLASSES = ['int', 'float', 'complex', 'str', 'bytes', 'bool', 'tuple', 'list', 'dict', 'set', 'frozenset',
                   'object', 'type', 'property', 'staticmethod', 'classmethod', 'Exception', 'BaseException'] + \
                  sorted(set(solver.SUBCLASS) | {s for v in solver.SUBCLASS.values() for s in v})
BUILTIN_CLASSES = [c for c in BUILTIN_CLASSES if c not in ('OrderedDict', 'NoMatch', 'PicklingError')]
BUILTINS = {}
EXT = {}
EXTCLASSES = {'collections.OrderedDict': 'OrderedDict', 'functools.partial': 'partial',
              'arpeggio.NoMatch': 'NoMatch', 'collections.Hashable': 'Hashable',
              'types.MethodType': 'method', 'types.ModuleType': 'module',
              'types.BuiltinMethodType': 'method', 'pickle.PicklingError': 'PicklingError', 'collections.abc.Hashable': 'Hashable'}


def builtin(name):
    def deco(f):
        BUILTINS[name] = f
        return f
    return deco


def ext(*names):
    def deco(f):
        for name in names:
            EXT[name] = f
        return f
    return deco


MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'add', 'discard', 'update', 'setdefault',
            'popitem', 'appendleft', 'popleft', 'difference_update', 'intersection_update', 'symmetric_difference_update',
            '__setitem__', '__delitem__', 'move_to_end'}


def written_names(tree):
    """names that the functions of a module rebind (global) or whose objects they seem to change, and those of attributes ('.x')"""
    out = set()

    def note(e):
        if isinstance(e, ast.Name):
            out.add(e.id)
        elif isinstance(e, ast.Attribute):
            out.add('.' + e.attr)
    for f in ast.walk(tree):
        if not isinstance(f, (ast.FunctionDef, ast.Lambda)):
            continue
        for n in ast.walk(f):
            if isinstance(n, ast.Global):
                out.update(n.names)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                note(n.func.value)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                note(n.value)
            elif isinstance(n, ast.AugAssign):
                note(n.target)
    return out


class Module(object):
    def __init__(self, name, path):
        self.name, self.path = name, path
        with open(path, encoding='utf8') as f:
            self.source = f.read()
        self.tree = ast.parse(self.source)
        self.bindings = {}
        self.stars = []
        self.vars = {}
        self.evaluating = {}
        for st in self.tree.body:
            self._bind(st)
        self.written = written_names(self.tree)

    def _bind(self, st):
        def add(n, what):
            self.bindings.setdefault(n, []).append(what)
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            add(st.name, st)
        elif isinstance(st, ast.Import):
            for a in st.names:
                add((a.asname or a.name.split('.')[0]), ('mod', a.name if a.asname else a.name.split('.')[0]))
        elif isinstance(st, ast.ImportFrom):
            mod = st.module or ''
            if st.level:
                base = self.name.split('.')
                if not self.path.endswith('__init__.py'):
                    base = base[:-1]
                base = base[:len(base) - (st.level - 1)]
                mod = '.'.join(base + ([mod] if mod else []))
            for a in st.names:
                if a.name == '*':
                    self.stars.append(mod)
                else:
                    add(a.asname or a.name, ('from', mod, a.name))
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    add(t.id, st)
                elif isinstance(t, (ast.Tuple, ast.List)):
                    for e in t.elts:
                        if isinstance(e, ast.Name):
                            add(e.id, ('unpack', st))
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
            add(st.target.id, st)
        elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
            add(st.target.id, ('opaque', st))
        elif isinstance(st, ast.If) and isinstance(st.test, ast.Name) and st.test.id in ('PY3', 'PY3_OR_LATER', 'PY2'):
            for sub in (st.orelse if st.test.id == 'PY2' else st.body):
                self._bind(sub)
        elif isinstance(st, (ast.If, ast.Try)):
            for sub in ast.walk(st):
                if sub is not st and isinstance(sub, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom,
                                                      ast.Assign)):
                    self._bind(sub)


class Interp(object):
    MAXPATHS = 3000
    MAXDEPTH = 60
    light = True

    def __init__(self, repo=None, contracts=None):
        self.repo = repo or REPO
        self.modules = {}
        self.journal = []
        self.heap = {}
        self.pc = []
        self.script = []
        self.pos = 0
        self.conds = []
        self.counter = 0
        self.ctxid = ''
        self.stampno = self.permanent = self.permanentno = 0
        self.mark_shared = False
        self.named = {}                 # tuples with names: id -> (tuple, names)
        self.in_call = False            # the code under contract is running (not its specification)
        self.state = {}                 # what it reads or writes that outlives the call: name -> how
        self.state_allowed = set()      # what its contract speaks of
        self.stack = []
        self.hooks = {}        # qualname -> callable(I, args, kwargs) (callee contracts)
        self.used_contracts = set()
        self.inlined = set()
        self.overrides = {}    # 'module.name' -> value
        self.assumptions_used = set()
        self.lemmas_used = set()
        self.number_texts = {}
        self.effects = None    # HList of effects on symbolic (non heap) values
        self.total_calls = False
        self.deadline = None
        self.classes = {}
        solver.RESOLVE_HREF[0] = lambda t: self.freeze(self.heap[t.args[0]])

    # ---------------------------------------------------------------- state

    def newstamp(self):
        if self.permanent:  # the globals of modules outlive the exploration of one path: their stamps are never reused
            self.permanentno -= 1
            return self.permanentno
        self.stampno += 1
        return self.stampno

    def put(self, d, k, v):
        self.journal.append((d, k, d.get(k, MISSING)))
        d[k] = v

    def delete(self, d, k):
        self.journal.append((d, k, d.get(k, MISSING)))
        del d[k]

    def rollback(self, mark):
        while len(self.journal) > mark:
            d, k, old = self.journal.pop()
            if old is MISSING:
                d.pop(k, None)
            else:
                d[k] = old

    def fresh(self, prefix='x', ty=None, sort='U'):
        self.counter += 1
        return sym('%s~%s%d' % (prefix, self.ctxid, self.counter), sort, ty)

    def outlives(self, name, how):
        """state that a call leaves to the following ones"""
        if self.in_call and not self.permanent and name not in self.state_allowed:
            self.state.setdefault(name, how)

    def setnode(self, obj, node):
        if obj.detached:
            raise Unsupported('mutation of an element of a summarised collection')
        if obj.stamp < 0:
            self.outlives(obj.name or 'a container', 'changed')
        self.put(obj.f, 'node', node)

    def effect(self, *parts):
        if self.effects is None:
            raise Unsupported('mutation of a value outside of the modelled heap')
        self.setnode(self.effects, scat(self.effects.f['node'], lit(tup(*parts))))

    # ---------------------------------------------------------------- branching

    def assume(self, b):
        if b is FALSE:
            raise Infeasible()
        if b.op == 'and':
            for a in b.args:
                self.assume(a)
        elif b is not TRUE and b not in self.pc:
            self.pc.append(b)

    def implied(self, b):
        """True/False/None"""
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        if b in self.pc:
            return True
        if Not(b) in self.pc:
            return False
        if b.op == 'and' and all(self.implied(a) for a in b.args):
            return True
        return None

    def branch(self, b, record=True):
        if self.deadline is not None:
            import time
            if time.time() > self.deadline:
                raise Unsupported('time budget exhausted')
        b = self.formula(b)
        r = self.implied(b)
        if r is not None:
            return r
        if self.pos < len(self.script):
            d, rec = self.script[self.pos]
        else:
            t = check(self.pc + [b], light=self.light)
            f = check(self.pc + [Not(b)], light=self.light)
            if t == 'unsat' and f == 'unsat':
                raise Infeasible()
            if t == 'unsat':
                d, rec = False, False
            elif f == 'unsat':
                d, rec = True, False
            else:
                d, rec = True, True
            self.script.append([d, rec])
        self.pos += 1
        if rec:
            self.conds.append((b, d))
        self.assume(b if d else Not(b))
        return d

    def choose(self, n):
        raise NotImplementedError

    def explore(self, thunk, sub=False):
        """Runs thunk on all paths; yields results of thunk() as list of (conds, result). State is rolled back."""
        saved = (self.script, self.pos, self.conds, self.counter, self.ctxid)
        pclen = len(self.pc)
        mark = len(self.journal)
        stamp0 = self.stampno
        results = []
        script = []
        try:
            while True:
                self.script, self.pos, self.conds = script, 0, []
                self.counter = saved[3]
                self.ctxid = saved[4]
                self.stampno = stamp0
                try:
                    r = thunk()
                    results.append((list(self.conds), r))
                except Infeasible:
                    pass
                finally:
                    self.rollback(mark)
                    del self.pc[pclen:]
                if len(results) > self.MAXPATHS:
                    raise Unsupported('too many paths')
                # next
                del script[self.pos:]
                while script and not (script[-1][0] is True and script[-1][1]):
                    script.pop()
                if not script:
                    break
                script[-1] = [False, True]
        finally:
            self.script, self.pos, self.conds, self.counter, self.ctxid = saved
            self.counter += 50 if sub else 0
        return results

    # ---------------------------------------------------------------- conversions

    def formula(self, v):
        """truth value, as a B term"""
        if isinstance(v, T):
            if v.sort in 'BI':
                return truthy(v)
            if v.op == 'href':
                return self.formula(self.heap[v.args[0]])
            return truthy(v)
        if isinstance(v, (HList, HSet)):
            return nonempty(v.f['node'])
        if isinstance(v, HDict):
            return nonempty(keys(v.f['node']))
        if isinstance(v, HInst):
            m = self.class_lookup(v.cls, '__bool__') or self.class_lookup(v.cls, '__nonzero__')
            if m is not None:
                return self.formula(self.call(BoundV(m, v), [], {}))
            m = self.class_lookup(v.cls, '__len__')
            if m is not None:
                return self.formula(self.call(BoundV(m, v), [], {}))
            return TRUE
        return TRUE

    def tou(self, v):
        """Value as a U term, to be stored in containers (keeps references)"""
        if isinstance(v, T):
            return box(v)
        if isinstance(v, (HObj, ClsV, ModV, ExtV)):
            return v.t
        if isinstance(v, ExcV):
            return app('exception:' + v.cls, *[self.tou(a) for a in v.args])
        if isinstance(v, BoundV):
            return app('bound', self.tou(v.func), self.tou(v.selfv), ty='func')
        if isinstance(v, MethodV):
            return app('method:' + v.name, self.tou(v.selfv), ty='func')
        raise Unsupported('cannot store %r' % (v,))

    def thaw(self, t):
        if not isinstance(t, T):
            return t
        if t.op == 'href':
            return self.heap[t.args[0]]
        if t.op == 'app' and t.args[0].startswith('class:') and len(t.args) == 1:
            n = t.args[0][6:]
            if n in self.classes:
                return self.classes[n]
            return ClsV(n)
        if t.op == 'app' and t.args[0].startswith('ext:'):
            return ExtV(t.args[0][4:])
        if t.op == 'ite' and t.hrefs:
            return self.thaw(t.args[1] if self.branch(t.args[0]) else t.args[2])
        if t.op == 'seqv' and t.args[0] in ('list', 'set', 'frozenset', 'iter'):
            o = {'list': HList, 'iter': HIter}.get(t.args[0], HSet)(self, node=t.args[1])
            if t.args[0] == 'frozenset':
                o.f['frozen'] = True
            o.detached = True
            return o
        if t.op == 'dictv':
            o = HDict(self, node=t.args[1], cls=t.args[0])
            o.detached = True
            return o
        if t.op == 'new' and t.args[0] in self.classes:
            names = t.args[1]
            o = HInst(self, self.classes[t.args[0]])
            for n, v in zip(names, t.args[2:]):
                o.f[n] = v
            o.detached = True
            return o
        return t

    def freeze(self, v, ident=False, _seen=()):
        """Value as a U term without references. If ident, objects of the pre-state are kept by name."""
        if isinstance(v, T):
            if v.sort in 'BI':
                return box(v)
            return self.freeze_term(v, ident, _seen)
        if isinstance(v, HObj):
            if ident and v.name is not None:
                return app('old:' + v.name)
            if v.stamp in _seen:
                return app('cycle')
            if self.mark_shared and v.stamp < 0 and (isinstance(v, (HList, HDict)) or
                                                     isinstance(v, HSet) and not v.f.get('frozen')):
                # part of the state of the modules: handing it out is not the same as handing out a copy
                self.mark_shared = False
                try:
                    return app('shared', self.freeze(v, ident, _seen))
                finally:
                    self.mark_shared = True
            _seen = _seen + (v.stamp,)
            if isinstance(v, HList):
                return seqv('list', self.freeze_term(v.f['node'], ident, _seen))
            if isinstance(v, HSet):
                return seqv('frozenset' if v.f.get('frozen') else 'set', self.freeze_term(v.f['node'], ident, _seen))
            if isinstance(v, HIter):
                if v.failing is not None:
                    raise Unsupported('generator that may fail, as a value')
                return seqv('iter', self.freeze_term(v.f['node'], ident, _seen))
            if isinstance(v, HDict):
                d = dictv(v.f.get('cls', 'dict'), self.freeze_term(v.f['node'], ident, _seen))
                extra = {k: x for k, x in v.f.items() if k not in ('node', 'cls')}
                if extra:
                    return new('dictsubclass', dict({k: self.freeze(x, ident, _seen) for k, x in extra.items()}, d_=d))
                return d
            if isinstance(v, HInst):
                return new(v.cls.name, {k: self.freeze(x, ident, _seen) for k, x in v.f.items()})
            if isinstance(v, FuncV):
                attrs = {k: self.freeze(x, ident, _seen) for k, x in v.f.items()}
                return app('func:%s' % v.qualname, *[x for k in sorted(attrs) for x in (const(k), attrs[k])])
            if isinstance(v, PartialV):
                return new('partial', dict({'func_': self.freeze(v.func, ident, _seen),
                                            'args_': tup(*[self.freeze(a, ident, _seen) for a in v.args])},
                                           **{'kw:' + k: self.freeze(x, ident, _seen) for k, x in v.kwargs.items()}))
        if isinstance(v, (ClsV, ModV, ExtV)):
            return v.t
        if isinstance(v, BoundV):
            return app('bound', self.freeze(v.func, ident, _seen), self.freeze(v.selfv, ident, _seen), ty='func')
        if isinstance(v, MethodV):
            return app('method:' + v.name, self.freeze(v.selfv, ident, _seen), ty='func')
        if isinstance(v, ExcV):
            return app('exception:' + v.cls)
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        raise Unsupported('cannot freeze %r' % (v,))

    def freeze_term(self, t, ident=False, _seen=()):
        if not t.hrefs:
            return t
        m = {}

        def collect(t):
            if t.op == 'href':
                if t not in m:
                    m[t] = self.freeze(self.heap[t.args[0]], ident, _seen)
                return
            for a in t.args:
                if isinstance(a, T) and a.hrefs:
                    collect(a)
        collect(t)
        return subst(t, m)

    def arg(self, v):
        """Value as argument of an uninterpreted function: content, no references"""
        return self.freeze(v)

    # ---------------------------------------------------------------- modules

    def module(self, name):
        m = self.modules.get(name)
        if m is None:
            base = os.path.join(self.repo, *name.split('.'))
            for p in (base + '.py', os.path.join(base, '__init__.py')):
                if os.path.isfile(p):
                    m = self.modules[name] = Module(name, p)
                    break
            else:
                raise Unsupported('no module %s' % name)
        return m

    def is_repo_module(self, name):
        return name == 'whatami' or name.startswith('whatami.')

    def module_global(self, m, name, upto=None):
        key = m.name + '.' + name
        if self.in_call and name in m.written and key not in self.overrides:
            if name in m.bindings and not isinstance(m.bindings[name][-1], (tuple, ast.FunctionDef, ast.ClassDef)):
                self.outlives(name, 'read, and changed by some function')
        if name in m.vars and upto is None:
            return m.vars[name]
        if key in self.overrides and upto is None:
            return self.overrides[key]
        if name in m.bindings:
            bs = m.bindings[name]
            n = len(bs) if upto is None else upto
            if n == 0:
                raise KeyError(name)
            self.permanent += 1
            try:
                v = self.eval_binding(m, name, bs[n - 1], n - 1)
            finally:
                self.permanent -= 1
            if upto is None:
                m.vars[name] = v
            return v
        for s in m.stars:
            if self.is_repo_module(s):
                try:
                    return self.module_global(self.module(s), name)
                except KeyError:
                    continue
        if self.is_repo_module(m.name + '.' + name):
            try:
                self.module(m.name + '.' + name)
                return ModV(m.name + '.' + name)
            except Unsupported:
                pass
        raise KeyError(name)

    def eval_binding(self, m, name, b, idx):
        if isinstance(b, ast.FunctionDef):
            env = Env(module=m)
            f = self.make_function(b, env, b.name)
            return self.apply_decorators(b, f, env)
        if isinstance(b, ast.ClassDef):
            return self.make_class(b, m)
        if isinstance(b, tuple):
            if b[0] == 'mod':
                return self.import_module(b[1])
            if b[0] == 'from':
                return self.import_from(b[1], b[2])
            raise Unsupported('module level %s' % name)
        env = Env(module=m)
        env.upto = {name: idx}
        # purely module level: evaluate without branching leftovers
        return self.eval(b.value, env)

    def import_module(self, name):
        if self.is_repo_module(name):
            return ModV(name)
        return ExtV(name)

    def import_from(self, mod, name):
        if self.is_repo_module(mod):
            try:
                return self.module_global(self.module(mod), name)
            except KeyError:
                raise Unsupported('cannot import %s from %s' % (name, mod))
        return self.extval(mod + '.' + name)

    def extval(self, full):
        if full in EXTCLASSES:
            return ClsV(EXTCLASSES[full])
        if full == 'sys.version_info':
            return tup(*[const(x) for x in (3, 9, 18, 'final', 0)])     # the interpreter of the sandbox
        if full == 'sys.modules':
            return app('sys.modules', ty='dict')
        if full in ('future.utils.PY3',):
            return const(True)
        if full in ('future.utils.PY2',):
            return const(False)
        if full in ('future.utils.string_types',):
            return tup(ClsV('str').t)
        if full.startswith('builtins.'):
            n = full[9:]
            if n in BUILTIN_CLASSES:
                return ClsV(n)
        return ExtV(full)

    # ---------------------------------------------------------------- classes and functions

    def make_class(self, node, m, env=None):
        c = ClsV(node.name, node, m)
        c.env = Env(parent=env, module=m)
        c.ns = {}
        self.classes[node.name] = c
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                f = self.make_function(st, Env(parent=env, module=m), node.name + '.' + st.name, owner=c)
                for d in st.decorator_list:
                    if isinstance(d, ast.Name) and d.id in ('property', 'staticmethod', 'classmethod'):
                        f.fkind = d.id
                    elif isinstance(d, ast.Attribute) and d.attr in ('setter', 'deleter'):
                        raise Unsupported('property setter')
                    else:
                        f.fkind = 'decorated'
                c.ns[st.name] = f
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                c.ns[st.targets[0].id] = ('lazy', st.value)
        return c

    def class_bases(self, c):
        if c.info is None:
            return []
        if not hasattr(c, '_bases'):
            out = []
            for b in c.info.bases:
                if isinstance(b, ast.Call):
                    continue       # with_metaclass(...)
                try:
                    v = self.eval(b, c.env)
                except Unsupported:
                    continue
                out.append(v if isinstance(v, ClsV) else ClsV(getattr(v, 'name', '?')))
            c._bases = out
        return c._bases

    def class_lookup(self, c, name):
        if c.info is not None:
            if name in c.f:
                return c.f[name]
            if name in c.ns:
                v = c.ns[name]
                if isinstance(v, (HList, HDict, HSet)) or isinstance(v, tuple) and isinstance(v[1], (
                        ast.List, ast.Dict, ast.Set, ast.Call)):
                    if c.module is not None and '.' + name in c.module.written:
                        self.outlives('%s.%s' % (c.name, name), 'read, and changed by some function')
                if isinstance(v, tuple) and v[0] == 'lazy':
                    key = '%s.%s' % (c.name, name)
                    if key in self.overrides:
                        v = self.overrides[key]
                    else:
                        env = Env(parent=None, module=c.module)
                        env.classns = c
                        self.permanent += 1
                        try:
                            v = self.eval(v[1], env)
                        finally:
                            self.permanent -= 1
                    c.ns[name] = v
                return v
            for b in self.class_bases(c):
                v = self.class_lookup(b, name)
                if v is not None:
                    return v
        return None

    def subclass_of(self, c, name):
        if c.name == name or name == 'object':
            return True
        if c.info is None:
            return name in solver.superclasses(c.name)
        return any(self.subclass_of(b, name) for b in self.class_bases(c))

    def make_function(self, node, env, qualname, owner=None):
        f = FuncV(self, node, env, env.module, (env.module.name + '.' if env.module else '') + qualname, owner)
        a = node.args
        f.defaults = [self.eval(d, env) for d in a.defaults]
        f.kwdefaults = {k.arg: self.eval(d, env) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        f.genfn = not isinstance(node, ast.Lambda) and any(
            isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node))
        return f

    def apply_decorators(self, node, f, env):
        for d in reversed(node.decorator_list):
            dv = self.eval(d, env)
            f = self.call(dv, [f], {})
        return f

    def bind(self, f, args, kwargs, kwd=None):
        """args: list of values or ('*', S) ; kwargs: dict name -> value; kwd: D term of further symbolic keywords"""
        a = f.node.args
        params = [p.arg for p in getattr(a, 'posonlyargs', [])] + [p.arg for p in a.args]
        out = {}
        fixed = []
        star = None
        for x in args:
            if isinstance(x, tuple) and x[0] == '*':
                star = x[1] if star is None else scat(star, x[1])
            elif star is not None:
                star = scat(star, lit(self.tou(x)))
            else:
                fixed.append(x)
        if star is not None and star.op == 'lit':
            fixed += [self.thaw(t) for t in star.args]
            star = None
        for i, x in enumerate(fixed):
            if i < len(params):
                out[params[i]] = x
        rest = fixed[len(params):]
        if star is not None:
            if len(fixed) < len(params):
                raise Unsupported('symbolic *args bound to named parameters')
        if a.vararg is not None:
            s = lit(*[self.tou(r) for r in rest])
            if star is not None:
                s = scat(s, star)
            out[a.vararg.arg] = seqv('tuple', s)
        elif rest or star is not None:
            if star is not None and self.branch(Not(nonempty(star))) and not rest:
                pass
            else:
                self.raise_('TypeError')
        kwonly = [p.arg for p in a.kwonlyargs]
        extra = []
        for k, v in kwargs.items():
            if k in params or k in kwonly:
                if k in out:
                    self.raise_('TypeError')
                out[k] = v
            else:
                extra.append((k, v))
        if kwd is not None:
            for p in params + kwonly:
                if p not in out:
                    if self.branch(has(kwd, const(p))):
                        out[p] = self.thaw(dget(kwd, const(p)))
                        kwd = ddel(kwd, const(p))
                elif self.branch(has(kwd, const(p))):
                    self.raise_('TypeError')
        if a.kwarg is not None:
            d = kwd if kwd is not None else DEMPTY
            for k, v in extra:
                d = upd(d, const(k), self.tou(v))
            out[a.kwarg.arg] = HDict(self, node=d, cls='dict')
        elif extra:
            self.raise_('TypeError')
        elif kwd is not None and self.branch(nonempty(keys(kwd))):
            self.raise_('TypeError')
        nd = len(f.defaults)
        for i, p in enumerate(params):
            if p not in out:
                j = i - (len(params) - nd)
                if j < 0:
                    self.raise_('TypeError')
                out[p] = f.defaults[j]
        for p in kwonly:
            if p not in out:
                if p not in f.kwdefaults:
                    self.raise_('TypeError')
                out[p] = f.kwdefaults[p]
        return out

    def call_function(self, f, args, kwargs, kwd=None):
        hook = self.hooks.get(f.qualname)
        if hook is not None and not (self.stack and self.stack[-1] == ('verifying', f.qualname)):
            self.used_contracts.add(f.qualname)
            return hook(self, f, args, kwargs, kwd)
        if sum(1 for s in self.stack if s == f.qualname) >= 1 and self.is_recursive(f) and \
                f.fname != '__getattribute__':
            raise Unsupported('recursion without a contract: %s' % f.qualname)
        if len(self.stack) > self.MAXDEPTH:
            raise Unsupported('call depth')
        if f.genfn:
            raise Unsupported('generator function %s' % f.qualname)
        self.inlined.add(f.qualname)
        env = Env(parent=f.env, module=f.module, func=f)
        bound = self.bind(f, args, kwargs, kwd)
        env.vars.update(bound)
        self.stack.append(f.qualname)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            try:
                self.exec_block(f.node.body, env)
            except Ret as r:
                return r.val
            return NONE
        finally:
            self.stack.pop()

    def is_recursive(self, f):
        return True

    # ---------------------------------------------------------------- exceptions

    def raise_(self, cls, *args):
        raise PyExc(ExcV(cls, args))

    def exc_matches(self, exc, spec):
        """exc: ExcV or T; spec: class value(s)"""
        if isinstance(spec, T) and spec.op == 'tup':
            return any(self.exc_matches(exc, self.thaw(s)) for s in spec.args)
        if isinstance(spec, T) and spec.op == 'app' and spec.args[0].startswith('class:'):
            name = spec.args[0][6:]
        elif isinstance(spec, (ClsV, ExtV)):
            name = spec.name.split('.')[-1]
        else:
            raise Unsupported('except %r' % (spec,))
        if isinstance(exc, ExcV):
            return exc.cls == name or name in solver.superclasses(exc.cls) or name == 'BaseException'
        if name == 'BaseException':
            return True
        return self.branch(pred('isinst:' + name, exc))

    # ---------------------------------------------------------------- statements

    def exec_block(self, body, env):
        for st in body:
            self.exec(st, env)

    def exec(self, st, env):
        m = getattr(self, 'x_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(st).__name__)
        return m(st, env)

    def x_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, env)

    def x_Pass(self, st, env):
        pass

    def x_Return(self, st, env):
        raise Ret(self.eval(st.value, env) if st.value is not None else NONE)

    def x_If(self, st, env):
        if self.branch(self.eval_cond(st.test, env)):
            self.exec_block(st.body, env)
        else:
            self.exec_block(st.orelse, env)

    def x_Break(self, st, env):
        raise Brk()

    def x_Continue(self, st, env):
        raise Cont()

    def x_Assert(self, st, env):
        if not self.branch(self.eval_cond(st.test, env)):
            self.raise_('AssertionError')

    def x_Global(self, st, env):
        env.globals_decl.update(st.names)

    def x_Nonlocal(self, st, env):
        env.nonlocals.update(st.names)

    def x_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def x_AugAssign(self, st, env):
        t = st.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, env)
            self.assign(t, self.augop(st.op, old, self.eval(st.value, env)), env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.augop(st.op, old, self.eval(st.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval(t.slice, env)
            old = self.getitem(o, k)
            self.setitem(o, k, self.augop(st.op, old, self.eval(st.value, env)))
        else:
            raise Unsupported('augmented assignment')

    def augop(self, op, old, v):
        if isinstance(old, HList) and isinstance(op, ast.Add):
            self.setnode(old, scat(old.f['node'], self.seq(v)))
            return old
        if isinstance(old, HSet) and not old.f.get('frozen') and isinstance(op, ast.BitOr):
            self.setnode(old, scat(old.f['node'], self.seq(v)))
            return old
        return self.binop(op, old, v)

    def x_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.delete(env.vars, t.id)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.eval(t.value, env), self.eval(t.slice, env))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env)
                if isinstance(o, HInst) and t.attr in o.f:
                    self.delete(o.f, t.attr)
                else:
                    raise Unsupported('del attribute')
            else:
                raise Unsupported('del')

    def x_FunctionDef(self, st, env):
        outer = env.func.qualname.split(':')[0] if env.func is not None else ''
        q = (outer[len(env.module.name) + 1:] + '.<locals>.' if outer else '') + st.name
        f = self.make_function(st, env, q)
        self.store(st.name, f, env)
        if st.decorator_list:
            self.store(st.name, self.apply_decorators(st, f, env), env)

    def x_ImportFrom(self, st, env):
        mod = st.module or ''
        if st.level:
            base = env.module.name.split('.')
            if not env.module.path.endswith('__init__.py'):
                base = base[:-1]
            base = base[:len(base) - (st.level - 1)]
            mod = '.'.join(base + ([mod] if mod else []))
        for a in st.names:
            self.store(a.asname or a.name, self.import_from(mod, a.name), env)

    def x_Import(self, st, env):
        for a in st.names:
            self.store(a.asname or a.name.split('.')[0], self.import_module(a.name if a.asname else
                                                                          a.name.split('.')[0]), env)

    def x_Raise(self, st, env):
        if st.exc is None:
            cur = self.current_exc[-1] if getattr(self, 'current_exc', None) else None
            if cur is None:
                raise Unsupported('bare raise')
            raise PyExc(cur)
        if isinstance(st.exc, ast.Call) and not st.exc.keywords and st.exc.args and all(map(is_message, st.exc.args)):
            # the message of an error is not part of any contract
            v = self.eval(st.exc.func, env)
            if isinstance(v, ClsV) and v.info is None and (v.name in solver.SUBCLASS or v.name == 'BaseException'):
                self.assumptions_used.add('building the message of an exception does not raise and has no effects')
                raise PyExc(ExcV(v.name))
        v = self.eval(st.exc, env)
        if isinstance(v, ClsV):
            v = ExcV(v.name)
        if isinstance(v, (ExtV,)):
            v = ExcV(v.name.split('.')[-1])
        if isinstance(v, ExcV) or isinstance(v, T):
            raise PyExc(v)
        raise Unsupported('raise %r' % (v,))

    def x_Try(self, st, env):
        if not hasattr(self, 'current_exc'):
            self.current_exc = []

        def main():
            try:
                self.exec_block(st.body, env)
            except PyExc as e:
                for h in st.handlers:
                    if h.type is None or self.exc_matches(e.val, self.eval(h.type, env)):
                        if h.name:
                            self.store(h.name, e.val, env)
                        self.current_exc.append(e.val)
                        n = len(self.current_exc)
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            del self.current_exc[n - 1:]
                        return
                raise
            self.exec_block(st.orelse, env)
        if st.finalbody:
            try:
                main()
            except (PyExc, Ret, Brk, Cont):
                self.exec_block(st.finalbody, env)
                raise
            self.exec_block(st.finalbody, env)
        else:
            main()

    def x_For(self, st, env):
        it = self.eval(st.iter, env)

        def body(v):
            self.assign(st.target, v, env)
            self.exec_block(st.body, env)
        broke = self.iterate(it, body)
        if not broke:
            self.exec_block(st.orelse, env)

    def x_While(self, st, env):
        # only loops that terminate syntactically along every path in a few iterations
        for _ in range(12):
            if not self.branch(self.eval_cond(st.test, env)):
                self.exec_block(st.orelse, env)
                return
            try:
                self.exec_block(st.body, env)
            except Cont:
                pass
            except Brk:
                return
        raise Unsupported('while loop')

    def x_With(self, st, env):
        raise Unsupported('with')

    def x_ClassDef(self, st, env):
        self.store(st.name, self.make_class(st, env.module, env), env)

    # ---------------------------------------------------------------- loops

    def iterate(self, it, body):
        """for v in it: body(v); generators are consumed as they go"""
        if isinstance(it, T):
            it = self.thaw(it)
        if isinstance(it, HIter) and it.failing is not None:
            drive = it.failing[1]
            it.failing = (None, None)
            if drive is None:
                raise Unsupported('generator consumed twice')
            return drive(body)
        return self.loop(self.seq(it), body)

    def lazily(self, out, drive):
        """the iterator of what drive goes through: evaluated at once, unless that raises an exception"""
        try:
            drive(lambda v: self.setnode(out, scat(out.f['node'], lit(self.tou(v)))))
        except PyExc as e:
            out.failing = e, drive
        return out

    def again(self, it):
        """the means to go several times through what `it` gives once"""
        if isinstance(it, T):
            it = self.thaw(it)
        if isinstance(it, HIter) and it.failing is not None:
            failing, it.failing = it.failing, (None, None)

            def copy():
                o = HIter(self, node=EMPTY)
                o.failing = failing
                return o
            return copy
        s = seqv('iter', self.seq(it))
        return lambda: s

    def consume(self, it, body, default):
        """go through a failing iterator until body returns something"""
        def step(v):
            r = body(v)
            if r is not None:
                raise Ret(r)
        try:
            self.iterate(it, step)
        except Ret as r:
            return r.val
        return default()

    def loop(self, s, body):
        """True if broken"""
        if s.op == 'lit':
            for t in s.args:
                try:
                    body(self.thaw(t))
                except Cont:
                    continue
                except Brk:
                    return True
            return False
        if s.op == 'scat':
            for p in s.args:
                if self.loop(p, body):
                    return True
            return False
        if s.op == 'ite':
            return self.loop(s.args[1] if self.branch(s.args[0]) else s.args[2], body)
        if s.op == 'flat':
            b, l = s.args

            def inner(x):
                if self.loop(inst(l, self.tou(x)), body):
                    raise Brk()
            return self.loop_base(b, inner)
        return self.loop_base(s, body)

    def loop_base(self, base, body):
        mark = len(self.journal)
        stamp0 = self.stampno
        self.counter += 1
        xname = 'e~%s%d' % (self.ctxid, self.counter)
        x = sym(xname)
        saved_ctx = self.ctxid
        envs_before = None

        def run():
            n = len(self.journal)
            self.assume(memf(base, x))
            exit_ = None
            try:
                body(x)
            except Cont:
                pass
            except (Brk, Ret, PyExc) as e:
                exit_ = e
            locs = {}
            for d, k, old in self.journal[n:]:
                locs[(id(d), k)] = (d, k)
            return exit_, {lk: (d, k, d.get(k, MISSING)) for lk, (d, k) in locs.items()}

        owner = {}

        def preexisting(d):
            # the containers that existed before the loop: we recognise them because they survive rollback
            return True

        self.ctxid = saved_ctx + '%d.' % self.counter
        try:
            known = {}
            accs = {}
            for attempt in range(6):
                mk0 = len(self.journal)
                live = self._live_containers()
                # havoc
                for lk, (d, k, v0) in known.items():
                    acc = accs.get(lk)
                    if acc is None:
                        if isinstance(v0, T) and v0.sort in 'SD':
                            acc = sym('acc~%s%d' % (self.ctxid, len(accs)), v0.sort)
                        elif v0 is MISSING:
                            acc = Poison('loop-carried variable %s' % (k,))
                        else:
                            acc = sym('acc~%s%d' % (self.ctxid, len(accs)))
                        accs[lk] = acc
                    self.put(d, k, acc)
                paths = []

                def thunk():
                    exit_, locs = run()
                    # freeze what was created in this iteration
                    fin = {}
                    for lk, (d, k, v) in locs.items():
                        if id(d) not in live:
                            continue
                        fin[lk] = (d, k, self._close(v, stamp0))
                    return exit_, fin
                paths = self.explore(thunk, sub=True)
                self.rollback(mk0)
                grew = False
                for conds, (exit_, fin) in paths:
                    for lk, (d, k, v) in fin.items():
                        if lk not in known:
                            known[lk] = (d, k, d.get(k, MISSING))
                            grew = True
                if not grew:
                    break
            else:
                raise Unsupported('loop frame does not stabilise')
        finally:
            self.ctxid = saved_ctx
        if not paths:
            # the body is infeasible for any element: the sequence must be empty
            self.assume(Not(nonempty(base)))
            return False
        accsyms = [a for a in accs.values() if isinstance(a, T)]

        # --- contributions
        def tree(ps, leaf, i=0):
            if len(ps) == 1 and len(ps[0][0]) == i:
                return leaf(ps[0][1])
            F = ps[0][0][i][0]
            a = [p for p in ps if p[0][i][1]]
            b = [p for p in ps if not p[0][i][1]]
            if not a:
                return tree(b, leaf, i + 1)
            if not b:
                return tree(a, leaf, i + 1)
            return Ite(F, tree(a, leaf, i + 1), tree(b, leaf, i + 1))

        contrib = {}
        # the state is only needed at points where no previous element has exited the loop
        stay = [p for p in paths if p[1][0] is None]
        for lk, (d, k, v0) in known.items():
            acc = accs[lk]
            if isinstance(acc, T) and acc.sort == 'S':
                def leaf(r, lk=lk, acc=acc):
                    if r[0] is not None or lk not in r[1]:
                        return EMPTY
                    v = r[1][lk][2]
                    if v is acc:
                        return EMPTY
                    if v.op == 'scat' and v.args[0] is acc:
                        return scat(*v.args[1:])
                    raise Unsupported('sequence accumulator not in append form')
                contrib[lk] = ('S', tree(stay, leaf) if stay else EMPTY)
            elif isinstance(acc, T) and acc.sort == 'D':
                modes = set()

                def leaf(r, lk=lk, acc=acc):
                    if r[0] is not None or lk not in r[1]:
                        return EMPTY
                    v = r[1][lk][2]
                    out = []
                    while v is not acc:
                        if v.op == 'upd':
                            out.append(lit(tup(v.args[1], v.args[2])))
                            modes.add('upd')
                        elif v.op == 'merge':
                            out.append(items(v.args[1]))
                            modes.add('upd')
                        elif v.op == 'frompairs':
                            out.append(v.args[1])
                            modes.add('upd')
                        elif v.op == 'ddel':
                            out.append(lit(v.args[1]))
                            modes.add('del')
                        else:
                            raise Unsupported('dictionary accumulator not in update form')
                        v = v.args[0]
                    return scat(*out[::-1])
                c = tree(stay, leaf) if stay else EMPTY
                if modes == {'del'}:
                    c = self._drop_presence_tests(c, acc)
                if len(modes) > 1:
                    raise Unsupported('dictionary with updates and deletions in a loop')
                contrib[lk] = self._item_fold(c, acc, x, accsyms) or ('Ddel' if 'del' in modes else 'D', c)

        # --- exits
        E = tree(paths, lambda r: boxb(TRUE) if r[0] is not None else boxb(FALSE))
        E = truthy(E)

        # --- eliminate accumulators from conditions and contributions
        def dkeys(c, pairs=True):
            out = []

            def go(c):
                if c.op == 'ite':
                    go(c.args[1])
                    go(c.args[2])
                elif c.op == 'scat':
                    for a in c.args:
                        go(a)
                elif c.op == 'lit':
                    for a in c.args:
                        out.append(item(a, 0) if pairs else a)
                elif c.op == 'flat':
                    out.append(None)
            go(c)
            return out

        def closed(lk, bs):
            """state of the accumulator after processing sequence bs"""
            d, k, v0 = known[lk]
            kind, c = contrib[lk]
            init = v0
            if kind == 'S':
                return scat(init, flat(bs, lam(x, c)))
            if kind == 'D':
                return frompairs(init, flat(bs, lam(x, c)))
            if kind == 'Dfold':
                key, a, tr = c
                if not self.implied(has(init, key)):
                    raise Unsupported('item updated in a loop may not exist')
                return upd(init, key, mk('fold', (lam(a, mk('pairlam', (lam(x, tr),), 'U')), dget(init, key), bs), 'U'))
            y = fresh('k')
            z = fresh('k')
            return dcomp(init, lam(y, tup(boxb(Not(exists(flat(bs, lam(x, c)), lam(z, eq(z, y))))), dget(init, y))))

        def elim(t):
            """replaces accumulators by their value before the current element"""
            for _ in range(3):
                bad = [lk for lk, a in accs.items() if isinstance(a, T) and occurs(a, t)]
                if not bad:
                    return t
                for lk in bad:
                    a = accs[lk]
                    if a.sort not in 'SD':
                        raise Unsupported('condition depends on a loop-carried value')
                    d, k, v0 = known[lk]
                    if a.sort == 'D' and contrib[lk][0] in ('D', 'Ddel') and distinct(base) and \
                            all(q is x for q in dkeys(contrib[lk][1], contrib[lk][0] == 'D')):
                        # keys inserted or deleted are the (distinct) elements: the current one has not been touched yet
                        t2 = replace_lookups(t, a, x, v0)
                        if not occurs(a, t2):
                            t = t2
                            continue
                    if contrib[lk][0] != 'Dfold' and \
                            any(isinstance(b, T) and occurs(b, contrib[lk][1]) for b in accs.values()):
                        raise Unsupported('contribution depends on the accumulator')
                    t = subst(t, {a: closed(lk, before(base, x))})
            raise Unsupported('accumulators cannot be eliminated')

        folds = {}
        for lk in list(contrib):
            kind, c = contrib[lk]
            contrib[lk] = (kind, elim(c) if kind != 'Dfold' else c)
        fold_exit = False
        ebad = [a for a in accsyms if a.sort == 'U' and occurs(a, E)]
        if not ebad:
            E = elim(E)
        else:
            fold_exit = True

        # scalars
        scal = {}
        for lk, (d, k, v0) in known.items():
            acc = accs[lk]
            if lk in contrib:
                continue

            finals = []

            def leaf(r, lk=lk, acc=acc):
                if r[0] is not None:
                    return acc if isinstance(acc, T) else app('undef')
                v = r[1][lk][2] if lk in r[1] else acc
                if isinstance(v, Poison) or v is MISSING:
                    return app('undef')
                if not isinstance(v, T):
                    finals.append(v)
                    return app('undef')
                finals.append(v)
                return box(v)
            try:
                tr = tree(stay, leaf) if stay else acc
            except Unsupported:
                tr = None
            scal[lk] = (tr, finals)

        def scalar_after(lk, bs):
            d, k, v0 = known[lk]
            acc = accs[lk]
            tr, finals = scal[lk]
            if tr is None or not isinstance(acc, T) or v0 is MISSING:
                return Poison('value of %s after the loop' % (k,))
            if tr is acc:
                return v0
            if any(not isinstance(v, T) for v in finals):
                return Poison('value of %s after the loop' % (k,))
            if not isinstance(v0, T):
                try:
                    v0 = self.freeze(v0)
                except Unsupported:
                    return Poison('value of %s after the loop' % (k,))
            v0 = box(v0)
            # set to a constant in some iteration?
            consts = {v for v in finals if v is not acc}
            if len(consts) == 1 and not occurs(x, list(consts)[0]) and not any(
                    isinstance(a, T) and occurs(a, list(consts)[0]) for a in accs.values()):
                c = list(consts)[0]
                cond = truthy(tree(paths, lambda r: boxb(TRUE if r[0] is None and lk in r[1] and
                                                         r[1][lk][2] is c else FALSE)))
                try:
                    return Ite(exists(bs, lam(x, elim(cond))), c, v0)
                except Unsupported:
                    pass
            if any(isinstance(a, T) and a is not acc and occurs(a, tr) for a in accs.values()):
                return Poison('value of %s after the loop' % (k,))
            return mk('fold', (lam(acc, mk('pairlam', (lam(x, tr),), 'U')), v0, bs), 'U')

        def set_state(bs):
            for lk, (d, k, v0) in known.items():
                if lk in contrib:
                    self.put(d, k, closed(lk, bs))
                else:
                    self.put(d, k, scalar_after(lk, bs))

        if E is FALSE:
            set_state(base)
            return False
        if fold_exit:
            acc = ebad[0]
            if len(ebad) > 1 or any(occurs(a, E) for a in accsyms if a is not acc):
                raise Unsupported('exit depends on several accumulators')
            lk = [q for q, a in accs.items() if a is acc][0]
            v0 = self.freeze(known[lk][2])
            key = [lam(acc, mk('pairlam', (lam(x, boxb(E)),), 'U')),
                   lam(acc, mk('pairlam', (lam(x, scal[lk][0]),), 'U')), v0, base]
            c = mk('foldexits', tuple(key), 'B')
            if self.branch(c):
                x0 = mk('foldexit_elem', tuple(key), 'U')
                a0 = mk('foldexit_acc', tuple(key), 'U')
                self.assume(subst(E, {acc: a0, x: x0}))
                self.assume(memf(base, x0))
                for l2, (d, k, v) in known.items():
                    if l2 == lk:
                        self.put(d, k, a0)
                    elif l2 in contrib:
                        self.put(d, k, closed(l2, mk('foldprefix', tuple(key), 'S')))
                    else:
                        self.put(d, k, Poison('value of %s at loop exit' % (k,)))
                try:
                    body(x0)
                except Cont:
                    raise Infeasible()
                except Brk:
                    return True
                raise Infeasible()
            set_state(base)
            return False
        El = lam(x, E)
        if self.branch(exists(base, El)):
            x0 = first(base, El)
            set_state(prefix(base, El))
            self.assume(inst(El, x0))
            self.assume(memf(base, x0))
            try:
                body(self.thaw(x0))
            except Cont:
                raise Infeasible()
            except Brk:
                return True
            raise Infeasible()
        set_state(base)
        return False

    def _item_fold(self, c, acc, x, accs):
        """the loop updates one item of a dictionary, from its own value: (key, value before, value after)"""
        if not occurs(acc, c):
            return None
        key = []

        def value(c):
            if c.op == 'ite':
                value(c.args[1])
                value(c.args[2])
            elif c.op == 'lit' and len(c.args) == 1:
                key.append(item(c.args[0], 0))
            elif c is not EMPTY:
                raise Unsupported('dictionary accumulator')

        def fill(c):
            if c.op == 'ite':
                return Ite(c.args[0], fill(c.args[1]), fill(c.args[2]))
            return dget(acc, key[0]) if c is EMPTY else item(c.args[0], 1)
        try:
            value(c)
        except Unsupported:
            return None
        if len(set(key)) != 1 or occurs(x, key[0]) or any(occurs(a, key[0]) for a in accs):
            return None
        a = fresh('item')
        m = {}
        tr = fill(c)

        def go(t):
            if t.op == 'dget' and t.args[0] is acc and t.args[1] is key[0]:
                m[t] = a
                return
            if t.op == 'has' and t.args[0] is acc and t.args[1] is key[0]:
                m[t] = TRUE
                return
            for b in t.args:
                if isinstance(b, T):
                    go(b)
        go(tr)
        tr = subst(tr, m)
        if any(occurs(b, tr) for b in accs):
            return None
        return ('Dfold', (key[0], a, tr))

    def _drop_presence_tests(self, c, acc):
        """deleting a key only if it is present is just deleting it"""
        if c.op == 'ite':
            a, b = self._drop_presence_tests(c.args[1], acc), self._drop_presence_tests(c.args[2], acc)
            f = c.args[0]
            for g, t, e in ((f, a, b), (Not(f), b, a)):
                if g.op == 'has' and g.args[0] is acc and e is EMPTY and t.op == 'lit' and all(
                        k is g.args[1] for k in t.args):
                    return t
            return Ite(f, a, b)
        return c

    def _live_containers(self):
        """ids of the state dictionaries that exist now"""
        live = set()
        for o in self.heap.values():
            if o.stamp <= self.stampno:
                live.add(id(o.f))
        for d, k, old in self.journal:
            live.add(id(d))
        for e in self._envs:
            live.add(id(e.vars))
        for o in list(self.heap.values()):
            if isinstance(o, FuncV) and o.stamp <= self.stampno:
                e = o.env
                while e is not None:
                    live.add(id(e.vars))
                    e = e.parent
        for m in self.modules.values():
            live.add(id(m.vars))
        for c in self.classes.values():
            live.add(id(c.f))
        return live

    @property
    def _envs(self):
        import sys
        # environments reachable from the python stack of the interpreter
        out = []
        f = sys._getframe()
        while f is not None:
            for v in (f.f_locals.get('env'), ):
                while isinstance(v, Env):
                    out.append(v)
                    v = v.parent
            f = f.f_back
        return out

    def _close(self, v, stamp0):
        """Freezes the objects created after stamp0"""
        if v is MISSING or isinstance(v, Poison):
            return v
        if isinstance(v, HObj):
            if v.stamp > stamp0:
                try:
                    return self.freeze(v)
                except Unsupported as e:
                    return Poison(str(e))
            return v.t
        if isinstance(v, T) and v.hrefs:
            m = {}

            def collect(t):
                if t.op == 'href' and t.args[0] > stamp0:
                    m[t] = self.freeze(self.heap[t.args[0]])
                    return
                for a in t.args:
                    if isinstance(a, T) and a.hrefs:
                        collect(a)
            collect(v)
            return subst(v, m) if m else v
        return v

    # ---------------------------------------------------------------- names and targets

    def lookup(self, name, env):
        e = env
        while e is not None:
            if name in e.globals_decl:
                break
            if name in e.vars and name not in e.nonlocals:
                v = e.vars[name]
                if isinstance(v, Poison):
                    raise Unsupported(v.why)
                return v
            cns = getattr(e, 'classns', None)
            if cns is not None and name in cns.ns:
                return self.class_lookup(cns, name)
            e = e.parent
        m = env.module
        if m is not None:
            try:
                up = getattr(env, 'upto', {}).get(name)
                return self.module_global(m, name, up)
            except KeyError:
                pass
        if name in BUILTIN_CLASSES:
            return ClsV(name)
        if name in BUILTINS:
            return ExtV('builtins.' + name)
        if name in ('True', 'False', 'None'):
            return const({'True': True, 'False': False, 'None': None}[name])
        if name == '__package__':
            return const('whatami')
        raise Unsupported('name %s' % name)

    def store(self, name, v, env):
        if name in env.globals_decl:
            self.outlives(name, 'changed')
            self.put(env.module.vars, name, v)
            return
        if name in env.nonlocals:
            e = env.parent
            while e is not None:
                if name in e.vars:
                    self.put(e.vars, name, v)
                    return
                e = e.parent
        self.put(env.vars, name, v)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts), [isinstance(e, ast.Starred) for e in t.elts])
            for e, x in zip(t.elts, vs):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.eval(t.slice, env), v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n, starred):
        if any(starred):
            raise Unsupported('starred target')
        if isinstance(v, T) and v.sort == 'U' and v.op not in ('tup', 'seqv', 'dictv', 'const') and self.is_tuple_n(v, n):
            return [self.thaw(item(v, i)) for i in range(n)]
        s = self.seq(v)
        if s.op == 'lit':
            if len(s.args) != n:
                self.raise_('ValueError')
            return [self.thaw(a) for a in s.args]
        if isinstance(v, T) and v.op in ('sym', 'item', 'app', 'dget', 'first', 'snth') and s.op == 'sbase':
            # assume a tuple of the right size (zip elements and the like) or fail
            if not self.branch(ieq(ilen(s), iconst(n))):
                self.raise_('ValueError')
            return [self.thaw(snth(s, iconst(i))) for i in range(n)]
        if not self.branch(ieq(ilen(s), iconst(n))):
            self.raise_('ValueError')
        return [self.thaw(snth(s, iconst(i))) for i in range(n)]

    def is_tuple_n(self, v, n):
        # elements of zip/enumerate
        for p in self.pc:
            if p.op == 'mem' and p.args[1] is v:
                b = p.args[0]
                while b.op in ('prefix', 'slice', 'sorted', 'rev', 'dedup', 'before', 'setorder'):
                    b = b.args[0]
                if b.op == 'zip' and len(b.args) == n:
                    return True
                if b.op == 'enum' and n == 2:
                    return True
        if v.op == 'first':
            b = v.args[0]
            while b.op in ('prefix', 'slice', 'sorted', 'rev', 'dedup'):
                b = b.args[0]
            return (b.op == 'zip' and len(b.args) == n) or (b.op == 'enum' and n == 2)
        return False


def is_message(e):
    ok = (ast.Constant, ast.Name, ast.Load, ast.Attribute, ast.Subscript, ast.BinOp, ast.Mod, ast.Add, ast.Tuple,
          ast.JoinedStr, ast.FormattedValue, ast.Slice)
    for n in ast.walk(e):
        if isinstance(n, ast.Call):
            if not (isinstance(n.func, ast.Name) and n.func.id in ('str', 'repr', 'len', 'sorted', 'list', 'getattr',
                                                                   'type', 'map', 'set') or
                    isinstance(n.func, ast.Attribute) and n.func.attr in ('format', 'join', 'keys')):
                return False
        elif not isinstance(n, ok):
            return False
    return True


def walk_own(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                todo.append(c)


def before(base, x):
    if x.op == 'first' and x.args[0] is base:
        return prefix(base, x.args[1])
    return mk('before', (base, x), 'S')


def memf(s, x):
    if s.op == 'keys':
        return has(s.args[0], x)
    if s.op in ('sorted', 'dedup', 'rev', 'setorder'):
        return memf(s.args[0], x)
    return mk('mem', (s, x), 'B')


def first(base, l):
    return mk('first', (base, l), 'U')


def prefix(base, l):
    return mk('prefix', (base, l), 'S')


def replace_lookups(t, acc, key, base):
    """has(acc, key) -> has(base, key) and dget(acc, key) -> dget(base, key)"""
    m = {}

    def go(t):
        if t.op in ('has', 'dget') and t.args[0] is acc and t.args[1] is key:
            m[t] = has(base, key) if t.op == 'has' else dget(base, key)
            return
        for a in t.args:
            if isinstance(a, T):
                go(a)
    go(t)
    return subst(t, m) if m else t
