"""Contracts: for all inputs, the real function and its specification have the same outcome and the same effects."""
import os
import subprocess
import time
import traceback

from .terms import *
from . import terms as tm
from . import interp as ip
from . import solver
from .interp import *
from .builtins_ import PyVer, isinst, merge_paths
from .solver import same, check

SPECDIR = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'specs')


class Obligation(object):
    def __init__(self, name, ok, info=''):
        self.name, self.ok, self.info = name, ok, info

    def __repr__(self):
        return '%s %s %s' % ('ok' if self.ok else 'FAILED', self.name, self.info)


def lemma(name, cache={}):
    """has Lean accepted lemmas/<name>.lean?"""
    if name not in cache:
        path = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lemmas', name + '.lean')
        import resource
        hard = resource.getrlimit(resource.RLIMIT_AS)[1]
        try:
            p = subprocess.run(['lean', path], preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (hard, hard)), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120,
                               universal_newlines=True)
            cache[name] = p.returncode == 0 and 'error' not in p.stdout and 'sorry' not in p.stdout
        except (OSError, subprocess.TimeoutExpired):
            cache[name] = False
    return cache[name]


class Verifier(PyVer):
    def module(self, name):
        if name.startswith('spec.') and name not in self.modules:
            self.modules[name] = ip.Module(name, os.path.join(SPECDIR, name[5:] + '.py'))
        return PyVer.module(self, name) if name not in self.modules else self.modules[name]

    def is_repo_module(self, name):
        if name.startswith('spec.'):
            return os.path.exists(os.path.join(SPECDIR, name[5:] + '.py'))
        return PyVer.is_repo_module(self, name)

    def attr(self, o, name):
        v = o.f[name]
        return self.thaw(v) if isinstance(v, T) else v

    def resolve(self, qualname):
        """Value of a dotted name: module.function or module.Class.method"""
        parts = qualname.split('.')
        for i in range(len(parts) - 1, 0, -1):
            m = '.'.join(parts[:i])
            try:
                mod = self.module(m)
            except Unsupported:
                continue
            except FileNotFoundError:
                continue
            try:
                v = self.module_global(mod, parts[i])
            except KeyError:
                raise Unsupported('%s does not exist' % qualname)
            for p in parts[i + 1:]:
                if isinstance(v, ClsV) and v.info is not None:
                    v = self.class_lookup(v, p)
                    if v is None:
                        raise Unsupported('%s does not exist' % qualname)
                else:
                    v = self.getattr(v, p)
            return v
        raise Unsupported('%s does not exist' % qualname)


# ------------------------------------------------------------------ provers

class Prover(object):
    def __init__(self, I, budget=20.0):
        self.I = I
        self.deadline = time.time() + budget
        self.depth = 0
        self.why = None

    def unsat(self, fs):
        if time.time() > self.deadline:
            self.why = 'time'
            return False
        r = check(fs)
        if r == 'unknown':
            self.why = 'unknown'
        return r == 'unsat'

    def contradictory(self, pc):
        """some predicate holds and does not hold on values that are the same"""
        pos = [p for p in pc if p.op == 'pred']
        neg = [p.args[0] for p in pc if p.op == 'not' and p.args[0].op == 'pred']
        for p in pos:
            for q in neg:
                if p.args[0] == q.args[0] and len(p.args) == len(q.args) and all(
                        x.op == y.op or 'ite' in (x.op, y.op) for x, y in zip(p.args[1:], q.args[1:])):
                    rest = [c for c in pc if c is not p and not (c.op == 'not' and c.args[0] is q)]
                    if all(self.same(rest, x, y) for x, y in zip(p.args[1:], q.args[1:])):
                        return True
        return False

    def valid(self, pc, b):
        if b is TRUE or b in pc:
            return True
        if b.op == 'and':
            return all(self.valid(pc, c) for c in b.args)
        return self.unsat(pc + [Not(b)])

    def removals(self, pc, t):
        """removing the first of the elements that are equal to something, from a sequence without repetitions"""
        distinct = [p.args[1] for p in pc if p.op == 'pred' and p.args[0] == 'distinct']
        if not distinct:
            return t
        m = {}

        def go(t):
            if t.op == 'sremove' and t.args[0] in distinct:
                x = fresh('x')
                m[t] = flat(t.args[0], lam(x, Ite(eq(t.args[1], x), EMPTY, lit(x))))
            for a in t.args:
                if isinstance(a, T):
                    go(a)
        go(t)
        return subst(t, m) if m else t

    def same_result(self, pc, a, b):
        a, b = self.removals(pc, a), self.removals(pc, b)
        if self.same(pc, a, b):
            return True
        # parameters the path conditions determine
        known = {}

        def atoms(c):
            if c.op in ('and', 'or', 'not'):
                for d in c.args:
                    atoms(d)
            elif c.op == 'eq':
                for x, y in (c.args, c.args[::-1]):
                    if x.op == 'sym' and is_const(y) and x not in known \
                            and self.valid(pc, same(x, y)):
                        known[x] = y
        for c in pc:
            atoms(c)
        return bool(known) and self.same([subst(c, known) for c in pc], subst(a, known), subst(b, known))

    def same(self, pc, a, b, depth=0):
        if a is b:
            return True
        if depth > 40:
            return False
        if a.sort != b.sort:
            a, b = box(a), box(b)
            if a is b:
                return True
        if a.sort == 'B':
            return self.valid(pc, Iff(a, b))
        for x, y in ((a, b), (b, a)):
            if x.op == 'ite':
                c = x.args[0]
                r1 = self.unsat(pc + [c]) or self.same(pc + [c], x.args[1], y, depth + 1)
                return r1 and (self.unsat(pc + [Not(c)]) or self.same(pc + [Not(c)], x.args[2], y, depth + 1))
        f = getattr(self, 's_' + a.op, None) if a.op == b.op else None
        if f is not None:
            r = f(pc, a, b, depth)
            if r:
                return True
        if a.sort == 'D' and self.dict_ext(pc, a, b, depth):
            return True
        if a.sort == 'S' and self.seqs(pc, a, b, depth):
            return True
        if a.sort == 'U':
            for x, y in ((a, b), (b, a)):
                if x.op == 'dictv' and x.args[0] == 'dict' and y.ty == 'dict' and y.op != 'dictv':
                    if self.same(pc, x.args[1], dbase(y), depth + 1):
                        return True
                if x.op == 'cat' or x.op == 'join':
                    if self.strs(pc, x, y, depth):
                        return True
                if x.op == 'tup' and y.op == 'seqv' and y.args[0] == 'tuple':
                    if self.same(pc, lit(*x.args), y.args[1], depth + 1):
                        return True
                if x.op == 'seqv' and x.args[0] in ('list', 'tuple') and y.ty == x.args[0] and y.op not in (
                        'seqv', 'tup', 'const'):
                    if self.same(pc, x.args[1], sbase(y), depth + 1):
                        return True
        if a.op == b.op and a.op not in ('dictv', 'seqv', 'upd', 'merge', 'frompairs', 'dcomp', 'ddel', 'const',
                                         'boxi', 'boxb', 'scat', 'lit', 'keys') and \
                len(a.args) == len(b.args) and not a.op.startswith('lam'):
            # congruence
            if all((x is y) if isinstance(x, T) and isinstance(y, T) else x == y or (
                    isinstance(x, T) and isinstance(y, T)) for x, y in zip(a.args, b.args)) or True:
                ok = True
                for x, y in zip(a.args, b.args):
                    if isinstance(x, T) != isinstance(y, T) or (not isinstance(x, T) and x != y):
                        ok = False
                        break
                if ok:
                    for x, y in zip(a.args, b.args):
                        if not isinstance(x, T) or x is y:
                            continue
                        if x.op == 'lam':
                            if y.op != 'lam' or not self.lams(pc, x, y, a.args[0], depth):
                                ok = False
                                break
                        elif not self.same(pc, x, y, depth + 1):
                            ok = False
                            break
                    if ok:
                        return True
        if a.sort in 'UI':
            return self.valid(pc, same(a, b) if a.sort == 'U' else ieq(a, b))
        return self.valid(pc, same(a, b))

    def lams(self, pc, l1, l2, base, depth):
        x = fresh('e')
        m = []
        if isinstance(base, T) and base.sort == 'S':
            m = [ip.memf(base, x)]
        elif isinstance(base, T) and base.sort == 'D':
            m = [has(base, x)]
        a, b = inst(l1, x), inst(l2, x)
        return self.same(pc + m, a, b, depth + 1)

    def s_tup(self, pc, a, b, depth):
        return len(a.args) == len(b.args) and all(self.same(pc, x, y, depth + 1) for x, y in zip(a.args, b.args))

    def s_keys(self, pc, a, b, depth):
        """equal dictionaries may have their keys in different orders"""
        d, e = a.args[0], b.args[0]
        return d.op == 'dbase' and e.op == 'dbase' and self.same(pc, d.args[0], e.args[0], depth + 1)

    def s_new(self, pc, a, b, depth):
        return a.args[0] == b.args[0] and a.args[1] == b.args[1] and all(
            self.same(pc, x, y, depth + 1) for x, y in zip(a.args[2:], b.args[2:]))

    def s_seqv(self, pc, a, b, depth):
        if a.args[0] != b.args[0]:
            return False
        if a.args[0] in ('set', 'frozenset'):
            return self.seteq(pc, a.args[1], b.args[1])
        return self.same(pc, a.args[1], b.args[1], depth + 1)

    def seteq(self, pc, s, t):
        x, y = fresh('e'), fresh('e')
        return self.subset(pc, s, t) and self.subset(pc, t, s)

    def subset(self, pc, s, t):
        x = fresh('e')
        b = exists(s, lam(x, Not(contains(t, x))))
        # elements that are members are equal to themselves
        return b is FALSE or self.unsat(pc + [b])

    def s_dictv(self, pc, a, b, depth):
        if a.args[0] != b.args[0]:
            return False
        if not self.same(pc, a.args[1], b.args[1], depth + 1):
            return False
        if a.args[0] == 'OrderedDict':
            return self.same(pc, keys(a.args[1]), keys(b.args[1]), depth + 1)
        return True

    def dict_ext(self, pc, a, b, depth):
        k = fresh('k')
        h1, h2 = has(a, k), has(b, k)
        if not self.valid(pc, Iff(h1, h2)):
            return False
        v1, v2 = dget(a, k), dget(b, k)
        if v1 is v2:
            return True
        if v1.op == 'dget' and v2.op == 'dget' and v1.args[0] is a and v2.args[0] is b:
            return self.valid(pc + [h1], same(v1, v2))
        return self.same(pc + [h1], v1, v2, depth + 1)

    def seqs(self, pc, a, b, depth):
        if self.empty(pc, a) and self.empty(pc, b):
            return True
        if a.op == 'lit' and b.op == 'lit':
            return len(a.args) == len(b.args) and all(self.same(pc, x, y, depth + 1) for x, y in zip(a.args, b.args))
        # cancel common parts of concatenations
        if a.op == 'scat' or b.op == 'scat':
            x, y = split_lits(a), split_lits(b)
            return self.align(pc, x, y, depth, lambda p, q: self.same(pc, p, q, depth + 1), scat)
        if a.op in ('flat', 'sorted') and b.op in ('flat', 'sorted') and self.sorted_selections(pc, a, b, depth):
            return True
        if a.op == 'flat' and b.op == 'flat':
            if a.args[0] is b.args[0] or self.same(pc, a.args[0], b.args[0], depth + 1):
                return self.lams(pc, a.args[1], b.args[1], a.args[0], depth)
        for x, y in ((a, b), (b, a)):
            if x.op == 'flat' and x.args[0] is y or (x.op == 'flat' and y.op in ('keys', 'sbase', 'sym', 'sorted')
                                                     and x.args[0] is y):
                e = fresh('e')
                return self.same(pc + [ip.memf(y, e)], inst(x.args[1], e), lit(e), depth + 1)
        return False

    def total(self, pc, s):
        """s is sorted by the identity, without duplicates, and its elements are totally ordered"""
        if s.op != 'sorted' or not distinct(s):
            return False
        x = fresh('e')
        if inst(s.args[1], x) is not x:
            return False
        if self.valid(pc + [ip.memf(s, x)], pred('isinst:str', x)):
            return True
        self.I.assumptions_used.add('elements that get sorted without a key are totally ordered')
        return True

    def sorted_selections(self, pc, a, b, depth):
        """sorting equal selections of elements gives the same sequence"""
        parts = []
        for s in (a, b):
            base, l = (s.args if s.op == 'flat' else (s, None))
            if base.op != 'sorted':
                return False
            parts.append((base, l))
        if parts[0][0] is parts[1][0] or parts[0][0].args[2] is not parts[1][0].args[2]:
            return False
        if not all(self.total(pc, base) for base, _ in parts):
            return self.sorted_images(pc, parts, depth)
        x = fresh('e')
        sel = []
        for base, l in parts:
            r = (TRUE, x) if l is None else tm._single(inst(l, x))
            if r is None:
                return False
            sel.append((And(ip.memf(base, x), r[0]), r[1]))
        return self.valid(pc, Iff(sel[0][0], sel[1][0])) and \
            self.same(pc + [sel[0][0], sel[1][0]], sel[0][1], sel[1][1], depth + 1)

    def sorted_images(self, pc, parts, depth):
        """[k(x) for x in sorted(B, key=k)] is the sorted sequence of the images of the elements of B,
        so for duplicate-free B it only depends on what is in B"""
        x = fresh('e')
        sel = []
        for base, l in parts:
            if l is None or not distinct(base):
                return False
            r = tm._single(inst(l, x))
            if r is None:
                return False
            here = And(ip.memf(base, x), r[0])
            if not self.same(pc + [here], r[1], inst(base.args[1], x), depth + 1):
                return False
            sel.append((here, r[1]))
        self.I.assumptions_used.add('the keys that get sorted by are totally ordered')
        return self.valid(pc, Iff(sel[0][0], sel[1][0])) and \
            self.same(pc + [sel[0][0], sel[1][0]], sel[0][1], sel[1][1], depth + 1)

    def s_first(self, pc, a, b, depth):
        (s, p), (t, q) = a.args, b.args
        if s is t or not (self.total(pc, s) and self.total(pc, t)) or s.args[2] is not t.args[2]:
            return False
        x = fresh('e')
        return self.valid(pc, Iff(And(ip.memf(s, x), inst(p, x)), And(ip.memf(t, x), inst(q, x))))

    def s_dget(self, pc, a, b, depth):
        (d, k), (e, m) = a.args, b.args
        if k is m:
            return self.valid(pc, same(a, b))
        return self.same(pc, k, m, depth + 1) and self.same(pc, a, dget(e, k), depth + 1)

    def empty(self, pc, s):
        ne = nonempty(s)
        if ne is FALSE:
            return True
        if s.op == 'lit':
            return not s.args
        return self.unsat(pc + [ne])

    def align(self, pc, x, y, depth, eqf, mkcat):
        x, y = list(x), list(y)
        while x and y and x[0] is y[0]:
            x.pop(0)
            y.pop(0)
        while x and y and x[-1] is y[-1]:
            x.pop()
            y.pop()
        if not x and not y:
            return True
        if len(x) == len(y):
            return all(p is q or eqf(p, q) for p, q in zip(x, y))
        if not x or not y:
            return all(p.sort == 'S' and self.empty(pc, p) for p in (x or y))
        # drop the pieces that are empty
        x2 = [p for p in x if not (p.sort == 'S' and p.op != 'lit' and self.empty(pc, p))]
        y2 = [p for p in y if not (p.sort == 'S' and p.op != 'lit' and self.empty(pc, p))]
        if len(x2) + len(y2) < len(x) + len(y):
            return self.align(pc, x2, y2, depth, eqf, mkcat)
        return False

    def strs(self, pc, a, b, depth):
        x = list(a.args) if a.op == 'cat' else [a]
        y = list(b.args) if b.op == 'cat' else [b]
        if len(x) == 1 and len(y) == 1:
            return False
        if any(t.op == 'const' and not isinstance(cval(t), str) for t in x + y):
            return False
        # common constant prefixes and suffixes
        while x and y and x[0].op == 'const' and y[0].op == 'const':
            p, q = cval(x[0]), cval(y[0])
            n = min(len(p), len(q))
            if p[:n] != q[:n]:
                return False
            x[0:1] = [const(p[n:])] if p[n:] else []
            y[0:1] = [const(q[n:])] if q[n:] else []
        while x and y and x[-1].op == 'const' and y[-1].op == 'const':
            p, q = cval(x[-1]), cval(y[-1])
            n = min(len(p), len(q))
            if p[len(p) - n:] != q[len(q) - n:]:
                return False
            x[-1:] = [const(p[:len(p) - n])] if p[:len(p) - n] else []
            y[-1:] = [const(q[:len(q) - n])] if q[:len(q) - n] else []
        return self.align(pc, x, y, depth, lambda p, q: self.same(pc, p, q, depth + 1), cat)


def split_lits(s):
    parts = s.args if s.op == 'scat' else (s,)
    out = []
    for p in parts:
        if p.op == 'lit':
            out += [lit(a) for a in p.args]
        else:
            out.append(p)
    return out


# ------------------------------------------------------------------ contracts

class Contract(object):
    """setup(I) -> dict(call=..., spec=..., frame={name: object}) where call and spec are thunks returning a value"""

    def __init__(self, name, target, setup, spec=None, hooks=None, assumes=(), budget=120, configure=None, props=(),
                 total=False, frame_ident=True, no_ident=False, thorough=False, only_raises=False):
        self.only_raises = only_raises
        self.name, self.target, self.setup, self.spec = name, target, setup, spec
        self.hooks = hooks or {}
        self.assumes = assumes
        self.budget = budget
        self.configure = configure
        self.props = props
        self.thorough = thorough
        self.no_ident = no_ident

    def verify(self, repo=None):
        t0 = time.time()
        res = Result(self)
        res.t0 = t0
        q0 = dict(solver.STATS)
        try:
            self._verify(res, repo)
        except Unsupported as e:
            res.unsupported = str(e)
            res.trace = traceback.format_exc()
        except (KeyError, AttributeError, RecursionError, MemoryError, IndexError, TypeError, AssertionError,
                ValueError, NotImplementedError, SyntaxError, FileNotFoundError) as e:
            res.unsupported = 'engine: %s: %s' % (type(e).__name__, e)
            res.trace = traceback.format_exc()
        except Exception as e:
            res.unsupported = 'engine: %s: %s' % (type(e).__name__, e)
            res.trace = traceback.format_exc()
        res.time = time.time() - t0
        res.queries = solver.STATS['queries'] - q0['queries']
        res.cvc5 = solver.STATS['cvc5'] - q0['cvc5']
        res.solver_time = solver.STATS['time'] - q0['time']
        return res

    def _verify(self, res, repo):
        I = Verifier(repo)
        I.hooks = dict(self.hooks)
        if self.configure is not None:
            self.configure(I)
        I.deadline = time.time() + self.budget
        res.I = I
        npaths = [0]

        def outcome(thunk, frame, real=False):
            I.current_exc = []
            try:
                I.in_call = real
                try:
                    v = thunk()
                finally:
                    I.in_call = False
                I.mark_shared = True
                try:
                    out = ('ret', I.freeze(v, ident=not self.no_ident))
                finally:
                    I.mark_shared = False
            except PyExc as e:
                out = ('exc', e.val)
            fr = {}
            for n, o in frame.items():
                fr[n] = freeze_content(I, o)
            return out, fr

        def thunk():
            setup = self.setup(I)
            npaths[0] += 1
            frame = setup.get('frame', {})
            I.state_allowed = set(setup.get('state', ()))
            for n, o in frame.items():
                if isinstance(o, HObj):
                    o.name = n
            I.effects = HList(I, node=EMPTY)
            frame = dict(frame, effects=I.effects)
            mark = len(I.journal)
            stack = list(I.stack)
            o1, f1 = outcome(setup['call'], frame, True)
            I.rollback(mark)
            hooks = I.hooks
            if 'spec_hooks' in setup:
                I.hooks = setup['spec_hooks']
            try:
                o2, f2 = outcome(setup['spec'], frame)
            finally:
                I.hooks = hooks
            I.rollback(mark)
            if setup.get('require') is not None:
                pass
            if os.environ.get('PYVER_DEBUG'):
                print('%.1fs path %d: %s | %s' % (time.time() - res.t0, npaths[0], o1[0], o2[0]),
                      [('' if d else '!') + show(c)[:90] for c, d in I.conds], flush=True)
            return self.compare(I, res, o1, f1, o2, f2, list(I.pc), npaths[0])
        results = I.explore(thunk)
        res.paths = len(results)
        for conds, obs in results:
            res.obligations += obs
        for name in sorted(I.lemmas_used):
            if not lemma(name):
                raise Unsupported('Lean does not accept lemmas/%s.lean' % name)
            res.obligations.append(Obligation('%s#lemma:%s' % (self.name, name), True))
        if not res.obligations:
            raise Unsupported('no obligations: vacuous contract')
        if I.state and all(o.ok for o in res.obligations):
            raise Unsupported('state that outlives the call: %s' % ', '.join('%s (%s)' % kv for kv in sorted(I.state.items())))
        # vacuity: some path must return
        if not any(o.name.endswith('result') for o in res.obligations) and not self.only_raises and \
                all(o.ok for o in res.obligations):
            raise Unsupported('vacuous contract: no path returns')

    def compare(self, I, res, o1, f1, o2, f2, pc, n):
        obs = []
        P = Prover(I)

        def add(kind, ok, info=''):
            obs.append(Obligation('%s#path%d:%s' % (self.name, n, kind), ok, '' if ok else info))
        if o1[0] != o2[0]:
            # the path must be infeasible
            if P.unsat(pc) or P.contradictory(pc):
                return obs
            add('outcome', False, 'real code: %s; specification: %s; under %s' % (show_out(o1), show_out(o2), show_pc(pc)))
            return obs
        if o1[0] == 'ret':
            ok = P.same_result(pc, box(o1[1]), box(o2[1]))
            ok = ok or P.unsat(pc) or P.contradictory(pc)
            add('result', ok, 'real code returns %s; specification: %s; under %s' % (
                show(o1[1]), show(o2[1]), show_pc(pc)))
        else:
            ok = exc_same(I, P, pc, o1[1], o2[1]) or P.unsat(pc)
            add('raises', ok, 'real code raises %s; specification: %s; under %s' % (o1[1], o2[1], show_pc(pc)))
        for k in f1:
            ok = P.same_result(pc, f1[k], f2[k]) or P.unsat(pc)
            add('frame:' + k, ok, '%s after real code: %s; specification: %s; under %s' % (
                k, show(f1[k]), show(f2[k]), show_pc(pc)))
        return obs


def freeze_content(I, o):
    """Content of an object of the frame; the other objects of the frame are kept by name"""
    if callable(o):
        o = o()
    if isinstance(o, HObj):
        n, o.name = o.name, None
        try:
            return I.freeze(o, ident=True)
        finally:
            o.name = n
    if isinstance(o, tuple) and o[0] == 'env':
        return I.freeze(o[1].get(o[2], NONE), ident=True)
    if isinstance(o, ClsV):
        return new('classstate', {k: I.freeze(v, ident=True) for k, v in o.f.items()})
    return I.freeze(o, ident=True)


def exc_same(I, P, pc, e1, e2):
    if isinstance(e2, ExcV) and isinstance(e1, ExcV):
        return e1.cls == e2.cls or e2.cls in solver.superclasses(e1.cls)
    if isinstance(e1, T) and isinstance(e2, T):
        return P.same(pc, e1, e2)
    if isinstance(e1, T) and isinstance(e2, ExcV):
        return P.valid(pc, pred('isinst:' + e2.cls, e1))
    return False


def show_out(o):
    return '%s %s' % ('returns' if o[0] == 'ret' else 'raises', o[1])


def show_pc(pc):
    return ' & '.join(str(p) for p in pc)[:int(__import__("os").environ.get("PCW","3000"))] or 'true'


class Result(object):
    def __init__(self, contract):
        self.contract = contract
        self.obligations = []
        self.unsupported = None
        self.trace = ''
        self.paths = 0
        self.time = 0.
        self.queries = 0
        self.cvc5 = 0
        self.solver_time = 0.
        self.I = None

    @property
    def status(self):
        if self.unsupported is not None:
            return 'unsupported'
        return 'proved' if all(o.ok for o in self.obligations) else 'failed'

    @property
    def failed(self):
        return [o for o in self.obligations if not o.ok]

    def summary(self):
        return '%s: %s paths=%d obligations=%d failed=%d %.2fs%s' % (
            self.contract.name, self.status, self.paths, len(self.obligations), len(self.failed), self.time,
            (' ' + self.unsupported) if self.unsupported else '')


REGISTRY = []


def contract(props, **kw):
    """decorator over setup functions: @contract(['C01'], target='whatami.misc.trim_dict')"""
    def deco(setup):
        c = Contract(kw.pop('name', setup.__name__.replace('__', '.')), kw.pop('target'), setup,
                     props=tuple(props), **kw)
        REGISTRY.append(c)
        return setup
    return deco


def simple(target, spec, *params, **kw):
    """setup for functions whose arguments are arbitrary values: params are (name, ty) or names"""
    def setup(I):
        args = []
        frame = {}
        for p in params:
            if isinstance(p, tuple):
                n, ty = p
                args.append(make_input(I, n, ty))
            else:
                args.append(sym(p))
        for a, p in zip(args, params):
            if isinstance(a, HObj):
                frame[p[0] if isinstance(p, tuple) else p] = a
        return dict(call=lambda: I.call(I.resolve(target), list(args), {}),
                    spec=lambda: I.call(I.resolve(spec), list(args), {}), frame=frame)
    return setup


def make_input(I, n, ty):
    if ty == 'dict':
        return HDict(I, node=sym(n, 'D'), cls='dict')
    if ty == 'odict':
        return HDict(I, node=sym(n, 'D'), cls='OrderedDict')
    if ty == 'list':
        return HList(I, node=sym(n, 'S'))
    if ty == 'set':
        return HSet(I, node=sym(n, 'S'))
    if ty in (None, 'any'):
        return sym(n)
    if ty == 'strs':
        s = sym(n, 'S')
        return HList(I, node=s)
    if ty == 'tuple*':
        return seqv('tuple', sym(n, 'S'))
    return sym(n, 'U', ty)
