"""Symbolic execution of arpeggio parsers on symbolic texts.

The expressions are those that the parsers built by the code under verification really hold (see extract_grammar.py); what
is modelled is how arpeggio interprets them. A text is a sequence of pieces: literal text, a text of some regular language
(an identifier, a number, a quoted string...), optional white space, the text of a value (about which only the contract of
the rule `value` is known), any number of repetitions of some pieces, and what follows (a regular language). An expression
must do the same on every text of that form; otherwise the outcome is undetermined. There is no bound on lengths, depths or
numbers of elements.
"""
import json
import os
import subprocess

from . import regular as rl
from .interp import Unsupported, REPO, HInst, HList, ClsV, ExtV, EXT, memf, FuncV, BoundV
from .terms import *
from .builtins_ import merge_paths

PYTHON = '/opt/venv/bin/python'


class Undetermined(Unsupported):
    pass


class NoMatch(Exception):
    pass


def run_real(repo, *args):
    env = {k: v for k, v in os.environ.items() if k not in ('PYTHONHOME', 'PYTHONPATH')}
    env.update(PYTHONPATH=repo, SKLEARN_SITE_JOBLIB='1', PYTHONDONTWRITEBYTECODE='1')
    if True:
        p = subprocess.run([PYTHON, '-W', 'ignore', os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                                                 'extract_grammar.py')] + list(args),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=120, universal_newlines=True)
    return p


def grammars(repo=None, cache={}):
    repo = repo or REPO
    if repo not in cache:
        p = run_real(repo)
        i = p.stdout.find('GRAMMAR')
        if p.returncode or i < 0:
            raise Unsupported('the parsers cannot be built: %s' % p.stderr[-300:])
        cache[repo] = json.loads(p.stdout[i + 7:])
    return cache[repo]


def really_accepted(repo, text):
    return 'ACCEPTS True' in run_real(repo or REPO, json.dumps(text)).stdout


# ------------------------------------------------------------------ texts

WSCHARS = '\t\n\r '
WSMASK = rl.chars(WSCHARS)
ANY = rl.star(rl.symbol(rl.ALL))


class Piece(object):
    nfa = None
    term = None


class Lit(Piece):
    def __init__(self, s):
        self.s = s
        self.term = const(s)
        self.nfa = rl.word(s)


class Reg(Piece):
    """a text of a regular language that is not empty and does not start with white space"""
    def __init__(self, nfa, term):
        self.nfa, self.term = nfa, term
        assert not rl.nullable(nfa) and not nfa.next(nfa.initial()) & WSMASK


class Space(Piece):
    """optional white space"""
    nfa = rl.star(rl.symbol(WSMASK))


class Val(Piece):
    """the text of a value: see the contract of the rule `value`"""
    first = rl.ALL & ~rl.chars(WSCHARS + ',)]}:#')
    nfa = rl.concat([rl.symbol(first), ANY])

    def __init__(self, v):
        self.v = v
        self.term = app('text', v, ty='str')


class Rep(Piece):
    """body(x) for each x of a sequence"""
    def __init__(self, seq, body, facts=None):
        self.seq, self.body, self.facts = seq, body, facts
        self.nfa = rl.star(rl.concat([p.nfa for p in body(fresh('x'))]))


class Tail(Piece):
    """what follows a value: (after white space) a separator or a closing bracket and anything, or the end"""
    def __init__(self, nfa):
        self.nfa = nfa


def join_terms(terms):
    return terms[0] if len(terms) == 1 else cat(*terms)


class Text(object):
    def __init__(self, pieces):
        self.pieces = list(pieces)
        self.cache = {}

    def starts(self):
        """the characters that it may start with (every one, when it may be empty)"""
        nfa = rl.concat([p.nfa for p in self.pieces])
        return rl.ALL if rl.nullable(nfa) else nfa.next(nfa.initial())

    def norm(self, pos):
        i, k = pos
        while i < len(self.pieces) and isinstance(self.pieces[i], Lit) and k >= len(self.pieces[i].s):
            i, k = i + 1, 0
        return i, k

    def skip(self, pos):
        """after the white space at a position"""
        i, k = self.norm(pos)
        while i < len(self.pieces):
            p = self.pieces[i]
            if isinstance(p, Space):
                i, k = i + 1, 0
            elif isinstance(p, Lit) and p.s[k:k + 1] and p.s[k] in WSCHARS:
                k += 1
            else:
                break
            i, k = self.norm((i, k))
        return i, k

    def between(self, a, b):
        """(automaton, term) of the text between two positions"""
        (i, k), (j, m) = a, b
        parts, terms = [], []
        while (i, k) != (j, m):
            p = self.pieces[i]
            if isinstance(p, Lit):
                end = m if i == j else len(p.s)
                parts.append(rl.word(p.s[k:end]))
                terms.append(const(p.s[k:end]))
                if i == j:
                    break
            else:
                parts.append(p.nfa)
                terms.append(p.term)
            i, k = i + 1, 0
        return rl.concat(parts).trim(), (join_terms(terms) if terms and all(t is not None for t in terms) else None)

    def rest(self, pos, skipped=False):
        """automaton of what follows a position (after white space, if skipped)"""
        key = self.norm(pos), skipped
        if key not in self.cache:
            i, k = key[0]
            parts = [p.nfa for p in self.pieces[i:]]
            if parts and k:
                parts[0] = rl.word(self.pieces[i].s[k:])
            n = rl.concat(parts).trim()
            if skipped:
                seen = n.initial()
                while True:
                    more = seen | n.closure({d for s in seen for m, d in n.tr[s] if m & WSMASK})
                    if more == seen:
                        break
                    seen = more
                if seen != n.initial():
                    s = n.state()
                    n.eps[s] = sorted(seen)
                    n.start = s
            self.cache[key] = n
        return self.cache[key]

    def boundaries(self, pos, n=4):
        """positions after one, some letters of, and up to n pieces"""
        i, k = self.norm(pos)
        for j in range(i, min(i + n, len(self.pieces))):
            p = self.pieces[j]
            if isinstance(p, Lit):
                for m in range((k if j == i else 0) + 1, len(p.s) + 1):
                    yield j, m
            elif isinstance(p, Reg):
                yield j + 1, 0
            else:
                return

    def __str__(self):
        return ''.join(p.s if isinstance(p, Lit) else '<%s>' % type(p).__name__ for p in self.pieces)


# ------------------------------------------------------------------ parse trees

class Term(object):
    def __init__(self, rule, text, suppress):
        self.rule, self.text, self.suppress = rule, text, suppress

    def flat(self):
        return self.text


class NT(object):
    def __init__(self, rule, children):
        self.rule, self.children = rule, children

    def flat(self):
        if all(not isinstance(c, Many) and c.flat() is not None for c in self.children):
            return join_terms([c.flat() for c in self.children])
        out = []
        for c in self.children:
            f = None if isinstance(c, Many) else c.flat()
            out.append(fresh('text', ty='str') if f is None else f)
        return join_terms(out)


class ValTree(object):
    """the tree of a value, by the contract of the rule `value`"""
    def __init__(self, v):
        self.v = v

    def flat(self):
        return app('flat', self.v, ty='str')


class Many(object):
    def __init__(self, rep, x, trees):
        self.rep, self.x, self.trees = rep, x, trees


TREE = (Term, NT, ValTree)


def flatten(r):
    out = []
    for e in r:
        if isinstance(e, list):
            out += flatten(e)
        else:
            out.append(e)
    return out


class Parser(object):
    recursion = 'value'

    def __init__(self, graph, delims):
        g = graph
        if g['module'] != 'arpeggio' or g['cls'] != 'ParserPython':
            raise Unsupported('parsers of class %s' % g['cls'])
        if g['reduce_tree'] or g['memoization'] or g['comments'] or g['sem_actions'] or g['debug'] or not g['skipws'] or \
                sorted(g['ws']) != sorted(WSCHARS):
            raise Unsupported('options of the parser')
        self.g, self.delims = g, delims
        self.nodes = [dict(n) for n in g['nodes']]
        self.rules = {}
        for n in self.nodes:
            if n['module'] != 'arpeggio' or n['cls'] not in (
                    'Sequence', 'OrderedChoice', 'Optional', 'ZeroOrMore', 'OneOrMore', 'StrMatch', 'RegExMatch', 'EndOfFile'):
                raise Unsupported('expression %s.%s in a grammar' % (n['module'], n['cls']))
            if n['ws'] is not None or n['skipws'] is not None or n['eolterm'] or n['ignore_case']:
                raise Unsupported('options of an expression')
            if n['rule'] and n['root']:
                if n['rule'] in self.rules and self.rules[n['rule']] is not n:
                    raise Unsupported('two rules called %s' % n['rule'])
                self.rules[n['rule']] = n
        for i, n in enumerate(self.nodes):
            if n['cls'] == 'RegExMatch':
                n['prog'] = rl.regex(n['regex'], n['flags'])
        self.depth = 0

    def run(self, rule, text):
        """tree and position after a rule matches the start of a text"""
        if rule is None:
            n = self.nodes[self.g['top']]
        else:
            n = self.rules.get(rule)
            if n is None:
                raise Unsupported('there is no rule %s' % rule)
        return self.parse(n, text, text.norm((0, 0)), None)

    def parse(self, n, text, pos, last):
        """`last` is the class of the enclosing expression (parser.last_pexpression)"""
        self.depth += 1
        if self.depth > 200:
            self.depth = 0
            raise Undetermined('unbounded recursion of a grammar')
        try:
            if n['cls'] in ('StrMatch', 'RegExMatch', 'EndOfFile'):
                r, p = self.match(n, text, text.skip(pos), last)
                return (None if n['suppress'] else r), text.norm(p)
            if n['rule'] == self.recursion:
                p = text.skip(pos)
                if p[0] < len(text.pieces) and isinstance(text.pieces[p[0]], Val):
                    after = (p[0] + 1, 0)
                    self.check_delimited(text, after)
                    return ValTree(text.pieces[p[0]].v), text.norm(after)
            r, p = getattr(self, 'p_' + n['cls'])(n, text, text.norm(pos))
            if n['suppress'] or isinstance(r, list) and r and r[0] is None:
                r = None
            if n['root'] and r and not isinstance(r, Term):
                if not isinstance(r, TREE):
                    r = flatten(r)
                    if all(isinstance(c, Many) for c in r):
                        raise Undetermined('rule %s may have no elements' % n['rule'])
                    r = NT(n['rule'], r)
            return r, text.norm(p)
        finally:
            self.depth -= 1

    def language(self, n, top=True, stack=()):
        """automaton of a superset of the texts that an expression can consume; texts of values inside are single symbols"""
        space = Space.nfa
        if n['cls'] == 'StrMatch':
            return rl.concat([space, rl.word(n['to_match'])])
        if n['cls'] == 'RegExMatch':
            return rl.concat([space, n['prog']])
        if n['cls'] == 'EndOfFile':
            return rl.concat([space, rl.symbol(rl.END)])
        if n['rule'] == self.recursion and not top:
            return rl.concat([space, rl.symbol(rl.V)])
        if id(n) in stack:
            raise Unsupported('recursion through %s' % (n['rule'] or 'a choice'))
        parts = [self.language(self.nodes[e], False, stack + (id(n),)) for e in n['nodes']]
        if n['cls'] == 'Sequence':
            return rl.concat(parts)
        if n['cls'] == 'OrderedChoice':
            return rl.union(parts)
        if n['cls'] == 'Optional':
            return rl.optional(parts[0])
        more = rl.star(parts[0])
        if n['sep'] is not None:
            sep = self.language(self.nodes[n['sep']], False, stack + (id(n),))
            more = rl.concat([parts[0], rl.star(rl.concat([sep, parts[0]])), rl.optional(sep)])
            return more if n['cls'] == 'OneOrMore' else rl.optional(more)
        return more if n['cls'] == 'ZeroOrMore' else rl.concat([parts[0], more])

    def check_delimited(self, text, pos):
        nfa = text.rest(pos, True)
        start = nfa.initial()
        if nfa.next(start) & ~(WSMASK | rl.chars(self.delims)):
            raise Undetermined('something else than a separator may follow a value in %s' % text)

    def p_Sequence(self, n, text, pos):
        results = []
        for e in n['nodes']:
            r, pos = self.parse(self.nodes[e], text, pos, 'Sequence')
            if r:
                results.append(r)
        if results and all(isinstance(r, list) and all(isinstance(c, Many) for c in flatten(r)) for r in results):
            raise Undetermined('a sequence may have no elements')
        return results or None, pos

    def p_OrderedChoice(self, n, text, pos):
        for e in n['nodes']:
            try:
                r, p = self.parse(self.nodes[e], text, pos, 'OrderedChoice')
            except NoMatch:
                continue
            if r is not None:
                return [r], p
            # N.B. arpeggio does not go back when an alternative matches nothing
            if p != pos:
                raise Undetermined('an alternative without result')
        raise NoMatch('%s at %s of %s' % (n['rule'] or 'a choice', pos, text))

    def p_Optional(self, n, text, pos):
        try:
            r, p = self.parse(self.nodes[n['nodes'][0]], text, pos, 'Optional')
            return [r], p
        except NoMatch:
            return None, pos

    def p_ZeroOrMore(self, n, text, pos, kind='ZeroOrMore'):
        e = self.nodes[n['nodes'][0]]
        sep = self.nodes[n['sep']] if n['sep'] is not None else None
        results, r = [], None

        def once(text, pos, r):
            out = []
            if sep is not None and r:
                q, pos = self.parse(sep, text, pos, kind)
                if q:
                    out.append(q)
            r, pos = self.parse(e, text, pos, kind)
            return out, r, pos
        for _ in range(50):
            i, k = pos = text.norm(pos)
            if i < len(text.pieces) and isinstance(text.pieces[i], Rep):
                rep = text.pieces[i]
                x = fresh('x')
                body = rep.body(x)
                longer = Text(text.pieces[:i] + body + text.pieces[i:])
                try:
                    out, r, p = once(longer, (i, 0), r or (kind == 'Rep' or None))
                except NoMatch as e2:
                    raise Undetermined('a repetition stops early: %s' % e2)
                if not r or longer.norm(p) != longer.norm((i + len(body), 0)):
                    raise Undetermined('a repetition does not follow the elements of the text')
                results.append(Many(rep, x, flatten(out + [r])))
                pos = (i + 1, 0)
                continue
            try:
                out, r, p = once(text, pos, r)
            except NoMatch:
                return results, pos
            if not r:
                return results, p
            results += out + [r]
            if p == pos:
                raise Undetermined('an empty repetition')
            pos = p
        raise Undetermined('a repetition without end')

    def p_OneOrMore(self, n, text, pos):
        r, p = self.p_ZeroOrMore(n, text, pos, 'OneOrMore')
        if not r:
            raise NoMatch('%s at %s of %s' % (n['rule'] or 'a repetition', pos, text))
        if all(isinstance(c, Many) for c in r):
            raise Undetermined('a repetition that may be empty')
        return r, p

    # ---------------------------------------------------------------- tokens

    def match(self, n, text, pos, last):
        return getattr(self, 'm_' + n['cls'])(n, text, pos, last)

    def m_StrMatch(self, n, text, pos, last):
        s = n['to_match']
        i, k = pos
        if not s:
            raise Undetermined('an empty token')
        if i < len(text.pieces) and isinstance(text.pieces[i], Lit):
            frag = text.pieces[i].s[k:k + len(s)]
            if frag == s:
                return Term(n['rule'], const(s), last == 'Sequence'), (i, k + len(s))
            if not s.startswith(frag):
                raise NoMatch('%r at %s of %s' % (s, pos, text))
        nfa = text.rest(pos, True)
        q = nfa.initial()
        for c in s:
            q = nfa.step(q, rl.chars(c))
        if not q:
            raise NoMatch('%r at %s of %s' % (s, pos, text))
        raise Undetermined('%r may match at %s of %s' % (s, pos, text))

    def m_RegExMatch(self, n, text, pos, last):
        prog = n['prog']
        out = rl.outcomes(prog, rl.word(''), text.rest(pos, True))
        if out == {'none'}:
            raise NoMatch('%s at %s of %s' % (n['regex'], pos, text))
        if out == {'at'}:
            return None, pos
        for end in text.boundaries(pos):
            w, term = text.between(pos, end)
            if rl.outcomes(prog, w, text.rest(end)) == {'at'}:
                return Term(n['rule'], term if term is not None else fresh('text', ty='str'), False), end
        raise Undetermined('what %s matches at %s of %s' % (n['regex'], pos, text))

    def m_EndOfFile(self, n, text, pos, last):
        if pos[0] >= len(text.pieces):
            return Term('EOF', const(''), True), pos
        nfa = text.rest(pos, True)
        if nfa.accepting(nfa.initial()):
            raise Undetermined('the end of %s' % text)
        raise NoMatch('end at %s of %s' % (pos, text))


# ------------------------------------------------------------------ trees to values

def untuple(t):
    """tuples of conditional values instead of conditional tuples"""
    if t.op == 'ite':
        c, a, b = t.args[0], untuple(t.args[1]), untuple(t.args[2])
        if a.op == 'tup' and b.op == 'tup' and len(a.args) == len(b.args):
            return tup(*[untuple(Ite(c, x, y)) for x, y in zip(a.args, b.args)])
        return Ite(c, a, b)
    if t.op == 'tup':
        return tup(*[untuple(a) for a in t.args])
    return t


class Visit(object):
    """the visitor of the code under verification on a tree; values of sub texts are given by the contract of `value`"""

    def __init__(self, I, info, cls, none):
        if info['default'] != 'arpeggio' or not info['defaults'] or info['second'] or info['debug'] or \
                set(info['state']) - {'for_second_pass', 'defaults', 'debug', 'file', '_current_indent'}:
            raise Unsupported('options of the visitor')
        self.I, self.methods, self.cls, self.none = I, info['methods'], cls, none
        I.marker = none

    def marker(self, v):
        """the result of visiting the text of a value"""
        if v is NONE:
            return self.none
        if self.I.kindof(v) not in (None, 'none'):
            return v
        return Ite(eq(v, NONE), self.none, v)

    def method(self, rule):
        if not rule or 'visit_' + rule not in self.methods:
            return None
        m = self.I.class_lookup(self.cls, 'visit_' + rule)
        if m is None:
            raise Unsupported('visit_%s is not defined in the code' % rule)
        if isinstance(m, FuncV) and m.fkind == 'staticmethod':
            return m
        if isinstance(m, FuncV):
            return BoundV(m, HInst(self.I, self.cls))
        return m

    def node(self, tree):
        I = self.I
        o = HInst(I, ClsV('ParseTreeNode'))
        text = tree.flat()
        if text.ty != 'str':
            I.assume(pred('isinst:str', text))
        name = 'peg.flat_str.%d' % text.uid
        EXT[name] = lambda I, args, kwargs: text
        o.f['flat_str'] = ExtV(name)
        o.f['rule_name'] = const(tree.rule)
        if isinstance(tree, Term):
            o.f['value'] = text
            o.f['suppress'] = const(tree.suppress)
        elif len(tree.children) == 1 and isinstance(tree.children[0], Term):
            o.f['value'] = text
        return o

    def visit(self, tree):
        """None if the node is to be ignored"""
        I = self.I
        if isinstance(tree, ValTree):
            return self.marker(tree.v)
        if isinstance(tree, Term):
            m = self.method(tree.rule)
            if m is not None:
                return self.ignored(I.call(m, [self.node(tree), HList(I, node=EMPTY)], {}))
            return None if tree.suppress else tree.text
        parts, simple = [], []
        for c in tree.children:
            if isinstance(c, Many):
                parts.append(self.many(c))
                simple = None
            else:
                v = self.visit(c)
                if v is not None:
                    parts.append(lit(I.tou(v)))
                    if simple is not None:
                        simple.append(v)
        m = self.method(tree.rule)
        if m is not None:
            return self.ignored(I.call(m, [self.node(tree), HList(I, node=scat(*parts) if parts else EMPTY)], {}))
        if simple is not None and len(simple) == 1:
            return simple[0]
        if simple is not None and not simple:
            return None
        raise Undetermined('the default visitor on several children of %s' % (tree.rule or 'a node'))

    def ignored(self, v):
        if isinstance(v, T) and self.I.branch(self.I.none_test(v)):
            return None
        return v

    def many(self, c):
        I = self.I
        n = len(I.pc)
        I.pc.append(memf(c.rep.seq, c.x))
        for f in c.rep.facts(c.x) if c.rep.facts else ():
            I.pc.append(f)
        counts = set()

        def body():
            vs = [v for v in map(self.visit, c.trees) if v is not None]
            counts.add(len(vs))
            return tup(*[I.freeze(v) if not isinstance(v, T) else v for v in map(I.tou, vs)])
        try:
            res = I.explore(body, sub=True)
        finally:
            del I.pc[n:]
        if len(counts) != 1:
            raise Undetermined('elements with several numbers of results')
        k = counts.pop()
        if k == 0:
            return EMPTY
        t = untuple(merge_paths(res))
        if k == 1:
            return flat(c.rep.seq, lam(c.x, lit(item(t, 0))))
        return flat(c.rep.seq, lam(c.x, lit(*[item(t, i) for i in range(k)])))
