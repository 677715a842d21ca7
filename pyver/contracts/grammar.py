"""whatami.parsers: parsing the text of a value gives back the value.

One contract per kind of value. The text is the one that the real plugins (or What.id) write, with optional white space
between tokens, followed by any separator or closing bracket and anything else; the parser is the one that the real code
builds (see peg.py); the result is computed by the methods of the real visitor. Values inside of values obey the contract
(induction on the structure of values): their text is parsed up to its end, into the value.
"""
import re
from string import ascii_letters

from .common import *
from .what import QUAL
from .rendering import P
from .. import regular as rl
from ..peg import *

VISITOR = 'whatami.parsers.WhatamiTreeVisitor'
TEXT = det('text', ty='str', params=('v',), raises=False)
HOOKS = {'whatami.plugins.WhatamiPluginManager.build_string': TEXT, 'whatami.misc.maybe_import': det('imported')}

ID = rl.regex(r'[_A-Za-z][_a-zA-Z0-9]*')
INT = rl.regex(r'-?(0|[1-9][0-9]*)')
FLOAT = rl.regex(r'-?[0-9]+(\.[0-9]+(e[+-]?[0-9]+)?|e[+-]?[0-9]+)')
QUOTED = rl.regex(r"'([^'\\]|\\')*'")
PLAIN = rl.regex(r"'[^'\\]*'")
DELIMS = ',)]}:'
TAIL = rl.regex(r'[\t\n\r ]*([,)\]}:](.|\n)*)?')
OLDDELIMS = DELIMS + '#"'
OLDTAIL = rl.regex(r'[\t\n\r ]*([,)\]}:#"](.|\n)*)?')
TOKEN = re.compile(r"frozenset\(\{|frozenset\(\)|set\(\)|\}\)|<class |[-\[\](){},:=>#\"]|[A-Za-z]+")


def tokens(s):
    out, i = [], 0
    while i < len(s):
        m = TOKEN.match(s, i)
        if not m:
            raise Unsupported('token at %r' % s[i:])
        out.append(Lit(m.group()))
        i = m.end()
    return out


class Writer(object):
    """The pieces of the text that the code writes"""

    def __init__(self, roles, spaces=True):
        self.roles, self.spaces = roles, spaces

    def pieces(self, t):
        return self.spaced(self.go(t))

    def spaced(self, raw, leading=False):
        out = []
        for p in raw:
            if self.spaces and (out or leading) and not isinstance(p, Rep):
                out.append(Space())
            out.append(p)
        return out

    def go(self, t):
        if t in self.roles:
            r = self.roles[t]
            return list(r) if isinstance(r, (list, tuple)) else [r]
        if is_const(t):
            return tokens(cval(t))
        if t.op == 'cat':
            parts = list(t.args)
            out = []
            for i, p in enumerate(parts):
                r = self.roles.get(p)
                if r == 'quoted':
                    continue
                if is_const(p):
                    s = cval(p)
                    if i and self.roles.get(parts[i - 1]) == 'quoted':
                        s = s[1:]
                    if i + 1 < len(parts) and self.roles.get(parts[i + 1]) == 'quoted':
                        if not s.endswith("'"):
                            raise Unsupported('text without quotes')
                        out += tokens(s[:-1])
                        if i + 2 >= len(parts) or not is_const(parts[i + 2]) or not cval(parts[i + 2]).startswith("'"):
                            raise Unsupported('text without quotes')
                        out.append(Reg(self.roles['quotes'], cat(const("'"), parts[i + 1], const("'"))))
                    else:
                        out += tokens(s)
                else:
                    out += self.go(p)
            return out
        if t.op == 'join':
            return self.join(t)
        if t.op == 'app' and t.args[0] == 'text':
            return [Val(t.args[1])]
        if t.op == 'app' and t.args[0] == 'str' and self.key:
            # keys are identifiers: their text are themselves
            return [Reg(ID, t.args[1])]
        raise Unsupported('text %s' % t)

    def join(self, t):
        sep, s = t.args
        out = []
        for p in s.args if s.op == 'scat' else (s,):
            if p.op == 'lit':
                for e in p.args:
                    if out:
                        out += self.go(sep)
                    out += self.go(e)
            elif p.op == 'flat' and p.args[1].args[1].op == 'lit' and len(p.args[1].args[1].args) == 1:
                q, l = p.args
                if not out:
                    # some element is first
                    x0, q = self.split(q)
                    out += self.go(inst(l, x0).args[0])
                out.append(Rep(q, lambda x, l=l: self.spaced(self.go(sep) + self.go(inst(l, x).args[0]), True), self.facts))
            else:
                raise Unsupported('elements %s' % p)
        return out

    facts = None
    key = False

    def split(self, q):
        """q is not empty"""
        if q not in self.order:
            x0 = fresh('first')
            self.I.assume(memf(q, x0))
            self.order[q] = (x0, fresh('others', sort='S'))
        return self.order[q]

    def ordered(self, q):
        """the elements of q, as they are written"""
        x0, others = self.split(q)
        return scat(lit(x0), others)


def none_marker(I, G, which='default'):
    """what the visitor gives for None"""
    V = visitor(I, G, None)
    try:
        tree, _ = parser(G, which).run('value', Text([Lit('None'), Tail(TAIL)]))
    except NoMatch as e:
        raise Unsupported('None is not parsed: %s' % e)
    m = V.visit(tree)
    if m is None or not isinstance(m, T):
        raise Unsupported('the marker of None')
    return m


def visitor(I, G, none):
    info = G['visitor']
    cls = I.resolve('%s.%s' % (info['module'], info['cls']))
    return Visit(I, info, cls, none)


def parser(G, which='default'):
    if (which, 'parser') not in G:
        if which not in G:
            raise Unsupported('there is no parser of old style ids')
        G[which, 'parser'] = Parser(G[which], DELIMS if which != 'old' else OLDDELIMS)
    return G[which, 'parser']


def parsed(I, pieces, rule='value', tail=True, which='default'):
    """the value of a text that starts with these pieces; an exception unless they are what the rule consumes"""
    G = grammars(I.repo)
    V = visitor(I, G, none_marker(I, G, which))
    text = Text(pieces + ([Tail(TAIL if which != 'old' else OLDTAIL)] if tail else []))
    try:
        tree, pos = parser(G, which).run(rule, text)
    except NoMatch:
        I.raise_('NoMatch')
    if pos != text.norm((len(pieces), 0)) and tail:
        # more or less than the text of the value is consumed
        I.raise_('NoMatch')
    return V.visit(tree), V


NEWONLY = ('frozenset', 'frozenset.empty', 'class')


def kind(name, make, props=('C05', 'C07'), which='default'):
    """make(I, w): (text, expected value); the value expected for None is the marker that the visitor uses"""
    if which == 'default' and not name.startswith('What') and name not in NEWONLY:
        kind(name, make, ('C26',), 'old')

    def setup(I):
        I.plain_attr_errors = True
        w = Writer({})
        w.I, w.order = I, {}
        text, expected = make(I, w)
        pieces = w.pieces(text)
        if Text(pieces).starts() & ~Val.first:
            raise Unsupported('the text of a value starts in an unexpected way: %s' % Text(pieces))
        return dict(call=lambda: parsed(I, pieces, which=which)[0],
                    spec=lambda: expected() if callable(expected) else expected)
    REGISTRY.append(Contract('grammar.%svalue.%s' % ('' if which == 'default' else 'old.', name), VISITOR, setup,
                             props=props, hooks=HOOKS))


def written(I, plugin, v):
    """the text that a plugin of the real code writes"""
    t = I.tou(I.call(I.resolve(P + plugin), [v], {}))
    if not isinstance(t, T):
        raise Unsupported('text %r' % (t,))
    return t


def nonempty_seq(I):
    return scat(lit(sym('first')), sym('others', 'S'))


def list_like(plugin, make):
    def f(I, w):
        v = make(I, nonempty_seq(I))
        return written(I, plugin, v), make(I, nonempty_seq(I))
    return f


def empty(plugin, make):
    def f(I, w):
        return written(I, plugin, make(I)), make(I)
    return f


def mklist(I, s):
    return HList(I, node=s)


def mktuple(I, s):
    return seqv('tuple', s)


def mkset(frozen):
    return lambda I, s: HSet(I, node=s, frozen=True) if frozen else HSet(I, node=s)


kind('list', list_like('list_plugin', mklist))
kind('list.empty', empty('list_plugin', lambda I: HList(I, node=EMPTY)))
kind('tuple', list_like('tuple_plugin', mktuple))
kind('tuple.empty', empty('tuple_plugin', lambda I: seqv('tuple', EMPTY)))


def a_set(frozen):
    def f(I, w):
        s = sym('v', 'S')
        I.assume(nonempty(s))
        t = written(I, 'set_plugin', mkset(frozen)(I, s))
        return t, lambda: mkset(frozen)(I, scat(*[scat(lit(a), b) for a, b in w.order.values()]))
    return f


for _f in (False, True):
    kind('frozenset' if _f else 'set', a_set(_f))
    kind(('frozenset' if _f else 'set') + '.empty', empty('set_plugin', lambda I, f=_f: mkset(f)(I, EMPTY)))


def a_dict(I, w):
    d = sym('v', 'D')
    I.assume(nonempty(keys(d)))
    t = written(I, 'dict_plugin', HDict(I, node=d, cls='dict'))

    def expected():
        (x0, others), = w.order.values()
        pairs = flat(scat(lit(x0), others), lam_pair(d))
        return HDict(I, node=frompairs(DEMPTY, pairs), cls='dict')
    return t, expected


def lam_pair(d):
    x = fresh('k')
    return lam(x, lit(tup(x, dget(d, x))))


kind('dict', a_dict)
kind('dict.empty', empty('dict_plugin', lambda I: HDict(I, node=DEMPTY, cls='dict')))


def constant(v):
    """values with a single text"""
    def f(I, w):
        return written(I, 'anyobject_plugin', v), v if v is not NONE else (lambda: I.marker)
    return f


kind('None', constant(NONE))
kind('True', constant(const(True)))
kind('False', constant(const(False)))


def number(ty, nfa=None, text=None):
    def f(I, w):
        v = sym('v', ty=ty)
        t = written(I, 'anyobject_plugin', v)
        if text is not None:
            v = const(float(text))
        elif t is not app('str', v, ty='str'):
            raise Unsupported('the text of a number is %s' % t)
        w.roles[t] = Reg(nfa, t) if text is None else Lit(text)
        if text is None:
            I.number_texts[t] = (ty, v)
        return t, v
    return f


kind('int', number('int', INT))
kind('float', number('float', FLOAT))
for _t in ('inf', '-inf', 'nan'):
    kind('float.' + _t, number('float', text=_t))


def string(quotes):
    """without backslashes; the value is the text between the quotes, that is, the string when it has no quotes"""
    def f(I, w):
        v = sym('v', ty='str')
        I.assume(Not(pred('contains', v, const('\\'))))
        if not quotes:
            I.assume(Not(pred('contains', v, const("'"))))
        t = written(I, 'string_plugin', v)
        if t.op != 'cat' or len(t.args) != 3 or t.args[0] is not const("'") or t.args[2] is not const("'"):
            raise Unsupported('the text of a string is %s' % t)
        w.roles[t] = Reg(QUOTED if quotes else PLAIN, t)
        return t, t.args[1] if quotes else v
    return f


kind('str', string(False), props=('C05', 'C06', 'C07'))
kind('str.quotes', string(True), props=('C05', 'C06', 'C07'))


def clazz(I, w):
    """the text is <class 'path'>"""
    c = sym('c', ty='class')
    for t in ('int', 'float', 'complex'):
        I.assume(Not(same(c, ClsV(t).t)))
    path = app('path', c, ty='str')
    for module in (app('rpartition0', path, const('.'), ty='str'), const('builtins')):
        found = app('getattr', app('imported', module, NONE, tup()), app('rpartition2', path, const('.'), ty='str'))
        I.assume(Not(eq(found, NONE)))
    t = I.call(I.resolve(P + 'anyobject_plugin'), [c], {})
    if t is not app('str', c, ty='str'):
        raise Unsupported('the text of a class is %s' % t)
    w.roles[t] = [Lit('<class '), Reg(PLAIN, cat(const("'"), path, const("'"))), Lit('>')]
    return t, lambda: I.call(I.resolve('spec.grammar.class_of'), [path], {})


kind('class', clazz)


# ------------------------------------------------------------------ configurations

def a_what(params, out, top=False):
    def f(I, w):
        name, conf = sym('name', ty='str'), sym('conf', 'D')
        out_name = sym('out_name', ty='str') if out else NONE
        if params:
            I.assume(nonempty(keys(conf)))
            I.assume(forall_keys(conf, lambda k, v: pred('isinst:str', k)))
        else:
            conf = DEMPTY
        what = I.call(I.resolve(QUAL), [name, HDict(I, node=conf, cls='dict')], dict(out_name=out_name))
        what.f['conf'] = HDict(I, node=conf, cls='dict')
        t = I.tou(I.call(I.getattr(what, 'id'), [], {}))
        w.roles[name] = Reg(ID if params or out or top else rl.without(ID, ('set', 'frozenset')), name)
        if out:
            w.roles[out_name] = Reg(ID, out_name)
        w.key = True

        def expected():
            c = DEMPTY
            if params:
                (x0, others), = w.order.values()
                c = frompairs(DEMPTY, flat(scat(lit(x0), others), lam_pair(conf)))
            return I.call(I.resolve(QUAL), [name, HDict(I, node=c, cls='dict')], dict(out_name=out_name))
        return t, expected
    return f


for _p in (False, True):
    for _o in (False, True):
        kind('What%s%s' % ('.params' if _p else '', '.out' if _o else ''), a_what(_p, _o))


# ------------------------------------------------------------------ whole texts

def junk_after(chars):
    """what does not start with white space, nor with these characters"""
    return rl.concat([rl.symbol(rl.ALL & ~WSMASK & ~rl.chars(chars)), ANY])


def whole(name, make, junk=None, which='default'):
    """parsing consumes the whole text: white space at the ends is ignored, and anything else is rejected"""
    def setup(I):
        I.plain_attr_errors = True
        w = Writer({})
        w.I, w.order = I, {}
        text, expected = make(I, w)
        pieces = [Space()] + w.pieces(text) + [Space()]
        if junk is not None:
            pieces.append(Reg(junk, None))

        def spec():
            return expected() if junk is None else I.raise_('NoMatch')
        return dict(call=lambda: parsed(I, pieces, None, False, which)[0], spec=spec)
    REGISTRY.append(Contract(
        'grammar.%stext.%s' % ('' if which == 'default' else 'old.', name),
        'whatami.parsers.build_whatami_parser' if which == 'default' else 'whatami.parsers.build_oldwhatami_parser',
        setup, props=('C05', 'C07') if which == 'default' else ('C26',), hooks=HOOKS, only_raises=junk is not None))


for _p in (False, True):
    for _o in (False, True):
        for _j in (False, True):
            whole('What%s%s%s' % ('.params' if _p else '', '.out' if _o else '', '.junk' if _j else ''),
                  a_what(_p, _o, True), junk_after('') if _j else None)


# ------------------------------------------------------------------ nothing else is accepted

def reference():
    """texts of values (of values whose elements are values), and of configurations, with white space between tokens"""
    S = Space.nfa
    value = rl.symbol(rl.V)

    def seq(*parts):
        out = []
        for p in parts:
            out += [S, tokens_nfa(p) if isinstance(p, str) else p]
        return rl.concat(out)

    def tokens_nfa(s):
        return rl.word(s)

    def separated(p):
        return rl.concat([p, rl.star(seq(',', p))])
    elements = separated(seq(value))
    digits = r'-?\d+(\.\d*)?([eE][+-]?\d+)?'
    quoted = rl.regex(r"'([^']|\\')*'")
    what = rl.concat([rl.optional(seq(ID, '=')), seq(ID, '('), rl.optional(separated(seq(ID, '=', value))), seq(')')])
    values = rl.union(
        [seq(t) for t in ('None', 'True', 'False', 'inf', '-inf', 'nan', 'set()', 'frozenset()')] +
        [seq(rl.regex(digits)), seq(quoted), seq('<class ', quoted, '>'), what] +
        [rl.concat([seq(a), rl.optional(elements), seq(b)]) for a, b in ('()', '[]')] +
        [rl.concat([seq(a), elements, seq(b)]) for a, b in (('{', '}'), ('frozenset({', '})'))] +
        [rl.concat([seq('{'), rl.optional(separated(seq(value, ':', value))), seq('}')])])
    return values, rl.concat([what, seq(rl.symbol(rl.END))])


def accepted(name, index, embed):
    def setup(I):
        def call():
            g = parser(grammars(I.repo))
            n = g.rules.get('value') if index == 0 else g.nodes[g.g['top']]
            if n is None:
                raise Unsupported('there is no rule value')
            text = rl.included(g.language(n).trim(), reference()[index].trim())
            if text is None:
                return NONE
            if not really_accepted(I.repo, embed % text):
                raise Unsupported('the grammar may accept %r, but it is rejected' % (embed % text))
            return const(embed % text)
        return dict(call=call, spec=lambda: NONE)
    REGISTRY.append(Contract('grammar.only.' + name, 'whatami.parsers.build_whatami_parser', setup, props=('C07',)))


accepted('values', 0, 'n(k=%s)')
accepted('configurations', 1, '%s')


@contract(['C05', 'C07'], target='whatami.parsers.build_whatami_parser', name='grammar.same_parser')
def same_parser(I):
    """the parser in use by default is the one that is built"""
    def call():
        G = grammars(I.repo)
        return boxb(TRUE if G['default'] == G['built'] else FALSE)
    return dict(call=call, spec=lambda: boxb(TRUE))


# ------------------------------------------------------------------ parse_whatid

BUILD_PARSER = det('built_parser', raises=False)
PARSING = {'whatami.parsers.build_whatami_parser': BUILD_PARSER, 'spec.grammar.a_parser': BUILD_PARSER,
           'new:WhatamiTreeVisitor': lambda I, f, args, kwargs, kwd=None: app('built_visitor', *[I.arg(a) for a in args]),
           'spec.grammar.a_visitor': lambda I, f, args, kwargs, kwd=None: app('built_visitor')}


def parse(name, parser_, visitor_):
    def setup(I):
        I.plain_attr_errors = True
        args = [sym('id_string', ty='str')]
        args += [NONE if not parser_ else sym('parser', ty='obj'), NONE if not visitor_ else sym('visitor', ty='obj')]
        m = I.module('whatami.parsers')
        I.module_global(m, 'DEFAULT_WHATAMI_PARSER')
        return dict(call=lambda: I.call(I.resolve('whatami.parsers.parse_whatid'), args, {}),
                    spec=lambda: I.call(I.resolve('spec.grammar.parse_whatid'), args, {}),
                    state=['DEFAULT_WHATAMI_PARSER'], frame=dict(default=lambda: I.module_global(m, 'DEFAULT_WHATAMI_PARSER')))
    REGISTRY.append(Contract('grammar.parse_whatid.' + name, 'whatami.parsers.parse_whatid', setup, props=('C07',),
                             hooks=PARSING))


parse('default', False, False)
parse('parser', True, False)
parse('visitor', False, True)
parse('both', True, True)


# ------------------------------------------------------------------ old style ids

def old_style(params, quotes):
    """name#key=value#key=value, between double quotes when it is a value"""
    def f(I, w):
        name, conf = sym('name', ty='str'), sym('conf', 'D')
        parts = [name, const('#')]
        if params:
            I.assume(nonempty(keys(conf)))
            I.assume(forall_keys(conf, lambda k, v: pred('isinst:str', k)))
            x = fresh('k')
            parts.append(join(const('#'), flat(keys(conf), lam(x, lit(cat(
                app('str', x, ty='str'), const('='), app('text', dget(conf, x), ty='str')))))))
        if quotes:
            parts = [const('"')] + parts + [const('"')]
        w.roles[name] = Reg(ID, name)
        w.key = True

        def expected():
            c = DEMPTY
            if params:
                (x0, others), = w.order.values()
                c = frompairs(DEMPTY, flat(scat(lit(x0), others), lam_pair(conf)))
            return I.call(I.resolve(QUAL), [name, HDict(I, node=c, cls='dict')], {})
        return cat(*parts), expected
    return f


NOT_A_NAME = junk_after('_' + ascii_letters)
AFTER_PARAMS = rl.concat([rl.symbol(rl.chars(OLDDELIMS.replace('#', ''))), ANY])

for _p in (False, True):
    kind('What%s' % ('.params' if _p else ''), old_style(_p, True), ('C26',), 'old')
    for _q in (False, True):
        for _j in (False, True):
            # N.B. without quotes, parameters may follow
            whole('What%s%s%s' % ('.params' if _p else '', '.quotes' if _q else '', '.junk' if _j else ''),
                  old_style(_p, _q), None if not _j else junk_after('') if _q else AFTER_PARAMS if _p else NOT_A_NAME,
                  'old')
