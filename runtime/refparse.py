# coding=utf-8
"""Reference recogniser of ids: recursive descent with all the alternatives"""
import re

WS = ' \t\n\r'
ID = re.compile(r'[_A-Za-z][_a-zA-Z0-9]*')
NUM = re.compile(r'-?[0-9]+(\.[0-9]*)?([eE][+-]?[0-9]+)?')
STR = re.compile(r"'(?:\\.|[^'\\])*'", re.S)


class Parser(object):
    def __init__(self, s):
        self.s = s
        self.memo = {}

    def skip(self, i):
        while i < len(self.s) and self.s[i] in WS:
            i += 1
        return i

    def lit(self, i, t):
        i = self.skip(i)
        return i + len(t) if self.s.startswith(t, i) else None

    def rx(self, i, r):
        i = self.skip(i)
        m = r.match(self.s, i)
        return (m.end(), m.group()) if m else None

    def seq(self, i, item, close):
        """[(end, [items])] of a possibly empty comma separated list with its closing text"""
        out = []
        e = self.lit(i, close)
        if e is not None:
            out.append((e, []))
        frontier = [(j, [v]) for j, v in item(i)]
        while frontier:
            new = []
            for j, vs in frontier:
                e = self.lit(j, close)
                if e is not None:
                    out.append((e, vs))
                c = self.lit(j, ',')
                if c is not None:
                    new += [(k, vs + [v]) for k, v in item(c)]
            frontier = new
        return out

    def whatid(self, i):
        key = ('w', i)
        if key in self.memo:
            return self.memo[key]
        out = []
        r = self.rx(i, ID)
        if r:
            j, name = r
            e = self.lit(j, '=')
            starts = [(i, None)]
            if e is not None:
                starts.append((e, name))
            for st, outname in starts:
                r2 = self.rx(st, ID)
                if r2:
                    o = self.lit(r2[0], '(')
                    if o is not None:
                        for end, kvs in self.seq(o, self.kv, ')'):
                            out.append((end, ('what', r2[1], dict(kvs), outname)))
        self.memo[key] = out
        return out

    def kv(self, i):
        r = self.rx(i, ID)
        if not r:
            return []
        e = self.lit(r[0], '=')
        if e is None:
            return []
        return [(j, (r[1], v)) for j, v in self.value(e)]

    def dkv(self, i):
        out = []
        for j, k in self.value(i):
            e = self.lit(j, ':')
            if e is not None:
                out += [(m, (k, v)) for m, v in self.value(e)]
        return out

    def value(self, i):
        key = ('v', i)
        if key in self.memo:
            return self.memo[key]
        out = list(self.whatid(i))
        for t, v in (('set()', ('set', ())), ('frozenset()', ('frozenset', ())), ('None', None), ('True', True), ('False', False),
                     ('-inf', float('-inf')), ('inf', float('inf')), ('nan', float('nan'))):
            e = self.lit(i, t)
            if e is not None:
                out.append((e, ('lit', repr(v))))
        for rx, f in ((NUM, 'num'), (STR, 'str')):
            r = self.rx(i, rx)
            if r:
                out.append((r[0], (f, r[1])))
        for op, cl, item, f in (('(', ')', self.value, 'tuple'), ('[', ']', self.value, 'list'), ('{', '}', self.dkv, 'dict')):
            e = self.lit(i, op)
            if e is not None:
                out += [(j, (f, vs)) for j, vs in self.seq(e, item, cl)]
        for op, cl in (('{', '}'), ('frozenset({', '})')):
            e = self.lit(i, op)
            if e is not None:
                out += [(j, (op, vs)) for j, vs in self.seq(e, self.value, cl) if vs]
        e = self.lit(i, '<class ')
        if e is not None:
            r = self.rx(e, STR)
            if r:
                g = self.lit(r[0], '>')
                if g is not None:
                    out.append((g, ('class', r[1])))
        self.memo[key] = out
        return out

    def accepts(self):
        return any(self.skip(e) == len(self.s) for e, _ in self.whatid(0))


def accepts(s):
    return Parser(s).accepts()


def tokens(an_id):
    """tokens of a valid id, so that white space can be put between them"""
    out, i = [], 0
    fixed = ['frozenset()', 'frozenset({', 'set()', '})', '<class ']
    while i < len(an_id):
        for f in fixed:
            if an_id.startswith(f, i) and (f != '})' or any(t == 'frozenset({' for t in out)) and \
                    not (f == 'set()' and out and ID.match(out[-1]) and False):
                if f == '})' and opens(out) != 'frozenset({':
                    continue
                out.append(f)
                i += len(f)
                break
        else:
            for r in (STR, ID, NUM):
                m = r.match(an_id, i)
                if m:
                    out.append(m.group())
                    i = m.end()
                    break
            else:
                if an_id.startswith('-inf', i):
                    out.append('-inf')
                    i += 4
                else:
                    out.append(an_id[i])
                    i += 1
    return out


def opens(toks):
    stack = []
    for t in toks:
        if t in ('(', '[', '{', 'frozenset({'):
            stack.append(t)
        elif t in (')', ']', '}', '})') and stack:
            stack.pop()
    return stack[-1] if stack else None
