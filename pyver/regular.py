"""Regular languages over texts, and the exact semantics of regular expression matching (Perl priorities).

Characters are represented by one character of each class that the constructs in use can tell apart: all of ASCII, and a
letter, a digit, a white space, a symbol and the last character of Unicode outside of it. Sets of characters are bit masks.
"""
import re
try:
    from re import _parser as sre_parse, _constants as K
except ImportError:  # pragma: no cover
    import sre_parse
    import sre_constants as K

from .interp import Unsupported

NONASCII = [0xe9, 0x660, 0x2028, 0xd7, 0xd800, 0x10ffff]
REPS = list(range(128)) + NONASCII
BIT = {c: 1 << i for i, c in enumerate(REPS)}
ALL = (1 << len(REPS)) - 1
END = 1 << len(REPS) + 1      # the end of the text (only in the languages of `accepted`)
V = 1 << len(REPS)      # the text of a value, as a single symbol (only in the languages of `accepted`)


def chars(s):
    m = 0
    for c in s:
        if ord(c) > 127:
            raise Unsupported('a grammar with characters outside of ASCII')
        m |= BIT[ord(c)]
    return m


def where(f):
    m = 0
    for c in REPS:
        if f(c):
            m |= BIT[c]
    return m


def category(pattern):
    r = re.compile(pattern)
    return where(lambda c: r.match(chr(c)))


CATEGORIES = {K.CATEGORY_DIGIT: r'\d', K.CATEGORY_NOT_DIGIT: r'\D', K.CATEGORY_SPACE: r'\s', K.CATEGORY_NOT_SPACE: r'\S',
              K.CATEGORY_WORD: r'\w', K.CATEGORY_NOT_WORD: r'\W'}


class NFA(object):
    """states are numbers; eps: ordered lists (first is preferred); tr: lists of (mask, state)"""

    def __init__(self):
        self.eps, self.tr = [], []
        self.start = self.accept = None

    def state(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.eps) - 1

    def add(self, other):
        """copies the states of another automaton, and returns its (start, accept) here"""
        n = len(self.eps)
        self.eps += [[n + s for s in e] for e in other.eps]
        self.tr += [[(m, n + s) for m, s in t] for t in other.tr]
        return n + other.start, n + other.accept

    def closure(self, states):
        seen = set(states)
        todo = list(states)
        while todo:
            s = todo.pop()
            for e in self.eps[s]:
                if e not in seen:
                    seen.add(e)
                    todo.append(e)
        return frozenset(seen)

    def initial(self):
        return self.closure([self.start])

    def step(self, states, bit):
        return self.closure({d for s in states for m, d in self.tr[s] if m & bit})

    def next(self, states):
        """the characters that can follow"""
        m = 0
        for s in states:
            for mask, _ in self.tr[s]:
                m |= mask
        return m

    def accepting(self, states):
        return self.accept in states

    def trim(self):
        """drops transitions to states that cannot reach the end"""
        back = {}
        for s in range(len(self.eps)):
            for d in self.eps[s] + [d for _, d in self.tr[s]]:
                back.setdefault(d, []).append(s)
        live = {self.accept}
        todo = [self.accept]
        while todo:
            for s in back.get(todo.pop(), ()):
                if s not in live:
                    live.add(s)
                    todo.append(s)
        for s in range(len(self.eps)):
            self.eps[s] = [d for d in self.eps[s] if d in live]
            self.tr[s] = [(m, d) for m, d in self.tr[s] if d in live and m]
        if self.start not in live:
            raise Unsupported('an empty language')
        return self


def word(s):
    n = NFA()
    n.start = q = n.state()
    for c in s:
        r = n.state()
        n.tr[q].append((chars(c), r))
        q = r
    n.accept = q
    return n


def symbol(mask):
    n = NFA()
    n.start, n.accept = n.state(), n.state()
    n.tr[n.start].append((mask, n.accept))
    return n


def concat(parts):
    n = NFA()
    n.start = q = n.state()
    for p in parts:
        a, b = n.add(p)
        n.eps[q].append(a)
        q = b
    n.accept = q
    return n


def union(parts):
    n = NFA()
    n.start, n.accept = n.state(), n.state()
    for p in parts:
        a, b = n.add(p)
        n.eps[n.start].append(a)
        n.eps[b].append(n.accept)
    return n


def star(p, greedy=True):
    n = NFA()
    n.start, n.accept = n.state(), n.state()
    a, b = n.add(p)
    n.eps[n.start] = [a, n.accept] if greedy else [n.accept, a]
    n.eps[b].append(n.start)
    return n


def optional(p, greedy=True):
    n = NFA()
    n.start, n.accept = n.state(), n.state()
    a, b = n.add(p)
    n.eps[n.start] = [a, n.accept] if greedy else [n.accept, a]
    n.eps[b].append(n.accept)
    return n


def nullable(p):
    return p.accepting(p.initial())


def charset(items):
    m, negate = 0, False
    for op, a in items:
        if op is K.NEGATE:
            negate = True
        elif op is K.LITERAL:
            m |= chars(chr(a))
        elif op is K.RANGE:
            if a[1] > 127:
                raise Unsupported('a range of characters outside of ASCII')
            m |= where(lambda c: a[0] <= c <= a[1])
        elif op is K.CATEGORY:
            m |= category(CATEGORIES[a])
        else:
            raise Unsupported('%s in a set of characters' % op)
    return ALL & ~m if negate else m


def regex(pattern, flags=0):
    """The automaton of a regular expression; its ordered empty transitions are the priorities of the matcher"""
    if flags & ~(re.MULTILINE | re.DOTALL | re.UNICODE):
        raise Unsupported('flags of a regular expression')
    dotall = flags & re.DOTALL

    def go(p):
        return concat([one(op, a) for op, a in p])

    def one(op, a):
        if op is K.LITERAL:
            return symbol(chars(chr(a)))
        if op is K.NOT_LITERAL:
            return symbol(ALL & ~chars(chr(a)))
        if op is K.ANY:
            return symbol(ALL if dotall else ALL & ~chars('\n'))
        if op is K.IN:
            return symbol(charset(a))
        if op is K.BRANCH:
            return union([go(p) for p in a[1]])
        if op is K.SUBPATTERN:
            if a[1] or a[2]:
                raise Unsupported('flags in a group')
            return go(a[3])
        if op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, p = a
            p = go(p)
            greedy = op is K.MAX_REPEAT
            if hi is not K.MAXREPEAT and hi > 20 or lo > 20:
                raise Unsupported('a large repetition')
            parts = [p] * lo
            if hi is K.MAXREPEAT:
                if nullable(p):
                    raise Unsupported('repetition of something that can be empty')
                parts.append(star(p, greedy))
            else:
                rest = None
                for _ in range(hi - lo):
                    rest = optional(p if rest is None else concat([p, rest]), greedy)
                if rest is not None:
                    parts.append(rest)
            return concat(parts)
        raise Unsupported('%s in a regular expression' % op)
    parsed = sre_parse.parse(pattern, flags)
    if parsed.state.flags & ~(flags | re.UNICODE):
        raise Unsupported('flags of a regular expression')
    return go(parsed).trim()


def without(p, words):
    """the language without some words"""
    n = NFA()
    trie = {''} | {w[:i] for w in words for i in range(len(w) + 1)}
    ids = {}
    todo = []

    def get(q, t):
        if (q, t) not in ids:
            ids[q, t] = n.state()
            todo.append((q, t))
        return ids[q, t]
    n.start = get(p.start, '')
    n.accept = n.state()
    while todo:
        q, t = todo.pop()
        s = ids[q, t]
        if q == p.accept and t not in words:
            n.eps[s].append(n.accept)
        for d in p.eps[q]:
            n.eps[s].append(get(d, t))
        for m, d in p.tr[q]:
            off = m
            if t is not None:
                for w in trie:
                    if w and w[:-1] == t and m & chars(w[-1]):
                        n.tr[s].append((chars(w[-1]), get(d, w)))
                        off &= ~chars(w[-1])
            if off:
                n.tr[s].append((off, get(d, None)))
    return n.trim()


# ------------------------------------------------------------------ matching

def bits(mask):
    while mask:
        b = mask & -mask
        yield b
        mask ^= b


def outcomes(prog, w, x):
    """How `prog` (a regular expression) matches the texts of w followed by those of x: subset of {none, before, at, after},
    for the position where the match ends with respect to the end of the text of w. All are exact: every text is explored.
    """
    def threads(order):
        """threads in order of priority, up to the first one that is done; and whether one is done"""
        out, seen = [], set()

        def go(s):
            if s in seen:
                return False
            seen.add(s)
            if s == prog.accept:
                return True
            if prog.tr[s]:
                out.append(s)
            for e in prog.eps[s]:
                if go(e):
                    return True
            return False
        for s in order:
            if go(s):
                return tuple(out), True
        return tuple(out), False

    results = set()
    seen = set()
    todo = [((prog.start,), 'none', 'w', w.initial())]
    while todo:
        item = todo.pop()
        if item in seen:
            continue
        seen.add(item)
        order, found, phase, text = item
        options = []
        if phase == 'w':
            if w.accepting(text):
                options.append(('x', 'at', x, x.initial()))
            if w.next(text):
                options.append(('w', 'before', w, text))
        else:
            options.append(('x', 'after', x, text))
        for ph, position, auto, states in options:
            live, done = threads(order)
            rec = position if done else found
            if not live:
                results.add(rec)
                continue
            if ph == 'x' and auto.accepting(states):
                results.add(rec)
            # groups of characters that behave the same
            for b in bits(classes(prog, live, auto, states)):
                nxt = []
                for s in live:
                    for m, d in prog.tr[s]:
                        if m & b:
                            nxt.append(d)
                after = auto.step(states, b)
                if not nxt:
                    results.add(rec)
                else:
                    todo.append((tuple(nxt), rec, ph, after))
        if len(seen) > 200000:
            raise Unsupported('a regular expression is too large')
    return results


def classes(prog, live, auto, states):
    """one character of each class of characters that the automata can tell apart"""
    parts = [auto.next(states)]
    masks = {m for s in live for m, _ in prog.tr[s]} | {m for s in states for m, _ in auto.tr[s]}
    for m in masks:
        nxt = []
        for p in parts:
            for q in (p & m, p & ~m):
                if q:
                    nxt.append(q)
        parts = nxt
    out = 0
    for p in parts:
        out |= p & -p
    return out


def included(a, b):
    """a text of a that is not in b, or None if there is none"""
    start = (a.initial(), b.initial())
    seen = {start: ''}
    todo = [start]
    while todo:
        p, q = item = todo.pop(0)
        if a.accepting(p) and not b.accepting(q):
            return seen[item]
        for c in bits(classes(b, q, a, p)):
            nxt = (a.step(p, c), b.step(q, c))
            if nxt[0] and nxt not in seen:
                seen[nxt] = seen[item] + ('None' if c == V else '' if c == END else chr(REPS[c.bit_length() - 1]))
                todo.append(nxt)
        if len(seen) > 50000:
            raise Unsupported('languages are too large')
    return None
