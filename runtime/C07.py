# coding=utf-8
"""Parsing: whole text, rejection, white space, no memory"""
import random

from .common import *
from .refparse import accepts, tokens

RULE = 'ids of random configurations with white space between tokens, their mutations (characters removed, inserted, replaced, ' \
       'truncated, extended), compared with a reference recogniser; results are modified and the text parsed again'
N = 2500

BAD = ['', ' ', 'a', 'a(', 'a)', 'a()b', 'a() b()', 'a()()', 'a(b)', 'a(b=)', 'a(=1)', 'a(b=1', 'a(b=1,)', 'a(,b=1)', 'a(b=1 c=2)', 'a(b=1)x',
       'a(b=1),', '1a()', 'a b()', 'a=()', '=a()', 'a=b=c()', 'a(b=1))', '(a())', 'a(b=[1)', 'a(b=[1,])', 'a(b={1:})', 'a(b={1:2,3})',
       "a(b='x)", "a(b=x')", "a(b='x''y')", 'a(b=c)', 'a(b=None1)', 'a(b=truE)', 'a(b=1.2.3)', 'a(b=1e)', 'a(b=.5)', 'a(b=+1)', 'a(b=--1)',
       'a(b=nanx)', 'a(b=-nan)', 'a(b=<class str>)', "a(b=<class 'str')", 'a(1=2)', 'a(b==1)', 'a(b=1;c=2)', 'a[b=1]', 'a{}', 'a(b={)',
       'a(b=frozenset({1:2}))', 'a(b=set(1))', 'a(b=frozenset)', 'a(b=1)#', '#a()', 'a#b=1', 'None', '1', "'a()'", 'a(b=0x10)', 'a()\x00',
       'a(b=1j)', 'a(*b)', 'a.b()', 'a-b()', u'é()', 'a(b.c=1)', 'a(b=1)=c', 'a(b=()', 'a(b=(,))', 'a(b={,})', 'a(b=[,])', 'x=', 'x=y']
GOOD = ['a()', ' a()', 'a() ', '\na()\n', 'a ( )', 'a( b = 1 )', 'o = a()', "a(b=' x ')", "a(b= ' x ' )", 'a(b=[ 1 , 2 ])', "a(b={ 'x' : 1 })",
        "a(b=<class 'str'>)", "a(b=<class  'str' >)", 'a(b=set())', 'a(b=frozenset( {1}))' , 'a(b=frozenset({ 1 }))', 'a(b=- 1)', 'a(b=01)',
        'a(b=1.)', 'a(b=1E5)', 'a(b=-inf)', 'a(b=nan,c=inf)', 'a(b=(1,))', 'a(b=1,b=2)', 'a(b=x=y())', 'a(b=c=d=e())', 'a(b=set(x=1))']


def table():
    for t in BAD + GOOD:
        yield ['text', t]
        yield ['text', 'x(y=%s)' % t]
        yield ['text', 'x(y=[%s])' % t]
    ids = ["A(a=1,b='x',c=[1,{2:3}],d=n(x={1}))", "o=A()", "A(x=frozenset({1}),y=())"]
    for a in ids:
        for suffix in (' ', '\n', ')', '(', ',', 'x', '()', '=', "'", ' B()', ',B()', '#', '1', ';', a, '\x00', ' .', '[]'):
            yield ['text', a + suffix]
            yield ['text', suffix + a]
        for i in range(len(a)):
            yield ['text', a[:i]]
            yield ['text', a[i:]]
            yield ['text', a[:i] + a[i + 1:]]
            yield ['text', a[:i] + ' ' + a[i:]]
    for v in (['l', 1, 'a'], ['d', ['a', ['l']]], ['s', 1], ['l'], ['d'], ['s'], ['what', 'n', [['x', ['l']]], None, None], ['what', 'n', [], None, None]):
        yield ['conf', ['what', 'N', [['k', v], ['l', ['l', v if v[0] != 's' else 1]]], None, 'o'], 1]


def gen(rng):
    w = rand_what(rng, rng.choice([1, 1, 2]), classes=True, quotes=rng.random() < .5)
    if rng.random() < .3:
        return ['conf', w, rng.randrange(10 ** 6)]
    s = dec(w).id()
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        i = rng.randrange(len(s) + 1)
        k = rng.randrange(5)
        c = rng.choice(list("(),='{}[]: #<>\"-1aN.") + ['()', 'None', ' x', '==', ',,', "''"])
        if k == 0:
            s = s[:i] + s[i + 1:]
        elif k == 1:
            s = s[:i] + c + s[i:]
        elif k == 2:
            s = s[:i] + c + s[i + 1:]
        elif k == 3:
            s = s[:i]
        else:
            s = s + c
    return ['text', s]


def mutate(w):
    """changes everything mutable in a parsed configuration"""
    from whatami import What
    if isinstance(w, What):
        for v in w.conf.values():
            mutate(v)
        w.conf['zz_added'] = 1
        for k in list(w.conf)[:1]:
            del w.conf[k]
        w.non_id_keys.add('zz')
        w.name += 'x'
        w.out_name = 'changed'
    elif isinstance(w, dict):
        for v in w.values():
            mutate(v)
        w['zz_added'] = 1
    elif isinstance(w, list):
        for v in w:
            mutate(v)
        w.append('zz_added')
    elif isinstance(w, tuple):
        for v in w:
            mutate(v)
    elif isinstance(w, set):
        w.add('zz_added')


def check(case):
    from whatami import parse_whatid
    if case[0] == 'text':
        s = case[1]
        if '\\' in s:
            return
        try:
            want = accepts(s)
        except RuntimeError:
            return
        try:
            p = parse_whatid(s)
            got = True
        except Exception:
            got = False
        if got and not want or want and not got:
            if "<class" in s and want:
                return
            if want and ('set()' in s or 'frozenset' in s):
                return      # set() and frozenset() are always the empty sets
            try:
                unhashable = want and not got and isinstance(raises(lambda: parse_whatid(s), TypeError), TypeError)
            except Exception:
                unhashable = False
            if unhashable:
                return      # lists or configurations as elements of sets or keys of dictionaries
        ok(got == want, '%r is %s, should be %s', s, 'accepted' if got else 'rejected', 'accepted' if want else 'rejected')
        if got:
            c = canon(p)
            mutate(p)
            ok(canon(parse_whatid(s)) == c, '%r is parsed differently after modifying a result', s)
            ok(canon(parse_whatid('a(b=[1],c={})')) == canon(dec(['what', 'a', [['b', ['l', 1]], ['c', ['d']]], None, None])), 'other')
        else:
            ok(canon(parse_whatid('a(b=[1],c={})')) == canon(dec(['what', 'a', [['b', ['l', 1]], ['c', ['d']]], None, None])),
               'wrong parse after rejecting %r', s)
        return
    _, j, seed = case
    rng = random.Random(seed)
    s = dec(j).id()
    first = parse_whatid(s)
    c = canon(first)
    if '\\' not in s:
        toks = tokens(s)
        for _ in range(2):
            spaced = ''.join(rng.choice(['', '', ' ', '\n', '\t ', '  ', '\r\n']) + t for t in toks) + rng.choice(['', ' ', '\n'])
            p = parse_whatid(spaced)
            ok(canon(p) == c, 'white space changes the result: %r and %r', s, spaced)
    mutate(first)
    second = parse_whatid(s)
    ok(canon(second) == c, '%r is parsed differently after modifying a result: %r', s, second)
    raises(lambda: parse_whatid(s + ')'))
    third = parse_whatid(s)
    mutate(second)
    ok(canon(third) == c and canon(parse_whatid(s)) == c, '%r is parsed differently after a rejected text', s)


def shrink(case):
    if case[0] == 'text':
        for s in shrink_value(case[1]):
            yield ['text', s]
    else:
        for w in shrink_what(case[1]):
            yield ['conf', w, case[2]]
