# coding=utf-8
"""Registry: one-to-one mapping between ids and nicknames (C15 registration and lookup; C16 removal and reset)"""
from whatami import What, whatable, whatareyou
from whatami.registry import WhatamiRegistry
from .common import *

RULE = 'sequences of operations on a registry, compared with a reference model (set of pairs); a case is non-trivial when ' \
       'it is a distinct sequence'
N = 2500


@whatable
def fun(x, p=3):
    return x


class HasId(object):
    def __init__(self, an_id):
        self.an_id = an_id

    def id(self):
        return self.an_id


class HasWhat(object):
    def __init__(self, what):
        self._what = what

    def what(self):
        return self._what


def plain(x, y=1):
    return x


THINGS = {
    # name -> (object, id)
    'A': (lambda: What('A', {'x': 1}), 'A(x=1)'),
    'A2': (lambda: HasWhat(What('A', {'x': 1, 'v': 2}, non_id_keys=['v'])), 'A(x=1)'),
    'Astr': (lambda: 'A(x=1)', 'A(x=1)'),
    'B': (lambda: What('B', {}, out_name='o'), 'o=B()'),
    'Bid': (lambda: HasId('o=B()'), 'o=B()'),
    'fun': (lambda: fun, 'fun(p=3)'),
    'plain': (lambda: plain, 'plain(y=1)'),
    'C': (lambda: 'C()', 'C()'),
    'D': (lambda: What('D', {'q': "it's"}), "D(q='it\\'s')"),
    'empty': (lambda: '', ''),
    'None': (lambda: None, None),
}
NICKS = ['n1', 'n2', 'n3', '', 'A(x=1)', 'C()', None, 'N1', 'n1 ', 1, '1']


def run(case):
    from whatami.registry import WhatamiRegistry
    reg, other = WhatamiRegistry('one'), WhatamiRegistry('two')
    other.register('other(x=1)', 'other')
    model = {}      # nick -> id
    removed_flag = False

    def state():
        if len({type(n) for n in model}) < 2:       # texts and numbers cannot be sorted
            listed = reg.list()
            ok(listed == sorted(model.items()), 'list() is %r and should be %r', listed, sorted(model.items()))
        inverse = {v: k for k, v in model.items()}
        ok(len(inverse) == len(model), 'model')
        for n in NICKS + ['unknown']:
            ok(reg.nick2id(n) == model.get(n), 'nick2id(%r) is %r, should be %r', n, reg.nick2id(n), model.get(n))
        for name, (make, an_id) in THINGS.items():
            ok(reg.id2nick(an_id) == inverse.get(an_id), 'id2nick(%r) is %r, should be %r', an_id, reg.id2nick(an_id),
               inverse.get(an_id))
            if an_id is not None:
                got = reg.nick_or_id(make())
                ok(got == inverse.get(an_id, an_id), 'nick_or_id(%r) is %r', an_id, got)
        ok(other.list() == [('other', 'other(x=1)')], 'another registry has changed: %r', other.list())
        ok(reg.name == 'one', 'name changed')
    state()
    for op in case:
        kind = op[0]
        if kind == 'register':
            thing, nick = op[1:]
            make, an_id = THINGS[thing]
            obj = make()
            inverse = {v: k for k, v in model.items()}
            if obj is None or nick is None:
                e = raises(lambda: reg.register(obj, nick))
                ok(isinstance(e, ValueError), 'register(%r, %r) must raise ValueError, not %r', obj, nick, e)
            elif (nick in model and model[nick] != an_id) or (an_id in inverse and inverse[an_id] != nick):
                e = raises(lambda: reg.register(obj, nick))
                ok(e is not None, 'register(%r, %r) must be rejected with %r', an_id, nick, model)
            else:
                got = reg.register(obj, nick)
                ok(got is obj, 'register must return the object')
                model[nick] = an_id
        elif kind == 'remove':
            nick, thing = op[1:]
            make, an_id = THINGS[thing]
            inverse = {v: k for k, v in model.items()}
            if nick is None and an_id is None:
                valid = False
            elif nick is None:
                valid = an_id in inverse
                nick2 = inverse.get(an_id)
            elif an_id is None:
                valid = nick in model
                nick2 = nick
            else:
                valid = nick in model and model[nick] == an_id
                nick2 = nick
            if valid:
                ok(reg.remove(nickname=nick, what=make()) is None, 'remove must return None')
                del model[nick2]
            else:
                e = raises(lambda: reg.remove(nickname=nick, what=make()))
                ok(e is not None, 'remove(%r, %r) must be rejected with %r', nick, an_id, model)
                if nick is None and an_id is None:
                    ok(isinstance(e, ValueError), 'remove() must raise ValueError, not %r', e)
        elif kind == 'reset':
            reg.reset()
            model = {}
        state()


def table():
    R = lambda t, n: ['register', t, n]
    D = lambda n, t: ['remove', n, t]
    yield []
    for a in ('A', 'A2', 'Astr', 'B', 'fun', 'empty'):
        for b in ('A', 'B', 'Bid', 'C', 'empty', 'plain'):
            for n in ('n1', 'n2', '', 'A(x=1)'):
                yield [R(a, 'n1'), R(b, n), R(b, n)]
    for t in ('A', 'B', 'C', 'fun', 'empty', 'None'):
        for n in ('n1', 'n2', '', None):
            yield [R('A', 'n1'), R('C', 'n2'), R('empty', 'n3'), R('fun', ''), D(n, t)]
            yield [R('A', 'n1'), R('C', 'n2'), R('empty', 'n3'), R('fun', ''), D(n, t), D(n, t), R('A', 'n1'), R('B', 'n1')]
    yield [R('A', 'C()'), R('C', 'A(x=1)'), D('C()', 'A'), R('C', 'C()')]
    yield [R('A', 'C()'), R('C', 'A(x=1)'), ['reset'], R('C', 'C()'), R('A', 'n1')]


def gen(rng):
    out = []
    for _ in range(rng.randrange(1, 9)):
        k = rng.random()
        if k < .6:
            out.append(['register', rng.choice(sorted(THINGS)), rng.choice(NICKS)])
        elif k < .93:
            out.append(['remove', rng.choice(NICKS), rng.choice(sorted(THINGS))])
        else:
            out.append(['reset'])
    return out


def check(case):
    run(case)


def shrink(case):
    for i in range(len(case)):
        yield case[:i] + case[i + 1:]
