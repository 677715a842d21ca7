"""whatami.minijoblib.hashing: hashes of content"""
from .common import *
from ..builtins_ import EXT
from .what import equal_mappings
from .rendering import equal_sets

M = 'whatami.minijoblib.hashing.'
S = 'spec.hashing.'


def add(name, setup, target=None, **kw):
    REGISTRY.append(Contract('hashing.' + name, M + (target or name), setup, props=('C29',), **kw))


# ------------------------------------------------------------------ the order of sets and dictionaries does not matter

def raw(s):
    """the sequence has the elements of a container, not something computed from them"""
    if s.op in ('flat', 'filter'):
        x = fresh('x')
        r = tm._single(inst(s.args[1], x))
        if r is None or not (r[1] is x or r[1].op == 'tup' and r[1].args[0] is x):
            return False
        return raw(s.args[0])
    return True


HASHES = {M + 'hasher': det('hashed', ty='str', params=('obj',), raises=False)}


def quietly(f, v, which):
    """no exception is acceptable"""
    try:
        return f(v)
    except PyExc:
        return const('%s raises' % which)


def sets(comparable):
    def setup(I):
        if not comparable:
            I.incomparable = raw
        a, b = HSet(I, node=sym('one', 'S')), HSet(I, node=sym('other', 'S'))
        equal_sets(I, a.f['node'], b.f['node'])
        c = I.resolve(M + '_ConsistentSet')

        def made(x):
            o = I.instantiate(c, [x], {})
            return tup(*[I.arg(o.f[k]) for k in sorted(o.f)])
        return dict(call=lambda: quietly(made, a, 'one'), spec=lambda: quietly(made, b, 'other'),
                    frame=dict(a=a, b=b))
    return setup


add('_ConsistentSet', sets(True), target='_ConsistentSet.__init__')
add('_ConsistentSet.incomparable', sets(False), target='_ConsistentSet.__init__', hooks=HASHES)


def pickles(name, *what):
    """contract of a method of the pickler of the standard library: an effect that depends on its arguments"""
    def ext(I, args, kwargs):
        vals = [I.arg(a) for a in args[1:]]
        vals = [seqv('list', I.seq(a)) if name == '_batch_setitems' else t for a, t in zip(args[1:], vals)]
        I.effect(const('pickle.' + name), *vals)
        return NONE
    EXT['pickle._Pickler.' + name] = ext


for _n in ('_batch_setitems', 'save', 'memoize'):
    pickles(_n)


def a_hasher(I, cls='Hasher'):
    o = HInst(I, I.resolve(M + cls))
    o.f['_hash'] = sym('digest')
    I.assume(Not(pred('noattr:update', sym('digest'))))
    if cls == 'NumpyHasher':
        o.f['np'] = ExtV('numpy')
        o.f['coerce_mmap'] = flag('coerce_mmap')
        o.f['_getbuffer'] = ExtV('builtins.memoryview')
    return o


def method(I, o, name):
    return BoundV(I.class_lookup(o.cls, name), o)


def dicts(comparable):
    def setup(I):
        if not comparable:
            I.incomparable = raw
        a, b = HDict(I, node=sym('one', 'D'), cls='dict'), HDict(I, node=sym('other', 'D'), cls='dict')
        equal_mappings(I, a.f['node'], b.f['node'])
        o = a_hasher(I)

        def items(x):
            return I.call(method(I, o, '_batch_setitems'), [I.call_method(x, 'items', [], {})], {})
        return dict(call=lambda: quietly(items, a, 'one'), spec=lambda: quietly(items, b, 'other'),
                    frame=dict(a=a, b=b))
    return setup


add('_batch_setitems', dicts(True), target='Hasher._batch_setitems')
add('_batch_setitems.incomparable', dicts(False), target='Hasher._batch_setitems', hooks=HASHES)


# ------------------------------------------------------------------ their content does

def content_of_set(I):
    a = HSet(I, node=sym('elements', 'S'))

    def made():
        o = I.instantiate(I.resolve(M + '_ConsistentSet'), [a], {})
        if not o.f:
            return const('nothing')
        if len(o.f) > 1:
            raise Unsupported('a consistent set with several attributes')
        return I.call(I.resolve(S + 'elements_of'), list(o.f.values()), {})
    return dict(call=made, spec=lambda: I.call(I.resolve(S + 'elements_of'), [a], {}), frame=dict(a=a))


def something_pickled(comparable):
    def setup(I):
        if not comparable:
            I.incomparable = raw
        d, o = HDict(I, node=sym('items', 'D'), cls='dict'), a_hasher(I)

        def pickled():
            before = I.effects.f['node']
            I.call(method(I, o, '_batch_setitems'), [I.call_method(d, 'items', [], {})], {})
            return const(I.effects.f['node'] is not before)

        def expected():
            pickled()
            return TRUE
        return dict(call=lambda: quietly(lambda x: pickled(), d, 'one'), spec=lambda: quietly(lambda x: expected(), d, 'other'),
                    frame=dict(d=d))
    return setup


add('_ConsistentSet.content', content_of_set, target='_ConsistentSet.__init__')
add('_batch_setitems.pickled', something_pickled(True), target='Hasher._batch_setitems')
add('_batch_setitems.incomparable.pickled', something_pickled(False), target='Hasher._batch_setitems', hooks=HASHES)


# ------------------------------------------------------------------ arrays and texts

def saved(I, f, args, kwargs, kwd=None):
    I.effect(const('pickle.save'), I.arg(args[1]))
    return NONE


def fed(I, f, args, kwargs, kwd=None):
    return I.call(I.getattr(args[0].f['_hash'], 'update'), [args[1]], {})


def array(kind):
    def setup(I):
        o = a_hasher(I, 'NumpyHasher')
        v = sym('v')
        # numpy: the attributes of arrays and data types exist, a shape is a tuple
        if kind == 'array':
            I.assume(pred('isinst:ndarray', v))
            for n in ('dtype', 'shape', 'flags', 'flatten', 'T', 'view', 'strides'):
                I.assume(Not(pred('noattr:' + n, v)))
            shape = app('attr:shape', v)
            I.assume(pred('isinst:tuple', shape))
            I.assume(Iff(truthy(shape), Not(eq(shape, tup()))))
            for n in ('c_contiguous', 'f_contiguous'):
                I.assume(Not(pred('noattr:' + n, app('attr:flags', v))))
            I.assume(Not(pred('noattr:hasobject', app('attr:dtype', v))))
        else:
            I.assume(Not(pred('isinst:ndarray', v)))
            I.assume(Or(Not(pred('isinst:dtype', v)), Not(pred('noattr:descr', v))))
        return dict(call=lambda: I.call(method(I, o, 'save'), [v], {}),
                    spec=lambda: I.call(I.resolve(S + 'save_array'), [o, v], {}), frame=dict(hasher=o))
    return setup


for _kind in ('array', 'other'):
    add('NumpyHasher.save.' + _kind, array(_kind), target='NumpyHasher.save',
        hooks={M + 'Hasher.save': saved, S + 'saved': saved, S + 'fed': fed})


def memo(I):
    o = a_hasher(I)
    v = sym('v')
    return dict(call=lambda: I.call(method(I, o, 'memoize'), [v], {}),
                spec=lambda: I.call(I.resolve(S + 'memoize'), [v], {}), frame=dict(hasher=o))


def memoized(I, f, args, kwargs, kwd=None):
    I.effect(const('pickle.memoize'), I.arg(args[0]))
    return NONE


add('Hasher.memoize', memo, hooks={S + 'memoized': memoized})


# ------------------------------------------------------------------ methods, sets and the digest

def effect(name):
    def h(I, f, args, kwargs, kwd=None):
        I.effect(const('pickle.' + name), *[I.arg(a) for a in args])
        return NONE
    return h


PICKLED = {S + n: effect(e) for n, e in (('pickled', 'save'), ('memoized', 'memoize'), ('dumped', 'dump'))}
EXT['pickle._Pickler.dump'] = lambda I, args, kwargs: effect('dump')(I, None, args[1:], {})


def methodlike(I):
    o = a_hasher(I)
    v = sym('v')
    return dict(call=lambda: I.call(method(I, o, 'save'), [v], {}),
                spec=lambda: I.call(I.resolve(S + 'save_method'), [v], {}), frame=dict(hasher=o))


add('Hasher.save', methodlike, hooks=PICKLED)


def a_set(I):
    o = a_hasher(I)
    v = HSet(I, node=sym('elements', 'S'))
    return dict(call=lambda: I.call(method(I, o, 'save_set'), [v], {}),
                spec=lambda: I.call(I.resolve(S + 'save_set'), [v], {}), frame=dict(hasher=o, elements=v))


add('Hasher.save_set', a_set, hooks=dict(PICKLED, **HASHES))


def digest(I):
    o = a_hasher(I)
    o.f['stream'] = sym('stream')
    v = sym('v')
    wanted = flag('return_digest')
    return dict(call=lambda: I.call(method(I, o, 'hash'), [v, wanted], {}),
                spec=lambda: I.call(I.resolve(S + 'digest'), [o, v, wanted], {}), frame=dict(hasher=o))


add('Hasher.hash', digest, hooks=PICKLED)


# a pickler starts from nothing but its stream and protocol; streams are empty and digests fresh
EXT['io.BytesIO'] = lambda I, args, kwargs: app('empty_stream')
EXT['hashlib.new'] = lambda I, args, kwargs: app('new_digest', *[I.arg(a) for a in args])


def pickler(I, args, kwargs):
    I.setattr(args[0], 'memo', HDict(I, node=DEMPTY, cls='dict'))
    I.setattr(args[0], 'started', tup(*[I.tou(a) for a in list(args[1:]) + [kwargs[k] for k in sorted(kwargs)]]))
    return NONE


EXT['pickle._Pickler.__init__'] = pickler


def hashing(I):
    args = [sym('v'), sym('hash_name', ty='str'), flag('coerce_mmap')]
    return dict(call=lambda: I.call(I.resolve(M + 'hasher'), args, {}),
                spec=lambda: I.call(I.resolve(S + 'hasher'), args, {}))


def hash_of(I, f, args, kwargs, kwd=None):
    """the outcome depends on the state of a new hasher, and on the object: nothing else"""
    b = I.bind(f, args, kwargs, kwd)
    o = b['self']
    state = [I.arg(o.f.get(k, NONE)) for k in ('_hash', 'coerce_mmap', 'stream', 'memo')]
    return app('digested', *state, I.arg(b['obj']), I.arg(b['return_digest']))


def digested(I, f, args, kwargs, kwd=None):
    return app('digested', *[I.arg(a) for a in args[:2]], app('empty_stream'), dictv('dict', DEMPTY), I.arg(args[2]),
               const(True))


add('hasher', hashing, hooks={M + 'Hasher.hash': hash_of, S + 'digested': digested})
