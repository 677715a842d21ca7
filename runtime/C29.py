# coding=utf-8
"""Hashes of arrays"""
import os
import random
import shutil
import tempfile
from .common import *

RULE = 'arrays of many types, shapes, layouts and classes, alone and nested, rebuilt from scratch in other buffers and with other insertion orders ' \
       '(same hash) and with one element, the shape, the type or the nesting changed (another hash)'
N = 700

DTYPES = ['int64', 'float64', 'float32', 'uint8', 'bool', 'int16', '>i4', 'complex64', 'M8[s]', 'S3', 'U2', [['a', 'i4'], ['b', 'f8']]]


def make(s, shift=0, order_seed=0):
    """value of an encoded structure; shift: position in its buffer; order_seed: insertion orders"""
    import numpy as np
    rng = random.Random(order_seed)
    t = s[0]
    if t == 'a':
        _, dtype, shape, layout, data, klass = s
        dt = np.dtype([tuple(map(str, f)) for f in dtype] if isinstance(dtype, list) else str(dtype))
        n = 1
        for d in shape:
            n *= d
        flat = np.zeros(n + shift, dtype=dt)
        for i in range(n):
            v = data[i % len(data)]
            if dt.names:
                flat[shift + i] = (v, v / 2.)
            elif dt.kind in 'SU':
                flat[shift + i] = str(v)
            elif dt.kind == 'M':
                flat[shift + i] = np.datetime64(v, 's')
            elif dt.kind == 'b':
                flat[shift + i] = bool(v % 2)
            else:
                flat[shift + i] = v
        x = flat[shift:].reshape(shape)
        if layout == 'F' and len(shape) > 0:
            x = np.asfortranarray(x)
        elif layout == 'strided' and len(shape) > 0:
            big = np.zeros(tuple(d * 2 for d in shape), dtype=dt)
            view = big[tuple(slice(None, None, 2) for _ in shape)]
            view[...] = x
            x = view
        elif layout == 'reversed' and len(shape) > 0:
            x = x[::-1].copy()[::-1]
        if klass == 'matrix' and len(shape) == 2:
            x = np.matrix(x, copy=False)
        elif klass == 'sub':
            x = x.view(Sub())
        return x
    if t in ('l', 't'):
        v = [make(x, shift, rng.random()) for x in s[1:]]
        return v if t == 'l' else tuple(v)
    if t == 'd':
        items = [(k if not isinstance(k, list) else tuple(k), make(v, shift, rng.random())) for k, v in s[1:]]
        rng.shuffle(items)
        return dict(items)
    if t == 's':
        xs = [x if not isinstance(x, list) else tuple(x) for x in s[1:]]
        rng.shuffle(xs)
        return set(xs)
    if t == 'o':
        from .common import Anything
        o = Anything()
        items = [(str(k), make(v, shift, rng.random())) for k, v in s[1:]]
        rng.shuffle(items)
        for k, v in items:
            setattr(o, k, v)
        return o
    if isinstance(s[1], str):
        # equal texts: the same object each time, or a fresh one each time
        v = _TEXTS.setdefault(s[1], s[1]) if shift == 0 else ''.join(list(s[1]))
        return v if t == 'v' else v.encode('utf-8')
    return s[1]


_TEXTS = {}


_SUB = []


def Sub():
    if not _SUB:
        import numpy as np

        class SubArray(np.ndarray):
            pass
        SubArray.__module__ = __name__
        SubArray.__qualname__ = 'SubArray'
        globals()['SubArray'] = SubArray
        _SUB.append(SubArray)
    return _SUB[0]


def changes(s):
    """structures that must have another hash"""
    t = s[0]
    if t == 'a':
        _, dtype, shape, layout, data, klass = s
        n = 1
        for d in shape:
            n *= d
        full = [data[i % len(data)] for i in range(n)]
        for i in sorted({0, n // 2, n - 1}):
            if 0 <= i < n:
                yield [t, dtype, shape, layout, full[:i] + [full[i] + 1] + full[i + 1:], klass]
        if len(shape) == 1:
            yield [t, dtype, [1] + shape, layout, data, klass if klass != 'matrix' else 'ndarray']
            yield [t, dtype, [shape[0] + 1], layout, full + [0], klass]
            if shape[0] > 0:
                yield [t, dtype, [shape[0] - 1], layout, data, klass]
        elif len(shape) == 2:
            if shape[0] != shape[1]:
                yield [t, dtype, shape[::-1], layout, data, klass]
            if klass == 'ndarray':
                yield [t, dtype, [shape[0] * shape[1]], layout, data, klass]
            # another value in the same bytes
            for was, other in (('C', 'F'), ('F', 'C')):
                if layout == was and klass == 'ndarray':
                    n0, n1 = shape
                    value = lambda d: d % 2 if dtype == 'bool' else d
                    swapped = [full[j * n0 + i] for i in range(n0) for j in range(n1)]
                    if was == 'F':
                        buf = [full[i * n1 + j] for j in range(n1) for i in range(n0)]
                        swapped = buf
                    if list(map(value, swapped)) != list(map(value, full)):
                        yield [t, dtype, shape, other, swapped, klass]
        elif len(shape) == 0:
            yield [t, dtype, [1], layout, data, klass]
        if dtype in ('int64', 'float64', 'uint8', 'int16', 'float32', 'bool'):
            yield [t, {'int64': 'uint64', 'float64': 'float32', 'uint8': 'int8', 'int16': 'uint16', 'float32': 'float64', 'bool': 'uint8'}[dtype],
                   shape, layout, [d % 2 for d in data] if dtype == 'bool' else data, klass]
        # other names or types of the fields, other units, other widths
        for other in ([['a', 'i4'], ['c', 'f8']], [['b', 'i4'], ['a', 'f8']], [['a', 'u4'], ['b', 'f8']], [['a', 'i4'], ['b', 'i8']]) \
                if isinstance(dtype, list) else {'M8[s]': ['M8[ms]', 'M8[m]'], 'S3': ['S4'], 'U2': ['U3']}.get(dtype, ()):
            yield [t, other, shape, layout, data, klass]
        if klass == 'ndarray':
            yield [t, dtype, shape, layout, data, 'sub']
    elif t in ('l', 't'):
        for i in range(1, len(s)):
            for c in changes(s[i]):
                yield s[:i] + [c] + s[i + 1:]
            yield s[:i] + s[i + 1:]
        for i in range(2, len(s)):
            if s[i] != s[i - 1]:
                yield s[:i - 1] + [s[i], s[i - 1]] + s[i + 1:]
    elif t in ('d', 'o'):
        for i in range(1, len(s)):
            for c in changes(s[i][1]):
                yield s[:i] + [[s[i][0], c]] + s[i + 1:]
            yield s[:i] + s[i + 1:]
    elif t == 's':
        for i in range(1, len(s)):
            yield s[:i] + s[i + 1:]
    elif t in ('v', 'b'):
        yield [t, 'other']


def digests():
    from whatami.minijoblib.hashing import hasher
    return [(repr(s), hasher(make(s, 0, 1))) for s in structures()]


def table():
    yield {'processes': 'all structures'}
    for n in (1000, 5000, 70000, 1 << 20, (1 << 24) + 10, 70000000):
        yield {'big': n}
    for s in structures():
        yield s


def structures():
    for dt in DTYPES:
        for shape in ([], [0], [1], [4], [2, 3], [3, 2], [3, 3], [2, 1, 3], [0, 2]):
            for layout in ('C', 'F', 'strided', 'reversed'):
                yield ['a', dt, shape, layout, [5, 3, 8, 1], 'ndarray']
    for klass in ('matrix', 'sub'):
        yield ['a', 'int64', [2, 2], 'C', [1, 2, 3], klass]
    a, b = ['a', 'int64', [3], 'C', [1, 2, 3], 'ndarray'], ['a', 'int64', [3], 'C', [4, 5, 6], 'ndarray']
    for s in (['l', a, b], ['t', a, a], ['d', ['x', a], ['y', b], ['z', ['l', b]]], ['d', [1, a], ['x', b], [['u', 1], a]], ['d', [1, a], ['x', b], ['y', a], ['z', b], [2, a], [['u', 1], a], [['u'], b]],
              ['s', 1, 'x', 'y', 'z', 2, ['u', 1], ['u']], ['s', 'x', 'y', 'z', 'u'], ['d', [['u', 'x'], a], [['u', 'y'], b], ['x', a], ['y', b]], ['o', ['x', a], ['_y', b]],
              ['l', ['s', 1, 2, 3, 10, 20], a], ['l', ['s', 'a', 1, 'b', ['x']], a], ['d', ['k', ['d', ['b', a], ['a', b]]]], ['l', ['v', 'aa'], ['v', 'aa'], a],
              ['l', ['v', 'some text'], ['t', ['v', 'some text'], a], ['d', ['some text', ['v', 'some text']]]], ['l', ['b', 'aa'], ['b', 'aa'], a],
              ['o', ['x', ['v', 'aa']], ['y', ['l', ['v', 'aa'], ['b', 'aa'], a, ['b', 'aa']]]],
              ['d', ['aa', ['l', ['v', 'aa']]], ['bb', ['l', ['v', 'bb'], a]]],
              ['l'], ['d'], ['s'], ['o', ['q', ['s', 'a', 'b', 'c']]], ['l', ['v', None], ['v', 1.5], ['v', True], a]):
        yield s


def gen_array(rng):
    dt = rng.choice(DTYPES)
    shape = [rng.randrange(4) for _ in range(rng.randrange(4))]
    return ['a', dt, shape, rng.choice(['C', 'C', 'F', 'strided', 'reversed']), [rng.randrange(100) for _ in range(rng.randrange(1, 6))],
            rng.choice(['ndarray', 'ndarray', 'sub'])]


def gen(rng, depth=2):
    k = rng.randrange(6)
    if depth == 0 or k < 2:
        return gen_array(rng)
    if k in (2, 3):
        return [rng.choice('lt')] + [gen(rng, depth - 1) for _ in range(rng.randrange(1, 4))]
    keys = ['b', 'a', 'c', 'zz', 1, 10, 2] if rng.random() < .5 else ['b', 'a', 'c', 'zz']
    if k == 4:
        return ['d'] + [[x, gen(rng, depth - 1)] for x in rng.sample(keys, rng.randrange(1, 4))]
    return ['o'] + [[x, gen(rng, depth - 1)] for x in rng.sample(['b', 'a', 'c', 'zz'], rng.randrange(1, 4))] + [['s', ['s'] + rng.sample(keys, 3)]]


def big(n):
    """arrays of n bytes that differ in one byte, wherever it is"""
    import numpy as np
    from whatami.minijoblib.hashing import hasher
    x = np.zeros(n, dtype='uint8')
    h = hasher(x)
    ok(h == hasher(x.copy()), 'a copy of %d bytes has another hash', n)
    for i in sorted({0, n // 7, n // 3, n // 2, n - n // 5, n - 1}):
        x[i] = 1
        ok(hasher(x) != h, 'byte %d of %d does not change the hash', i, n)
        x[i] = 0
    if n <= 1 << 20:
        for t in (bytes, list):
            y, z = t(x.tobytes()), x.copy()
            z[n // 2] = 1
            ok(hasher(y) != hasher(t(z.tobytes())) and hasher(y) == hasher(t(x.tobytes())), '%s of %d items', t.__name__, n)


def check(s):
    if isinstance(s, dict) and 'big' in s:
        return big(s['big'])
    if isinstance(s, dict):
        return same_in_processes(__name__, digests())
    import numpy as np
    from whatami.minijoblib.hashing import hasher
    from whatami import What
    x, y = make(s, 0, 1), make(s, 3, 2)
    before = snapshot(x)
    h = hasher(x)
    ok(h == hasher(x), 'hashing twice gives other hash')
    ok(len(h) == 32 and h == hasher(x, hash_name='md5') and len(hasher(x, hash_name='sha1')) == 40, 'the hash is %r', h)
    ok(h == hasher(y), 'the same value in other objects has another hash: %r', x)
    if hasattr(x, 'dtype'):
        w = x.view()
        ok(hasher(w) == h, 'a view has another hash')
        ok(What('n', {'a': x}).id() == "n(a=%s(hash='%s'))" % (type(x).__name__, h), 'the id is %r', What('n', {'a': x}).id())
        if x.copy('K').strides == x.strides:
            ok(hasher(x.copy('K')) == h, 'a copy has another hash')
        import pickle
        z = pickle.loads(pickle.dumps(x)) if type(x) is np.ndarray else None
        if z is not None and z.strides == x.strides and z.dtype.descr == x.dtype.descr:
            ok(hasher(z) == h, 'a pickled array has another hash')
    ok(h == hasher(x) and h == hasher(make(s, 1, 3)), 'the hash depends on what was hashed before')
    for c in changes(s):
        z = make(c)
        if hasattr(x, 'dtype') and not changed(x, z):
            continue
        ok(hasher(z) != h, 'different values have the same hash: %r and %r', x, z)
    ok(snapshot(x) == before, 'hashing modified the value')
    if s[0] == 'a' and s[5] == 'ndarray' and s[3] == 'C' and 0 not in s[2] and s[2] and not isinstance(s[1], list):
        d = tempfile.mkdtemp()
        try:
            m = np.memmap(os.path.join(d, 'f'), dtype=x.dtype, shape=x.shape, mode='w+')
            m[...] = x
            ok(hasher(m) != h and hasher(m, coerce_mmap=True) == h, 'memory mapped arrays: %r', x)
            del m
        finally:
            shutil.rmtree(d)


def changed(x, z):
    return x.tobytes() != z.tobytes() or x.shape != z.shape or x.dtype != z.dtype or type(x) is not type(z)
