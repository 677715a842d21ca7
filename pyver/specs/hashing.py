"""Specifications of whatami.minijoblib.hashing"""


def saved(hasher, v):
    """the pickling of the standard library"""


def fed(hasher, data):
    """more data for the digest"""


def save_array(hasher, v):
    """the bytes of the elements, and a description of their interpretation"""
    import numpy
    if isinstance(v, numpy.ndarray) and not v.dtype.hasobject:
        if v.shape == ():
            flat = v.flatten()
        elif v.flags.c_contiguous:
            flat = v
        elif v.flags.f_contiguous:
            flat = v.T
        else:
            flat = v.flatten()
        fed(hasher, memoryview(flat.view(numpy.uint8)))
        clazz = numpy.ndarray if hasher.coerce_mmap and isinstance(v, numpy.memmap) else v.__class__
        return saved(hasher, (clazz, ('HASHED', v.dtype, v.shape, v.strides)))
    if isinstance(v, numpy.dtype):
        return saved(hasher, (v.__class__, ('HASHED', v.descr)))
    return saved(hasher, v)


def memoize(v):
    """texts are not memoized: equal texts may be one or several objects"""
    if isinstance(v, (str, bytes)):
        return None
    return memoized(v)


def memoized(v):
    """the memo of the standard library"""


def save_method(v):
    """methods are reduced to their name and what they are bound to; the rest goes to the standard library"""
    import types
    if isinstance(v, (types.MethodType, types.BuiltinMethodType)):
        name = v.__func__.__name__ if hasattr(v, '__func__') else v.__name__
        owner = v.__self__
        if type(owner) == types.ModuleType:
            return pickled(method_of(name, owner.__name__))
        if owner is None:
            return pickled(method_of(name, owner))
        return pickled(method_of(name, owner, owner.__class__))
    return pickled(v)


def method_of(*what):
    """what stands for a method in a pickle"""
    from whatami.minijoblib.hashing import _MyHash
    return _MyHash(*what)


def pickled(v):
    """the pickling of the standard library"""


def save_set(v):
    """a set is saved as what does not depend on the order of its elements"""
    from whatami.minijoblib.hashing import _ConsistentSet
    return pickled(_ConsistentSet(v))


def digest(hasher, v, wanted):
    """the digest of all the pickle, and of what was fed to the digest while pickling"""
    dumped(v)
    hasher._hash.update(hasher.stream.getvalue())
    if wanted:
        return hasher._hash.hexdigest()


def dumped(v):
    """the pickling of the standard library, to the stream of the hasher"""


def hasher(v, hash_name, coerce_mmap):
    """a new hasher for each object: nothing is left from the ones before"""
    import hashlib
    import sys
    return digested(hashlib.new(hash_name), coerce_mmap if 'numpy' in sys.modules else None, v)


def digested(digest, coerce_mmap, v):
    """contract of Hasher.hash, for a hasher that has hashed nothing before"""


def elements_of(sequence):
    """without their order"""
    return set(sequence)
