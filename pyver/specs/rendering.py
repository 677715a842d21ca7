"""Specifications of the plugins of whatami.plugins: the place and text of each kind of value"""
from collections import OrderedDict
from whatami.plugins import WhatamiPluginManager
from whatami.what import What


def text(v):
    return WhatamiPluginManager.build_string(v)


def introspected(v):
    """see contracts/rendering.py"""


def call_of(v):
    """see contracts/rendering.py"""


def members_of(v):
    """see contracts/rendering.py"""


def hash_of(v):
    """see contracts/rendering.py"""


def what_plugin(v):
    return v.id()


def tuple_plugin(v):
    return '(' + ','.join([text(e) for e in v]) + ')'


def list_plugin(v):
    return '[' + ','.join([text(e) for e in v]) + ']'


def tuple_subclass(v):
    return '%s(seq=%s)' % (v.__class__.__name__, tuple_plugin(v))


def list_subclass(v):
    return '%s(seq=%s)' % (v.__class__.__name__, list_plugin(v))


def dict_plugin(v):
    return '{' + ','.join(sorted([text(k) + ':' + text(v[k]) for k in v])) + '}'


def ordered_dict(v):
    members = introspected(v)
    members.conf['seq'] = [(k, v[k]) for k in v]
    return members.id()


def dict_subclass(v):
    [text(k) + text(v[k]) for k in v]
    return introspected(v).id()


def set_plugin(v):
    elements = sorted([text(e) for e in v])
    if not elements:
        return 'set()'
    return '{' + ','.join(elements) + '}'


def frozenset_plugin(v):
    elements = sorted([text(e) for e in v])
    if not elements:
        return 'frozenset()'
    return 'frozenset({' + ','.join(elements) + '})'


def set_subclass_plugin(v):
    """the elements, in the configuration of the class"""
    elements = sorted([text(e) for e in v])
    return v.__class__.__name__ + '(seq=' + ('{' + ','.join(elements) + '}' if elements else 'set()') + ')'


def own_id(v):
    return v.id()


def string_plugin(v):
    """each quote is escaped"""
    return "'" + v.replace("'", "\\'") + "'"


def partial_plugin(v):
    name, parameters = call_of(v)
    return What(name, parameters).id()


def function_plugin(v):
    import inspect
    names, _, _, defaults = inspect.getfullargspec(v)[:4]
    parameters = dict(zip(names[-len(defaults):], defaults)) if defaults else {}
    return What('lambda' if v.__name__ == '<lambda>' else v.__name__, parameters).id()


def whatable_plugin(v):
    from whatami.what import is_whatable
    if not is_whatable(v):
        return None
    what = v.what() if callable(v.what) else v.what
    return what.id() if isinstance(what, What) else None


def builtin_plugin(v):
    raise Exception()


def property_plugin(v):
    raise Exception()


def not_mine(v):
    return None


def anyobject_plugin(v):
    return str(v)


def anyobject0x_plugin(v, deep):
    """never an address"""
    if ' at 0x' not in str(v):
        return None
    return What(v.__class__.__name__, members_of(v) if deep else {}).id()


def numeric_type_plugin(v):
    for t in (int, float, complex):
        if v is t:
            return t.__name__ + '()'
    return None


def hashed(v):
    """the hash of the content"""


def array_plugin(v, kinds):
    if isinstance(v, kinds):
        return v.__class__.__name__ + "(hash='" + hashed(v) + "')"
    return None


def numpy_plugin(v):
    import numpy
    return array_plugin(v, numpy.ndarray)


def pandas_plugin(v):
    import pandas
    return array_plugin(v, (pandas.DataFrame, pandas.Series))


def rng_plugin(v):
    import numpy
    if isinstance(v, numpy.random.RandomState):
        return v.__class__.__name__ + '(state=' + introspected(v.__getstate__()).id() + ')'
    return None
