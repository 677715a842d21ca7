"""Specifications of the introspection of whatami.what"""
from whatami.what import What


def call_of(c):
    """see contracts/what.py"""


def members_of(obj, add_dict, add_slots, add_properties, add_class):
    """see contracts/what.py"""


def visible(members, prefix, postfix, excludes):
    """see contracts/what.py"""


def whatareyou(obj, name, non_id_keys, add_dict, add_slots, add_properties, add_class, prefix, postfix, excludes):
    """functions and partials by the parameters of their call, anything else by its members"""
    try:
        inferred, parameters = call_of(obj)
    except (ValueError, TypeError, AttributeError):
        inferred = obj.__class__.__name__
        parameters = members_of(obj, add_dict, add_slots, add_properties, add_class)
        if type(obj) in (list, tuple, set, dict):
            parameters['seq'] = obj
        else:
            for kind, copy in ((dict, dict), (tuple, tuple), (list, list)):
                if isinstance(obj, kind):
                    parameters['seq'] = copy(obj)
                    break
    if name is not None:
        inferred = name
    return What(inferred, visible(parameters, prefix, postfix, excludes), non_id_keys)


def is_whatable(obj):
    """what is a method that gives configurations, or is marked as such when it is not bound"""
    try:
        method = obj.what
        if getattr(method, '__self__', None) is not None:
            return isinstance(method(), What)
        return hasattr(method, 'whatami')
    except Exception:
        return False
