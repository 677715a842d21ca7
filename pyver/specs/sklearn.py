"""Specifications of whatami.wrappers.what_sklearn"""
from whatami.what import What


def inspected(x, name, non_id_keys):
    """contract"""


def what_for_sklearn(x, use_short, registry):
    clazz = x.__class__.__name__
    declared = clazz in registry
    name = registry[clazz].short_name if declared and use_short else clazz
    non_id_keys = registry[clazz].non_id_params if declared else None
    try:
        parameters = x.get_params(deep=False)
    except AttributeError:
        return inspected(x, name, non_id_keys)
    return What(name, parameters, non_id_keys=non_id_keys)


def declare(registry, make, clazz, nickname, non_id_params, notes, override):
    if not override and clazz.__name__ in registry:
        raise Exception()
    registry[clazz.__name__] = make(clazz, nickname, non_id_params, notes)


def declared(make, clazz, nickname, non_id_params, notes):
    m = make(clazz, nickname, non_id_params, notes)
    return m.object, m.short_name, m.non_id_params


def declaration_fields(clazz, nickname, non_id_params):
    return clazz, clazz.__name__ if nickname is None else nickname, non_id_params
