"""Specifications of whatami.plugins"""
from whatami.plugins import anyobject0x_plugin


def plugins(cls):
    return cls.PLUGINS


def reset(cls):
    cls.PLUGINS = cls.DEFAULT_PLUGINS


def drop(cls, plugin):
    if plugin not in cls.PLUGINS:
        raise ValueError()
    chain = list(cls.PLUGINS)
    chain.remove(plugin)
    cls.PLUGINS = tuple(chain)


def insert(cls, plugin, before=anyobject0x_plugin):
    if plugin in cls.PLUGINS:
        raise ValueError()
    if before is None:
        cls.PLUGINS = cls.PLUGINS + (plugin,)
        return
    if before not in cls.PLUGINS:
        raise ValueError()
    chain = list(cls.PLUGINS)
    where = chain.index(before)
    cls.PLUGINS = tuple(chain[:where]) + (plugin,) + tuple(chain[where:])


def build_string(cls, v):
    for plugin in cls.PLUGINS:
        string = plugin(v)
        if string is not None:
            return string
    return None
