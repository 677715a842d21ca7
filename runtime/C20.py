# coding=utf-8
"""The plugin chain: insertion, removal and reset"""
from .plugins_model import *

RULE = 'sequences of insertions, removals and resets of plugins (also rejected ones), compared with a reference model'
N = 1500


def table():
    for before in [None] + NAMES:
        for p in ('int', 'noname', 'all'):
            yield [['insert', p, before], ['insert', 'never'], ['insert', p], ['drop', p], ['drop', p], ['insert', p], ['reset'],
                   ['drop', p]]
    for a, b in (('int', 'int2'), ('noname', 'noname2'), ('list2', 'list_plugin'), ('anyobject_plugin', 'anyobject2')):
        for a, b in ((a, b), (b, a)):
            yield [['insert', a], ['insert', b], ['drop', a], ['use'], ['insert', a], ['drop', b], ['use']]
            yield [['insert', a], ['drop', b], ['insert', b], ['drop', b], ['use'], ['insert', 'zero', b]]
            yield [['insert', b, None], ['insert', a], ['insert', 'zero', b], ['insert', 'never', a], ['use']]
    for n in NAMES:
        yield [['insert', n], ['drop', n], ['insert', 'int'], ['drop', n], ['insert', n, None], ['insert', n], ['insert', 'noname',
                                                                                                          n], ['reset']]
        yield [['drop', n], ['reset'], ['insert', n, None]]
    for p in sorted(CUSTOM):
        yield [['insert', 'zero', p], ['insert', p, p], ['insert', p], ['insert', 'int', p], ['insert', 'zero', 'int'],
               ['drop', p], ['insert', p, 'zero'], ['drop', 'zero'], ['use']]


def gen(rng):
    return rand_case(rng, .2)


def check(case):
    run(case)
