# coding=utf-8
"""Dispatch: the first plugin of the chain that knows the value decides its string"""
from .plugins_model import *

RULE = 'plugin chains x values: the string of each value, and the plugins consulted, are those of the reference dispatch'
N = 1500


def table():
    for p in sorted(CUSTOM):
        for before in [None] + NAMES:
            yield [['insert', p, before], ['use']]
            yield [['insert', 'never', 'what_plugin'], ['insert', p, before], ['use'], ['drop', 'anyobject_plugin'], ['use']]
    for n in NAMES:
        yield [['drop', n], ['use']]


def gen(rng):
    return rand_case(rng, .5)


def check(case):
    run(case)
