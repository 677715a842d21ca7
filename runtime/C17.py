# coding=utf-8
"""Recorder: additions are atomic, identifiers are unique"""
from .recorder_model import *

RULE = 'sequences of operations on a recorder (additions of one or several records, with failures in the middle), compared ' \
       'after each operation with a reference model; a case is non-trivial when it is a distinct sequence'
N = 2500


def table():
    for bad in (['l', 'r1', 'r2', 'r1'], ['l', 'r2', 'r9', 'r8', 'r9'], ['l', 'r7', 'r0'], ['t', 'r7', 'r8', 'r0']):
        for kw in ([], [['unbox', False]], [['how', 'curry']], [['how', 'padd']], [['once', True]], [['post', ['shout']]]):
            for conf in ({}, {'extract': 'none'}, {'post': ['size', 'log']}):
                yield [conf, [['add', 'r0', [['a', 'int']], []], ['add', bad, [['a', 'list']], kw],
                              ['add', ['l', 'r7', 'r8'], [], []]]]
    for post in (['reject'], ['shout', 'reject'], ['reject', 'shout']):
        for where in range(2):
            add = ['add', ['l', 'r1', 'r2', 'r3', 'r4'], [['a', 'list']], [['post', post]] if where else []]
            yield [{} if where else {'post': post}, [add, ['add', ['l', 'r1', 'r2'], [], []]]]
    yield [{'extract': 'const'}, [['add', ['l', 'r1', 'r2'], [], []], ['add', 'r1', [], []], ['add', 'r2', [], []]]]
    yield [{'extract': 'len'}, [['add', ['l', 'r1', 'r10'], [], []], ['add', 'r2', [], []], ['add', 'r', [], []]]]
    yield [{}, [['add', ['l', 1, '1'], [], []], ['add', 1, [], []], ['add', '1', [], []]]]
    yield [{'extract': 'none'}, [['add', ['l', 1, '1'], [], []], ['add', 1, [], []], ['add', '1', [], []]]]
    yield [{'id_column': 'nif'}, [['add', ['l', 'r1', 'r2'], [['nif', 'dict2']], []], ['add', 'r1', [['id', 'int']], []]]]


def gen(rng):
    return rand_case(rng, .15)


def check(case):
    run(case)
