# coding=utf-8
"""Recorder: defaults and postprocessors"""
from .recorder_model import *

RULE = 'sequences of configuration changes and additions, compared with a reference model; a second recorder must not change'
N = 2500


def table():
    A = ['add', ['l', 'r1', 'r2'], [['b', 'int']], []]
    B = ['add', 'r4', [], []]
    for conf in ({}, {'post': []}, {'post': ['log']}, {'post': ['log', 'shout'], 'defaults': [['a', 'int'], ['who', 'none']]}):
        for op in (['addpost', ['log2']], ['addpost', []], ['override', ['log2', 'log']], ['override', []],
                   ['defaults', [['a', 'str']]], ['defaults', [['a', 'list'], ['date', 'none']]], ['nodefaults', ['a']],
                   ['nodefaults', ['who', 'nothing', 'a', 'a']], ['nodefaults', []]):
            for op2 in (B, ['addpost', ['shout']], ['override', ['replace']], ['nodefaults', ['a', 'date']],
                        ['defaults', [['who', 'zero']]]):
                yield [conf, [A, op, op2, ['add', 'r5', [], []]]]


def gen(rng):
    return rand_case(rng, .6)


def check(case):
    run(case)
