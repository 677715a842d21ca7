# coding=utf-8
"""Recorder: content of the records"""
from .recorder_model import *

RULE = 'every kind of column value x ids x unboxing x postprocessors, and random sequences, compared with a reference model'
N = 2500


def table():
    for v in sorted(VALUES):
        for ids in ('r1', ['l', 'r1', 'r2', 'r3'], ['t', 'r3'], ['l', 1, 'r3']):
            for kw in ([], [['unbox', False]], [['unbox', True], ['how', 'curry']], [['once', True]], [['unbox', False], ['once', True]]):
                for conf in ({}, {'extract': 'none'}, {'defaults': [['a', 'str'], ['who', 'list']]}):
                    yield [conf, [['add', ids, [['a', v]], kw]]]
    for p in (['log', 'log2'], ['log2', 'log'], ['shout', 'replace'], ['replace', 'shout'], ['size', 'log'], []):
        for q in (None, ['log'], ['replace'], []):
            for o in (False, True):
                kw = ([] if q is None else [['post', q]]) + [['override', o]]
                yield [{'post': p, 'defaults': [['log', 'str']]}, [['add', ['l', 'r1', 'r2'], [], kw],
                                                                   ['add', 'r5', [['log', 'estr']], kw]]]
    for idc in ('id', 'a', 'nif'):
        yield [{'id_column': idc, 'defaults': [['a', 'int'], ['nif', 'str'], ['id', 'zero']]}, [['add', 'r1', [], []]]]
        yield [{'id_column': idc}, [['add', ['l', 'r1', 'r2'], [['a', 'dict2']], []]]]


def gen(rng):
    return rand_case(rng, .15)


def check(case):
    run(case)
