"""Specifications of the visitor of ids"""
from whatami.misc import maybe_import


def class_of(path):
    """the class with that path; when it cannot be found, its path"""
    module, _, name = path.rpartition('.')
    try:
        return getattr(maybe_import(module or 'builtins'), name)
    except (ImportError, AttributeError):
        return {'class': path}


def a_parser(reduce_tree, debug):
    """see contracts/grammar.py"""


def a_visitor():
    """see contracts/grammar.py"""


def parse_whatid(id_string, parser, visitor):
    """only depends on the text (and on the parser and the visitor, when they are given)"""
    from arpeggio import visit_parse_tree
    if parser is None:
        parser = a_parser(False, False)
    if visitor is None:
        visitor = a_visitor()
    return visit_parse_tree(parser.parse(id_string), visitor=visitor)
