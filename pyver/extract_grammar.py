"""Run by the interpreter of the repository: the expressions of the parsers that the code under verification builds, as json"""
import json
import sys
import warnings

warnings.simplefilter('ignore')


def graph(parser):
    nodes, ids = [], {}

    def go(e):
        if id(e) in ids:
            return ids[id(e)]
        ids[id(e)] = n = len(nodes)
        d = dict(cls=type(e).__name__, module=type(e).__module__, rule=e.rule_name, root=bool(e.root),
                 suppress=bool(getattr(e, 'suppress', False)))
        nodes.append(d)
        for a in ('ws', 'skipws', 'eolterm', 'ignore_case'):
            d[a] = getattr(e, a, None)
        d['sep'] = go(e.sep) if getattr(e, 'sep', None) else None
        d['nodes'] = [go(c) for c in getattr(e, 'nodes', None) or []]
        if hasattr(e, 'to_match'):
            d['to_match'] = e.to_match
        if hasattr(e, 'regex'):
            d['regex'], d['flags'] = e.regex.pattern, int(e.regex.flags)
        return n
    top = go(parser.parser_model)
    return dict(nodes=nodes, top=top, cls=type(parser).__name__, module=type(parser).__module__, skipws=parser.skipws,
                ws=parser.ws, reduce_tree=parser.reduce_tree, memoization=parser.memoization,
                comments=parser.comments_model is not None, sem_actions=sorted(parser.sem_actions), debug=parser.debug)


def visitor(v):
    c = type(v)
    owner = [b for b in c.__mro__ if 'visit__default__' in vars(b)][0]
    return dict(cls=c.__name__, module=c.__module__, defaults=v.defaults, debug=v.debug, default=owner.__module__,
                methods=sorted(m for m in dir(v) if m.startswith('visit_')),
                second=sorted(m for m in dir(v) if m.startswith('second_')), state=sorted(vars(v)))


def main():
    import arpeggio
    import whatami.parsers as p
    out = dict(default=graph(p.DEFAULT_WHATAMI_PARSER), built=graph(p.build_whatami_parser()),
               visitor=visitor(p.DEFAULT_WHATAMI_VISITOR), arpeggio=list(getattr(arpeggio, '__version__', '?')))
    if hasattr(p, 'build_oldwhatami_parser'):
        out['old'] = graph(p.build_oldwhatami_parser())
    sys.stdout.write('GRAMMAR' + json.dumps(out))


def accepts(text):
    """is the text parsed? (to confirm counterexamples)"""
    import whatami.parsers as p
    try:
        p.parse_whatid(json.loads(text))
    except Exception:
        return False
    return True


if len(sys.argv) > 1:
    sys.stdout.write('ACCEPTS %s' % accepts(sys.argv[1]))
else:
    main()
