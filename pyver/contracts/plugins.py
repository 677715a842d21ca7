"""WhatamiPluginManager: the chain of plugins"""
from .common import *

QUAL = 'whatami.plugins.WhatamiPluginManager'


def manager(I):
    cls = I.resolve(QUAL)
    chain = seqv('tuple', sym('plugins', 'S'))
    default = seqv('tuple', sym('default_plugins', 'S'))
    for n in ('PLUGINS', 'DEFAULT_PLUGINS'):
        if n not in cls.ns:
            raise Unsupported('no %s' % n)
    cls.f['PLUGINS'] = cls.ns['PLUGINS'] = chain
    cls.f['DEFAULT_PLUGINS'] = cls.ns['DEFAULT_PLUGINS'] = default
    return cls


def method(name, *params, **kw):
    props = kw.pop('props')
    suffix = kw.pop('suffix', '')
    before = kw.pop('values', {})

    def setup(I):
        cls = manager(I)
        I.plain_attr_errors = True
        # no plugin is twice in the chain: the default one has no repetitions, insert keeps it so
        I.assume(pred('distinct', sym('plugins', 'S')))
        args = [before[p] if p in before else sym(p) for p in params]
        if name in ('insert', 'drop'):
            for a in args:      # plugins are callables: not tuples; their names, if they have one, are strings
                I.assume(Not(pred('isinst:tuple', a)))
                I.assume(pred('isinst:str', app('attr:__name__', a)))
        real = I.getattr(cls, name)
        return dict(call=lambda: I.call(real, args, {}),
                    spec=lambda: I.call(I.resolve('spec.plugins.' + name), [cls] + args, {}),
                    frame={'manager': cls}, state=['WhatamiPluginManager.PLUGINS'])
    REGISTRY.append(Contract('plugins.' + name + suffix, QUAL + '.' + name, setup, props=props))


method('plugins', props=('C20',))
method('reset', props=('C20',))
method('drop', 'plugin', props=('C20',))
method('insert', 'plugin', 'before', props=('C20',))
method('insert', 'plugin', props=('C20',), suffix='.default_position')
method('build_string', 'v', props=('C21',))


@contract(['C20'], target=QUAL, name='plugins.default_chain')
def default_chain(I):
    """the invariant holds at first: no repetitions, and the chain is the default one"""
    cls = I.resolve(QUAL)
    chain, current = (I.seq(I.getattr(cls, n)) for n in ('DEFAULT_PLUGINS', 'PLUGINS'))
    if chain.op != 'lit':
        raise Unsupported('default chain')
    return dict(call=lambda: tup(const(len(set(chain.args))), seqv('tuple', current)),
                spec=lambda: tup(const(len(chain.args)), seqv('tuple', chain)))
