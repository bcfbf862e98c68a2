"""serving a node, and the map of its channels"""
from .. import terms as t
from ..terms import K
from ..check import Check
from . import node

def py(name, n):
    return lambda I, f, a, kw: I.call(I.member('spec.seek.' + name), (list(a) + [K(None)] * n)[:n], {})
def loop(I, f, a, kw):
    m = dict(zip(('timeout', 'use_poll', 'map', 'count'), a)); m.update(kw)
    return I.call(I.member('spec.seek.turning'), [m.get(k, K(None)) for k in ('timeout', 'use_poll', 'map', 'count')], {})
def build():
    c = Check('C41', 'Serving a node, whose loop may end in every way, shows the same events (port mapped, loop, socket closed, port released) as the reference; the operations of the node as a map are those of a dictionary.')
    S = 'spec.seek.'
    ov = {'nbc.node.add_portmap': py('mapped', 3), 'nbc.node.remove_portmap': py('unmapped', 2), 'asyncore.loop': loop, 'nbc.protocol.messages.Message.binary': node.greeting}
    how = t.sym('how', 'int', 0, 5); port = t.sym('port', 'int', 1, 65535)
    for l in (True, False):
        c.agree('serving, %slistening' % ('' if l else 'not '), S + 'serves', S + 'serves_spec', [K(l), port, how], overrides=ov, spec_overrides={}, obs=node.TRACE, where='nbc.node.basenode.BaseNode.serve_forever')
    ks = [t.sym(n, 'int', 10, 1000) for n in 'abc']
    c.agree('map of the channels', S + 'maps', S + 'maps_spec', ks, overrides={'nbc.protocol.messages.Message.binary': node.greeting}, spec_overrides={}, gens=dict((n, lambda v, q: v.rng.choice((10, 11, 12))) for n in 'abc'),
            where='nbc.node.basenode.BaseNode')
    return c
