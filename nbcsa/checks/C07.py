from .. import terms as t
from ..terms import K
from ..check import Check
from . import node, wire

def build():
    c = Check('C07', 'A connection that reads one frame of each message shows the same events as the reference - the details recorded before the node is told, the handler called, '
                     'the connection and the fields it is called with - as a function of the payload.')
    for cmd in wire.COMMANDS:
        F = wire.W.MESSAGES[cmd][2]
        ov = dict(wire.VARINT); ov['nbc.protocol.messages.Message.binary'] = node.greeting
        p = t.sym('payload', 'bytes')
        c.agree('message ' + cmd, 'spec.conn.given', 'spec.conn.given_spec', [K(cmd), p], pre=lambda I, a: t.le(t.length(a[1]), K(8000)), overrides=ov, spec_overrides=wire.VARINT,
                obs=node.TRACE, gens={'payload': wire.gen_small(F)}, limit=80, where='nbc.node.connection.Connection.handle_message')
    def said(i): return t.tup([t.sym('services%d' % i, 'int', 0, 2**64 - 1), t.sym('height%d' % i, 'int', -2**31, 2**31 - 1), t.sym('agent%d' % i, 'bytes', None, None),
                               t.sym('version%d' % i, 'int', -2**31, 2**31 - 1), t.sym('relay%d' % i, 'int', 0, 1), K(('10.0.0.1', '8.8.8.8')[i])])
    c.agree('two versions of one peer', 'spec.conn.given_twice', 'spec.conn.given_twice_spec', [said(0), said(1)], overrides={'nbc.protocol.messages.Message.binary': node.greeting},
            spec_overrides={}, obs=node.TRACE, where='nbc.node.connection.Connection.handle_message')
    c.agree('versions of a peer that acknowledged us', 'spec.conn.given_late', 'spec.conn.given_late_spec', [said(0), said(1)], overrides={'nbc.protocol.messages.Message.binary': node.greeting},
            spec_overrides={}, obs=node.TRACE, where='nbc.node.connection.Connection.handle_message')
    return c
