from .. import terms as t
from ..terms import K
from ..check import Check
from . import node

def build():
    c = Check('C11', 'Each way a connection ends, and each failure while it is made, shows the same events (socket opened, closed, node told) and leaves the node in the same state as the reference; every socket operation may fail.')
    S = 'spec.nodes.'
    for i, name in enumerate(('on request', 'end of stream', 'read error', 'write error', 'removed from the node', 'socket error', 'failing callback')):
        c.agree('closed: ' + name, S + 'closes', S + 'closes_spec', [K(i)], obs=node.TRACE, where='nbc.node.connection.Connection.handle_close')
    port = t.sym('port', 'int', 0, 65535)
    c.agree('outgoing connection', S + 'connects', S + 'connects_spec', [port], obs=node.TRACE, where='nbc.node.connection.Connection.__init__')
    c.agree('accepted connection', S + 'accepts', S + 'accepts_spec', [port], obs=node.TRACE, where='nbc.node.connection.Connection.__init__')
    return c
