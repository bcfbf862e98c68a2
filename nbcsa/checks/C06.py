from .. import terms as t
from ..terms import K
from ..check import Check
from . import node
from .C05 import stream

def build():
    c = Check('C06', 'The read and write callbacks of a connection whose parser, handlers and socket may fail in every way have no exit by exception and show the same events '
                     '(frames, reports, log entries, closings) as the reference, for all chunks and all failures.')
    ov = {'nbc.protocol.messages.Message.parse': node.any_parser, 'nbc.protocol.messages.Message.binary': node.greeting}
    chunks = [t.sym('c%d' % i, 'bytes') for i in (1, 2)]
    gens = dict(('c%d' % (i + 1), lambda v, x, i=i: stream(v)[i]) for i in range(2))
    c.agree('read callback', 'spec.conn.faulty_reads', 'spec.conn.faulty_reads_spec', chunks, overrides=ov, spec_overrides={}, obs=node.TRACE, gens=gens, samples=4000 if c.thorough else 1200, limit=120, where='nbc.node.connection.Connection.handle_read')
    c.agree('write callback', 'spec.conn.faulty_writes', 'spec.conn.faulty_writes_spec', [node.GREETING, t.sym('m1', 'bytes')] + [t.sym('r%d' % i, 'int', 0) for i in (1, 2)],
            overrides=ov, spec_overrides={}, obs=node.TRACE, samples=1200, limit=120, where='nbc.node.connection.Connection.handle_write')
    c.agree('reports of bad frames', 'spec.conn.reports', 'spec.conn.reports_spec', [t.sym('payload', 'bytes'), t.sym('kind', 'int', 0, 5), t.sym('level', 'int', 0, 4), t.sym('text', 'str')],
            overrides={'nbc.protocol.messages.Message.binary': node.greeting}, spec_overrides={}, samples=600, where='nbc.node.basenode.BaseNode.invalid_command')
    return c
