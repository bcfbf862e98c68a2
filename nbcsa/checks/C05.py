from .. import terms as t
from ..terms import K
from ..check import Check
from . import node

def stream(v):
    """a byte stream of frames, cut in three"""
    if getattr(v, 'cuts', None): return v.cuts
    r = v.rng
    if v.index < 8:                     # long frames
        v.big = True
        n = (65513, 70000, 200000, 1048576, 3000000, 8190, 16400, 40000)[v.index]
        out = bytearray()
        for k in (n, 3): out += v.genbytes(16, r) + k.to_bytes(4, 'little') + v.genbytes(4, r) + bytes(range(251)) * (k // 251) + bytes(k % 251)
        a, b = sorted((r.randrange(len(out)), r.choice((len(out), n + 24, n + 23, n))))
        v.cuts = [bytes(out[:a]), bytes(out[a:b]), bytes(out[b:])]
        return v.cuts
    out = bytearray(); marks = [0]
    for _ in range(r.choice((0, 1, 1, 2, 2, 3))):
        n = r.choice((0, 0, 1, 2, 7, 30))
        size = n if r.random() < .9 else r.choice((2 ** 32 - 1, 2 ** 32 - 20, 2 ** 31, 300))
        marks.append(len(out)); marks.append(len(out) + 16); marks.append(len(out) + 20); marks.append(len(out) + 24)
        out += v.genbytes(16, r) + size.to_bytes(4, 'little') + v.genbytes(4 + n, r)
        marks.append(len(out))
    if r.random() < .4: out += v.genbytes(r.randrange(40), r)
    def pos(): return max(0, min(len(out), r.choice(marks) + r.choice((0, 0, 0, 1, -1, 2)))) if r.random() < .8 else r.randrange(len(out) + 1)
    a, b = sorted((pos(), pos()))
    if r.random() < .8: v.cuts = [bytes(out[:a]), bytes(out[a:b]), bytes(out[b:])]
    else: v.cuts = [bytes(out), b'', bytes(out[:a])]
    return v.cuts

def build():
    c = Check('C05', 'A connection that reads three chunks, and one that queues and writes in turns, show the same events (frames handed over, bytes given to the socket, '
                     'closings) and counters as the reference stream, as functions of all chunks and of what the socket accepts.')
    chunks = [t.sym('c%d' % i, 'bytes') for i in (1, 2, 3)]
    gens = dict(('c%d' % (i + 1), lambda v, x, i=i: stream(v)[i]) for i in range(3))
    ov = {'nbc.protocol.messages.Message.parse': node.bad_frame, 'nbc.protocol.messages.Message.binary': node.greeting}
    c.agree('reading', 'spec.conn.reads', 'spec.conn.reads_spec', chunks, overrides=ov, spec_overrides={}, obs=node.TRACE, gens=gens, samples=3000 if c.thorough else 800, limit=120, where='nbc.node.connection.Connection.handle_read')
    m = [node.GREETING, t.sym('m1', 'bytes'), t.sym('m2', 'bytes')] + [t.sym('r%d' % i, 'int', 0) for i in (1, 2, 3)]
    c.agree('writing', 'spec.conn.writes', 'spec.conn.writes_spec', m, overrides=ov, spec_overrides={}, obs=node.TRACE, limit=120, where='nbc.node.connection.Connection.handle_write')
    def full(I, a):
        return t.and_(t.lt(K(0), t.length(a[0])), t.and_(t.lt(K(0), t.length(a[1])), t.lt(K(0), t.length(a[2]))))
    c.agree('reading from two', 'spec.conn.reads_two', 'spec.conn.reads_two_spec', chunks, pre=full, overrides=ov, spec_overrides={}, obs=node.TRACE, gens=gens, limit=120, where='nbc.node.connection.Connection.handle_read')
    c.agree('writing to two', 'spec.conn.writes_two', 'spec.conn.writes_two_spec', m, overrides=ov, spec_overrides={}, obs=node.TRACE, limit=120, where='nbc.node.connection.Connection.handle_write')
    return c
