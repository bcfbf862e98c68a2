"""logging changes nothing"""
from .. import terms as t
from ..terms import K
from ..check import Check
from . import node, wire

def build():
    c = Check('C42', 'At the log levels that log messages, a frame of each kind that comes in, and a message of each kind that goes out, shows the same events as the reference, '
                     'which are those at any other level and one line of text.')
    def short(I, a): return t.le(t.length(a[2]), K(8000))
    for cmd in wire.COMMANDS:
        F = wire.W.MESSAGES[cmd][2]
        ov = dict(wire.VARINT); ov['nbc.protocol.messages.Message.binary'] = node.greeting
        # a hash is computed when first asked for, and kept (C01)
        for k in ('format.Txn', 'format.BlockHeader'): ov['nbc.protocol.%s.hash' % k] = lambda I, f, a, kw: t.app('hash_of', (I.reify(a[0]),), 'bytes', None, None)

        p = t.sym('payload', 'bytes')
        g = {'payload': wire.gen_small(F), 'greeting': lambda v, q: b'hello'}
        for level in (0, 1):
            for what, f, w in (('heard', 'hears', 'handle_message'), ('said', 'says', 'send_message')):
                c.agree('%s %s at level %d' % (cmd, what, level), 'spec.talk.' + f, 'spec.talk.%s_spec' % f, [K(level), K(cmd), p], pre=short, overrides=ov, spec_overrides=wire.VARINT,
                        obs=node.TRACE, gens=g, limit=80, samples=(10000 if c.thorough else 1000), where='nbc.node.connection.Connection.' + w)
    return c
