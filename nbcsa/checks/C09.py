from .. import terms as t
from ..terms import K
from ..check import Check
from . import node, wire

IPS = [b'\0' * 10 + b'\xff\xff' + bytes(x) for x in ((1, 2, 3, 4), (10, 0, 0, 1), (8, 8, 8, 8), (255, 255, 255, 255))] + [b'\x20\x01' + bytes(13) + b'\1']
def gen_items(most):
    def g(v, x):
        r = v.rng
        if v.index < len(most): v.big = True; n = most[v.index]
        else: n = r.choice((0, 1, 2, 3, 5))
        ts = r.sample(range(1, 100000, 2), n)   # no two at the same time: their order is free
        out = []
        for i in range(n):
            ip = r.choice(IPS) if n < 9 else IPS[0][:12] + i.to_bytes(4, 'big')
            out.append(ts[i].to_bytes(4, 'little') + r.choice((0, 1, 3, 2 ** 64 - 1, 5)).to_bytes(8, 'little') + ip + r.choice((1, 8333, 65535)).to_bytes(2, 'big'))
        return tuple(out)
    return g
def items(name):
    s = t.sym(name, 'seq')
    t.set_elem_sort(s, 'bytes', None, None, 30)
    return s

def build():
    c = Check('C09', 'Scenarios on a node and its connections (greeting, ping, version, address request after any list of addresses, acknowledged peer) show the same messages as the reference, as functions of every field.')
    S = 'spec.nodes.'
    c.agree('greeting', S + 'greets', S + 'greets_spec', [t.sym('port', 'int', 0, 65535), t.sym('t0', 'int', 1000000000, 4000000000), t.sym('height', 'int', 0, 2 ** 31 - 1), t.sym('agent', 'bytes')],
            obs=node.TRACE, where='nbc.node.connection.Connection.__init__')
    c.agree('ping', S + 'pinged', S + 'pinged_spec', [t.sym('nonce', 'bytes', None, None, 8)], obs=node.TRACE, where='nbc.node.basenode.BaseNode.command_ping')
    c.agree('version', S + 'versioned', S + 'versioned_spec', [t.sym('f%d' % i, 'any') for i in range(7)], obs=node.TRACE, where='nbc.node.basenode.BaseNode.command_version')
    c.agree('version after an acknowledgement', S + 'versioned_late', S + 'versioned_spec', [t.sym('f%d' % i, 'any') for i in range(7)], obs=node.TRACE, where='nbc.node.basenode.BaseNode.command_version')
    c.agree('address request', S + 'asked', S + 'asked_spec', [items('items')], obs=node.TRACE, gens={'items': gen_items((999, 1000, 1001, 1200))}, samples=200, limit=120, where='nbc.node.basenode.BaseNode.command_get_address')
    c.agree('address request after a peer without services', S + 'asked_after_unknown', S + 'asked_after_unknown_spec', [items('items'), t.sym('when', 'int', 0, 2 ** 32 - 1)], obs=node.TRACE, gens={'items': gen_items((999, 1000, 1001, 1200)), 'when': lambda v, q: 200000 if v.index < 4 else v.rng.choice((0, 50000, 200000))}, samples=200, limit=120,
            where='nbc.node.basenode.BaseNode.command_get_address')
    ts = [t.sym('t%d' % i, 'int', 1000000000, 4000000000) for i in (1, 2, 3)]
    c.agree('acknowledged peer', S + 'acknowledged', S + 'acknowledged_spec', [t.sym('services', 'int', 0, 2 ** 64 - 1)] + ts, obs=node.TRACE, where='nbc.node.basenode.BaseNode.command_version_ack')
    c.agree('acknowledged peer whose address was known', S + 'acknowledged_known', S + 'acknowledged_spec', [t.sym('services', 'int', 0, 2 ** 64 - 1)] + ts, obs=node.TRACE, where='nbc.node.basenode.BaseNode.command_version_ack')
    return c
