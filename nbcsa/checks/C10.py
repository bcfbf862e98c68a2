from .. import terms as t
from ..terms import K
from ..check import Check
from . import node
from .C09 import gen_items, items

CLOCK = dict(lo=1000000000, hi=4000000000)
def clock(n): return t.sym(n, 'int', CLOCK['lo'], CLOCK['hi'])
def near(*offsets):
    """times close to the limits of a rule, counted from t0"""
    def g(v, x):
        r = v.rng
        if not hasattr(v, 'times'): v.times = 2000000000
        return v.times + r.choice(offsets) + r.choice((0, 0, 1, -1, 2, 100))
    return g
def gen_fill(i):
    """enough addresses to reach the limit of the book"""
    def g(v, x):
        r = v.rng
        if not hasattr(v, 'fill'):
            v.fill = r.choice(((3, 2, 1), (1, 0, 2), (0, 0, 0), (2, 2, 2)))
            if v.index < 6:
                v.big = True
                v.fill = [(2499, 2, 3), (2500, 5, 5), (1250, 1250, 9), (1250, 1249, 3), (2501, 0, 1), (2000, 498, 3)][v.index]
        b = 100000 * i
        return tuple((7).to_bytes(4, 'little') + bytes(8) + b'\0' * 10 + b'\xff\xff' + ((b if r.random() < .97 else 0) + j).to_bytes(4, 'big') + b'\x20\x8d' for j in range(v.fill[i]))
    return g

def build():
    c = Check('C10', 'Scenarios on a node (addresses told in three messages, offences and later visits, reduced scores, a node that does not listen) have the same observable outcome as the reference, as functions of the addresses and times.')
    S = 'spec.nodes.'
    c.agree('address book', S + 'fills', S + 'fills_spec', [items('items0'), items('items1'), items('items2')], obs=node.TRACE, gens=dict(('items%d' % i, gen_fill(i)) for i in range(3)),
            samples=60, limit=200, where='nbc.node.basenode.BaseNode.command_address')
    port = t.sym('port', 'int', 0, 65535)
    tg = {'t0': lambda v, x: 2000000000, 't1': near(0, 3600, 7200, 30), 't2': near(3600, 7200, 10, 90000)}
    for k, dialled in [(k, False) for k in range(9)] + [(5, True), (6, True)]:
        c.agree('ban after %d offences%s' % (k, ' of a peer we called' if dialled else ''), S + 'bans', S + 'bans_spec', [clock('t0'), K(k), clock('t1'), clock('t2'), port, K(dialled)], obs=node.TRACE, gens=tg, where='nbc.node.basenode.BaseNode.punish_peer')
    later = dict(tg, t1=near(0, 1700, 1801, 3000, 3600), t2=near(3600, 3500, 7200, 90000))
    c.agree('heartbeat during a ban', S + 'beaten', S + 'beaten_spec', [clock('t0'), clock('t1'), clock('t2'), port], obs=node.TRACE, gens=later, where='nbc.node.basenode.BaseNode.heartbeat')
    c.agree('two peers of one address', S + 'renewed', S + 'renewed_spec', [clock('t0'), clock('t1'), clock('t2'), port], obs=node.TRACE, gens=later, where='nbc.node.basenode.BaseNode.punish_peer')
    for most in (0, 1, 2, 3, 125):
        c.agree('visitors, at most %d dials' % most, S + 'crowded', S + 'crowded_spec', [clock('t0'), K(most), port], obs=node.TRACE, where='nbc.node.basenode.BaseNode.handle_accept')
    c.agree('ban runs out', S + 'expired', S + 'expired_spec', [clock('t0'), clock('t1'), clock('t2'), port], obs=node.TRACE, gens=tg, where='nbc.node.basenode.BaseNode.handle_accept')
    for a, b in ((0, 5), (0, 6), (1, 6), (2, 5), (5, 3), (5, 4), (4, 5), (3, 6)):
        c.agree('score %d, then %d' % (a, b), S + 'forgiven', S + 'forgiven_spec', [K(a), K(b)], obs=node.TRACE, where='nbc.node.connection.Connection.reduce_banscore')
    c.agree('not listening', S + 'deaf', S + 'deaf_spec', [clock('t0'), port, t.sym('ip', 'str')], obs=node.TRACE, where='nbc.node.basenode.BaseNode.handle_accept')
    return c
