"""how a node looks for peers"""
from .. import terms as t
from ..terms import K
from ..check import Check
from . import node

def py(name):
    """a function of the reference that stands for the network"""
    return lambda I, f, a, kw: I.call(I.member('spec.seek.' + name), a[:2], {})
def draw(k):
    """random numbers: the k-th possible value (or the last)"""
    return {'random.randint': lambda I, f, a, kw: t.ite(t.lt(a[1], t.add(a[0], K(k))), a[1], t.add(a[0], K(k))), 'random.choice': lambda I, f, a, kw: pick(I, a[0], k),
            'random.random': lambda I, f, a, kw: K(0.5), 'random.shuffle': lambda I, f, a, kw: K(None)}
def pick(I, x, k):
    s = I.seq_of(x)
    I.raise_if(t.eq(t.length(s), K(0)), 'IndexError')
    return I.call(I.member('spec.seek.first'), [s], {})
NET = {'asyncore.dispatcher.create_socket': py('net_socket'), 'asyncore.dispatcher.connect': py('net_connect'), 'nbc.protocol.messages.Message.binary': node.greeting}

KNOWN = [('1.1.1.1', 11), ('2.2.2.2', 22), ('2.2.2.2', 23), ('4.4.4.4', 44), ('5.5.5.5', 55), ('6.6.6.6', 66), ('7.7.7.7', 77)]
LINKED = [('8.8.8.8', 1), ('8.8.4.4', 2), ('1.1.1.1', 11)] + [('8.1.0.%d' % i, i) for i in range(1, 10)]
def build():
    c = Check('C40', 'Heartbeats, single dials and turns of the event loop of a node, over a network in which every address may refuse, have the same outcome (who is dialled, how often, who is connected, '
                     'who is asked and forgiven, when) as the reference, as functions of the refusals and times.')
    S = 'spec.seek.'
    ov = dict(NET); ov.update(draw(0))
    HB = 'nbc.node.basenode.BaseNode.heartbeat'
    for seek, most, boot, nk, nl, beats in ((16, 125, False, 2, 0, 1), (16, 125, False, 3, 0, 1), (16, 125, True, 0, 0, 1), (16, 125, True, 1, 0, 1), (16, 125, True, 2, 1, 1), (16, 1, True, 0, 0, 1), (16, 2, True, 0, 0, 1),
                                            (16, 2, True, 0, 1, 1), (16, 3, True, 0, 1, 1), (1, 125, True, 0, 1, 1), (2, 125, True, 0, 1, 2), (0, 125, True, 1, 0, 1), (16, 125, False, 0, 2, 4), (16, 2, False, 2, 1, 1), (16, 125, False, 2, 3, 1),
                                            (16, 125, False, 2, 0, 2), (16, 125, True, 1, 0, 2), (0, 125, False, 0, 7, 2), (12, 125, False, 1, 12, 1)):
        a = [K(seek), K(most), K(boot), t.tup(K(x) for x in KNOWN[:nk]), t.tup(K(x) for x in LINKED[:nl]), K(beats)]
        c.agree('%d known, %d connected, seeking %d of %d%s, %d beats' % (nk, nl, seek, most, ' with a seed' if boot else '', beats), S + 'seeks', S + 'seeks_spec', a, overrides=ov, spec_overrides={}, limit=80, where=HB)
    # fewer turns than addresses: how many, not which
    for seek, nk, nl, beats in ((1, 3, 0, 1), (2, 3, 1, 1), (3, 7, 0, 1), (16, 7, 0, 1), (16, 6, 1, 1), (16, 7, 0, 2), (6, 7, 0, 2), (2, 5, 2, 1)):
        a = [K(seek), K(125), K(False), t.tup(K(x) for x in KNOWN[:nk]), t.tup(K(x) for x in LINKED[:nl]), K(beats)]
        def willing(I, a):
            for x in KNOWN: I.assume(t.not_(t.B(t.app('refuses', (K(x[0]),), 'bool'))))
            return t.TRUE
        def run(f): return lambda I, a: (willing(I, a), I.call(I.member(S + f), a, {}))[1]
        c.agree('%d known, %d connected, seeking %d, all answer, %d beats' % (nk, nl, seek, beats), run('seeks_some'), run('seeks_some_spec'), a, overrides=ov, spec_overrides={}, limit=80, where=HB)
    IPS = ('8.8.8.8', '8.8.4.4', '9.9.9.9', '1.1.1.1')
    def legal(I, a):
        r = t.FALSE
        for x in IPS: r = t.or_(r, t.eq(ip, K(x)))
        return r
    ip, port = t.sym('ip', 'str'), t.sym('port', 'int', 0, 65535)
    for name, a in (('any address', t.tup([ip, port])), ('a connected address', K(LINKED[0])), ('the address of the node', K(('9.9.9.9', 7777))), ('another port of a connected peer', K(('8.8.8.8', 2)))):
        for force in (False, True):
            for most in (2, 3, 4, 125):
                c.agree('dialling %s%s, at most %d' % (name, ' with force' if force else '', most), S + 'dials', S + 'dials_spec', [a, K(force), K(most), t.tup(K(x) for x in LINKED[:2])], overrides=ov, spec_overrides={},
                        pre=legal, gens={'ip': lambda v, q: v.rng.choice(IPS), 'port': lambda v, q: v.rng.choice((1, 2, 7777, 3))}, where='nbc.node.basenode.BaseNode.add_peer')
    def clock(n): return t.sym(n, 'int', 1000000000, 4000000000)
    def near(v, q):
        if not hasattr(v, 'now'): v.now = 2000000000
        v.now += v.rng.choice((0, 1, 5, 9, 10, 11, 12, 100)); return v.now
    for own, linked in ((True, True), (True, False), (False, True), (False, False)):
        c.agree('turns of the loop%s%s' % (', node closed' if not own else '', ', no peer' if not linked else ''), S + 'beats', S + 'beats_spec', [K(own), K(linked)] + [clock('t%d' % i) for i in range(4)], overrides={'nbc.protocol.messages.Message.binary': node.greeting}, spec_overrides={}, gens=dict(('t%d' % i, near) for i in range(4)),
                where='nbc.node.basenode.BaseNode.items')
    return c
