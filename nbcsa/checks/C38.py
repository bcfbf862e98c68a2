from .. import terms as t
from ..terms import K, FALSE, TRUE
from ..check import Check
from ..compare import Obs

IPS = [b'\0' * 10 + b'\xff\xff' + bytes(x) for x in ((1, 2, 3, 4), (10, 0, 0, 1), (8, 8, 8, 8))] + [b'\x20\x01' + bytes(13) + b'\1', b'\xff' * 16, bytes(16)]
def build():
    c = Check('C38', 'After the reports of up to five peers (three in the quick run), one of which may have left, the number of peers agreeing with the address of the node is the largest there is.')
    S = 'spec.nodes.'
    pool = lambda v, x: v.rng.choice(IPS[:3 if v.index % 2 else 6])
    for n in (1, 2, 3, 4, 5):
        for leaves in (0, 1)[:n]:
            if n - leaves > 3 and not c.thorough: continue
            ips = [t.sym('ip%d' % i, 'bytes', None, None, 16) for i in range(n)]
            c.agree('%d peers%s' % (n, ', one gone' if leaves else ''), S + 'elects', S + 'elects_spec', [t.tup(ips), K(bool(leaves))],
                    gens=dict(('ip%d' % i, pool) for i in range(n)), limit=60, where='nbc.node.basenode.BaseNode.connected')
    # numbers of peers with different numbers of digits, in each order
    a, b, d = ([K(x)] for x in ('10.0.0.1', '8.8.8.8', '99.1.1.1'))
    for n in ((10, 9, 0), (9, 10, 0), (2, 10, 1), (10, 2, 9), (9, 1, 10), (0, 9, 11), (1, 2, 3), (3, 2, 1)):
        c.agree('%d, %d and %d peers' % n, S + 'outvotes', S + 'outvotes_spec', [t.tup(x * k) for x, k in zip((a, b, d), n)], where='nbc.node.basenode.BaseNode._check_external_ip')
    return c
