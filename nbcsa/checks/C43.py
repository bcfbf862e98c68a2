"""the signed payload of an alert"""
from .. import terms as t
from ..terms import K
from ..check import Check
from . import node, wire

NAMES = ('version', 'relay_until', 'expiration', 'id', 'cancel', 'set_cancel', 'min_ver', 'max_ver', 'set_sub_ver', 'priority', 'comment', 'status_bar', 'reserved')
def build():
    c = Check('C43', 'Every field of an alert, asked for in any of the listed orders, is that of the layout read from the payload by the reference, and is refused whenever the payload is not of that layout; '
                     'verification is that of the payload under the signature.')
    T = 'spec.talk.'
    p = t.sym('payload', 'bytes')
    from ..spec import wire as W
    I4 = W.I4
    F = [(n, k) for n, k in zip(NAMES, (I4, W.I8, W.I8, I4, I4, W.L(I4), I4, I4, W.L(W.STR), I4, W.STR, W.STR, W.STR))]
    g = {'payload': wire.gen_small(F)}
    P = 'nbc.protocol.messages.Alert.'
    orders = [(n,) for n in NAMES] + [NAMES, NAMES[::-1], ('version', 'version'), ('reserved', 'version', 'reserved'), ('version', 'reserved', 'version', 'comment')]
    for o in orders:
        name = ', '.join(o) if len(o) < 6 else 'all, from ' + o[0]
        c.agree('read ' + name, T + 'reads_alert', T + 'reads_alert_spec', [p, t.tup(K(x) for x in o)], overrides=wire.VARINT, spec_overrides=wire.VARINT, gens=g, limit=60, where=P + o[0],
                samples=800 if len(o) > 1 else 400)
    d, s, k = t.sym('payload', 'bytes'), t.sym('sig', 'bytes'), t.sym('key', 'bytes')
    def signed(I, f, a, kw):
        m = dict(zip(('data', 'public_key', 'signature'), a)); m.update(kw)
        return t.B(t.app('signed', (m['data'], m['public_key'], m['signature']), 'bool'))
    c.agree('verification', T + 'verifies', lambda I, a: t.B(t.app('signed', (a[0], a[2], a[1]), 'bool')), [d, s, k], overrides={'nbc.util.ecc.verify': signed}, spec_overrides={}, where=P + 'verify')
    return c
