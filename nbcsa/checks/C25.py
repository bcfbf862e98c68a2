from .. import terms as t, crypto
from ..evalt import hkey
from ..terms import K
from ..check import Check
from . import keys, hd
from .hd import *

def family(v):
    """a secret, a chain code and a number, some of whose derived modifiers are extreme: no child, or one at a limit"""
    m = getattr(v, 'family', None)
    if m is None:
        r = v.rng; d = hd.gen_secret(v, None); ch = keys.rnd(v, 32); i = hd.GENS['index'](v, None); P_ = None
        if r.random() < .3:
            P_ = keys.small(crypto.gmul(keys.P, 0, d, keys.G)); il = r.choice((keys.N - d, keys.N - d, keys.N, keys.N - 1, keys.N + 1, 0, 2 ** 256 - 1))
            if 0 <= i < 2 ** 32:
                for head in (P_,) if i < 2 ** 31 else (b'\0' + d.to_bytes(32, 'big'),):
                    v.table[hkey(('hmac', 'sha512', ch, head + i.to_bytes(4, 'big')))] = il.to_bytes(32, 'big') + keys.rnd(v, 32)
        m = v.family = (d, ch, i, P_)
    return m
FAMILY = {'secret': lambda v, q: family(v)[0], 'chain': lambda v, q: family(v)[1], 'index': lambda v, q: family(v)[2], 'key': lambda v, q: family(v)[3] or hd.gen_pub(v, q)}
def gen_seed(v, q):
    """seeds, some of whose digests lie at the limits of the range of keys"""
    s = keys.rnd(v, v.rng.choice((0, 1, 16, 32, 64, 128, 129)))
    if v.rng.random() < .5:
        k = v.rng.choice((0, 1, keys.N - 1, keys.N, keys.N + 1, 2 ** 256 - 1, 2 ** 255))
        v.table[hkey(('hmac', 'sha512', b'Bitcoin seed', s))] = k.to_bytes(32, 'big') + keys.rnd(v, 32)
    return s
def build():
    c = Check('C25', 'Master and child derivation denote the same functions (key, chain code, depth, number, fingerprint, network, version number, refusals) as the BIP32 reference; '
                     'public derivation of a private wallet agrees with private derivation.')
    o = crypto.ALL; g = GENS
    n = 1500
    seed = t.sym('seed', 'bytes')
    c.agree('master', lambda I, a: view(I, I.call(I.getattr_(I.member(W), 'from_master_seed'), [a[0]], {'vcn': a[1], 'testnet': a[2]})), S + 'master', [seed, vcn, net],
            gens=dict(g, seed=gen_seed), overrides=o, samples=n, where=W + '.from_master_seed')
    def kid(w): return lambda I, a: I.call(I.member(S + 'usable'), [meth(I, w(I, a), 'child', a[2])], {})
    def ws(I, a): return hd.build(I, a[0], chain=a[1], depth=a[3], parentfp=fp, childnum=num, vcn=a[4], testnet=a[5])
    def wp(I, a): return hd.build(I, hd.point(I, a[0]), chain=a[1], depth=a[3], parentfp=fp, childnum=num, vcn=a[4], testnet=a[5])
    c.agree('child with private key', kid(ws), S + 'child_secret', [secret, chain, index, depth, vcn, net], gens=dict(g, **FAMILY), overrides=o, samples=n, where=W + '.child')
    c.agree('child without private key', kid(wp), S + 'child_public', [pub, chain, index, depth, vcn, net], gens=dict(g, **FAMILY), overrides=o, samples=n, where=W + '.child')
    def half(I, a):
        w = hd.build(I, a[0], chain=a[1], depth=a[3], parentfp=fp, childnum=num)
        p = hd.build(I, meth(I, w, 'point'), chain=a[1], depth=a[3], parentfp=fp, childnum=num)
        return I.call(I.member(S + 'view_public'), [meth(I, p, 'child', a[2])], {})
    c.agree('child of the public half', half, S + 'public_half', [secret, chain, index, depth], gens=dict(g, **FAMILY), overrides=o, samples=n, where=W + '.child')
    anykey = t.sym('anykey', 'int')
    gk = dict(g, anykey=lambda v, q: v.rng.choice((0, 1, -1, keys.N, keys.N - 1, keys.N + 1, v.rng.randrange(1, keys.N), v.rng.randrange(1, keys.N))),
              chain0=lambda v, q: keys.rnd(v, v.rng.choice((32, 32, 32, 32, 31, 33, 0))), depth0=lambda v, q: v.rng.choice((0, 1, 255, 256, 300)))
    c.agree('wallet of its parts', lambda I, a: view(I, hd.build(I, a[0], chain=a[1], vcn=a[2], testnet=a[3], depth=a[4], parentfp=a[5], childnum=a[6])), S + 'make_secret',
            [anykey, t.sym('chain0', 'bytes'), vcn, net, t.sym('depth0', 'int', 0, None), fp, num], gens=gk, overrides=o, samples=n, where=W)
    for nm, mk_ in (('with', lambda I, a: hd.build(I, a[0], chain=a[1], vcn=K(0))), ('without', lambda I, a: hd.build(I, hd.point(I, a[0]), chain=a[1], vcn=K(0)))):
        def two(I, a, mk_=mk_): return view(I, meth(I, meth(I, mk_(I, a), 'child', a[2]), 'child', a[3]))
        def two_spec(I, a, nm=nm):
            f = I.member(S + ('child_secret' if nm == 'with' else 'child_public'))
            one = I.unpack(I.call(f, [a[0], a[1], a[2], K(0), K(0), K(False)], {}), 8)
            key = I.call(I.member(S + 'number'), [one[0]], {}) if nm == 'with' else I.call(I.member(S + 'packed'), [one[1]], {})
            return I.call(f, [key, one[2], a[3], K(1), K(0), K(False)], {})
        c.agree('grandchild %s private key' % nm, two, two_spec, [secret if nm == 'with' else pub, chain, index, t.sym('index2', 'int')], gens=dict(g, index2=g['index']), overrides=o, samples=n // 3, where=W + '.child')
    ops = {'child': lambda I, w, a: view(I, meth(I, w, 'child', a[5])), 'fingerprint': lambda I, w, a: meth(I, w, 'fingerprint'), 'parts': lambda I, w, a: view(I, w),
           'exported': lambda I, w, a: meth(I, w, 'to_extended_key', K(False)), 'exported private': lambda I, w, a: meth(I, w, 'to_extended_key', K(True)),
           'address': lambda I, w, a: meth(I, w, 'address'), 'pubkey': lambda I, w, a: meth(I, w, 'pubkey'), 'prvkey': lambda I, w, a: meth(I, w, 'prvkey'), 'text': lambda I, w, a: I.call(I.member('spec.hd.text'), [w], {})}
    def w1(I, a): return hd.build(I, a[0], chain=a[1], depth=a[2], parentfp=fp, childnum=num, vcn=a[3], testnet=a[4])
    def w2(I, a): return hd.build(I, hd.point(I, a[0]), chain=a[1], depth=a[2], parentfp=fp, childnum=num, vcn=a[3], testnet=a[4])
    for nm, mk_, kk in (('with', w1, secret), ('without', w2, pub)):
        c.again('wallet %s private key' % nm, mk_, ops, [kk, chain, depth, vcn, net, index], gens=g, overrides=o, samples=300, where=W)
    c.agree('fingerprint', lambda I, a: meth(I, hd.build(I, a[0]), 'fingerprint'), lambda I, a: I.call(I.member(S + 'fingerprint'), [I.call(I.member(S + 'base_times'), a, {})], {}), [secret], gens=g, overrides=o, where=W + '.fingerprint')
    return c
