from .. import terms as t, crypto
from ..terms import K
from ..check import Check
from . import keys

def build():
    c = Check('C20', 'Every reader of encoded public keys denotes the same function as the reference: the same points, and refusal of everything else '
                     '(Base58, modular roots and scalar multiplication by their definitions, C34-C36).')
    S = 'spec.keys.'
    o = crypto.ALL
    k = t.sym('key', 'bytes')
    g = {'key': keys.gen_pub, 'wif': keys.gen_wif, 'point': keys.gen_pub}
    n = 2500
    c.agree('decompress', 'nbc.util.key.decompress_public_key', S + 'expand', [k], cats=['ValueError'], gens=g, overrides=o, samples=n)
    # each first octet, with the lengths of both forms
    def headed(v, q):
        p = keys.point(v); b = v.index % 512
        return bytes([b % 256]) + (keys.full(p)[1:33] if b < 256 else keys.full(p)[1:])
    c.agree('first octet', 'nbc.util.key.decompress_public_key', S + 'expand', [k], cats=['ValueError'], gens={'key': headed}, overrides=o, samples=1024)
    c.agree('compress', 'nbc.util.key.compress_public_key', S + 'squeeze', [k], gens=g, overrides=o, samples=n)
    def nonempty(I, a): return t.lt(K(0), t.length(a[0]))
    def made(f):
        def run(I, a):
            ad = I.call(I.member('nbc.wallet.address.Address'), [], dict([(f, a[0]), ('vcn', K(0))]))
            return I.call(I.member(S + 'view_address'), [ad], {})
        return run
    c.agree('address of a public key', made('pubKey'), S + 'read_public', [k], gens=g, overrides=o, samples=n, where='nbc.wallet.address.Address')
    w = t.sym('wif', 'bytes')
    c.agree('address of a private key', made('privKey'), S + 'read_secret', [w], gens=g, overrides=o, samples=n, pre=nonempty, where='nbc.wallet.address.Address')
    def both(I, a):
        ad = I.call(I.member('nbc.wallet.address.Address'), [], dict(pubKey=a[0], vcn=K(0)))
        return t.tup([I.getattr_(I.call(I.getattr_(ad, 'decompress'), [], {}), 'pubKey'), I.call(I.getattr_(I.call(I.getattr_(ad, 'compress'), [], {}), 'publicKey'), [], {})])
    c.agree('both forms of an address', both, S + 'both_forms', [k], gens=g, overrides=o, samples=n, where='nbc.wallet.address.Address.compress')
    def forms(I, a):
        ad = I.call(I.member('nbc.wallet.address.Address'), [], dict(pubKey=a[0], vcn=K(0)))
        return t.tup([I.getattr_(I.call(I.getattr_(ad, 'decompress'), [], {}), 'compressed'), I.getattr_(I.call(I.getattr_(ad, 'compress'), [], {}), 'compressed')])
    def marked(I, a):
        I.call(I.member(S + 'expand'), a, {})
        return t.tup([K(False), K(True)])
    c.agree('marks of both forms', forms, marked, [k], gens=g, overrides=o, samples=n, where='nbc.wallet.address.Address.compress')
    def back33(I, a): return I.call(I.member('nbc.util.key.compress_public_key'), [I.call(I.member('nbc.util.key.decompress_public_key'), a, {})], {})
    def back65(I, a): return I.call(I.member('nbc.util.key.decompress_public_key'), [I.call(I.member('nbc.util.key.compress_public_key'), a, {})], {})
    def id_(n):
        def f(I, a):
            I.call(I.member(S + 'expand'), a, {})
            return a[0]
        return f
    k33 = t.sym('key33', 'bytes', None, None, 33); k65 = t.sym('key65', 'bytes', None, None, 65)
    good33 = lambda v, q: keys.small(keys.point(v)) if v.rng.random() < .9 else bytes([2]) + keys.rnd(v, 32)
    good65 = lambda v, q: keys.full(keys.point(v))
    c.agree('compress what was decompressed', back33, id_(33), [k33], gens={'key33': good33}, overrides=o, samples=n, where='nbc.util.key')
    def valid(I, a):
        x = I.call(I.member(S + 'expand'), a, {}); return x
    def same65(I, a): return I.call(I.member(S + 'expand'), a, {})
    def back65v(I, a):
        I.call(I.member(S + 'expand'), a, {})
        return back65(I, a)
    c.agree('decompress what was compressed', back65v, same65, [k65], gens={'key65': good65}, overrides=o, samples=n, where='nbc.util.key')
    def dec(I, a):
        p = I.call(I.member('nbc.wallet.hdwallet.point_decompress'), [I.getattr_(I.member('nbc.util.ecdsa.SECP256k1'), 'curve'), a[0]], {})
        return t.tup([I.call(I.getattr_(p, 'x'), [], {}), I.call(I.getattr_(p, 'y'), [], {})])
    def pre33(I, a): return t.eq(t.length(a[0]), K(33))
    c.agree('point of a compressed key', dec, S + 'point_of', [k], gens=g, overrides=o, pre=pre33, samples=n, where='nbc.wallet.hdwallet.point_decompress')
    def comp(I, a):
        p = I.call(I.member('nbc.wallet.hdwallet.point_decompress'), [I.getattr_(I.member('nbc.util.ecdsa.SECP256k1'), 'curve'), a[0]], {})
        return I.call(I.member('nbc.wallet.hdwallet.point_compress'), [p], {})
    c.agree('compressed key of its point', comp, lambda I, a: I.call(I.member(S + 'small'), [I.call(I.member(S + 'point_of'), a, {})], {}), [k], gens=g, overrides=o, pre=pre33, samples=n, where='nbc.wallet.hdwallet.point_compress')
    def vk(I, a):
        v = I.call(I.getattr_(I.member('nbc.util.ecdsa.VerifyingKey'), 'from_string'), [a[0], I.member('nbc.util.ecdsa.SECP256k1')], {})
        p = I.getattr_(I.getattr_(v, 'pubkey'), 'point')
        return t.tup([I.call(I.getattr_(p, 'x'), [], {}), I.call(I.getattr_(p, 'y'), [], {})])
    tail = {'key': lambda v, q: keys.gen_pub(v, q)[1:]}
    c.agree('verifying key of a string', vk, S + 'tail_point', [k], gens=tail, overrides=o, samples=n, where='nbc.util.ecdsa.keys.VerifyingKey.from_string')
    c.agree('shared secret', 'nbc.util.ecc.shared_secret', S + 'shared', [k, w], gens=g, overrides=o, samples=n)
    return c
