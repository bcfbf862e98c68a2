from .. import terms as t, crypto, models
from ..terms import K, mk
from ..check import Check
from ..crypto import gmul, gadd
from . import keys
from .C31 import OVER
E_ = 'nbc.util.ecdsa.ecdsa.'; S = 'spec.sig.'
P, N, G = keys.P, keys.N, keys.G
def call(I, f, *a): return I.call(I.member(f), list(a), {})

CURVE_TEXT = '''
192 fffffffffffffffffffffffffffffffeffffffffffffffff -3 64210519e59c80e70fa7e9ab72243049feb8deecc146b9b1 ffffffffffffffffffffffff99def836146bc9b1b4d22831 188da80eb03090f67cbf20eb43a18800f4ff0afd82ff1012 07192b95ffc8da78631011ed6b24cdd573f977a11e794811
224 ffffffffffffffffffffffffffffffff000000000000000000000001 -3 b4050a850c04b3abf54132565044b0b7d7bfd8ba270b39432355ffb4 ffffffffffffffffffffffffffff16a2e0b8f03e13dd29455c5c2a3d b70e0cbd6bb4bf7f321390b94a03c1d356c21122343280d6115c1d21 bd376388b5f723fb4c22dfe6cd4375a05a07476444d5819985007e34
256 ffffffff00000001000000000000000000000000ffffffffffffffffffffffff -3 5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551 6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296 4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5
384 fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff -3 b3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973 aa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7 3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f
521 1ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff -3 0051953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00 01fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409 00c6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66 011839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650
secp256k1 fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f 0 07 fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141 79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798 483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8
'''
# ---- generators: a signature, its key and its data, mostly matching
def dlen(n): return bytes([n]) if n < 128 else bytes([0x80 + (n.bit_length() + 7) // 8]) + n.to_bytes((n.bit_length() + 7) // 8, 'big')
def dint(n, extra=0):
    b = n.to_bytes(n.bit_length() // 8 + 1 + extra, 'big'); return b'\2' + dlen(len(b)) + b
def der(r, s, extra=0):
    b = dint(r, extra) + dint(s); return b'\x30' + dlen(len(b)) + b
def signed(v):
    m = getattr(v, 'signed', None)
    if m is None:
        r_ = v.rng
        if r_.random() < .12:
            m = v.signed = recovered(v); return m
        d = r_.choice((1, 2, N - 1, r_.randrange(1, N), r_.randrange(1, N))); k = r_.choice((1, 2, N - 1, r_.randrange(1, N), r_.randrange(1, N)))
        data = keys.rnd(v, r_.choice((0, 1, 20)))
        z = int.from_bytes(v.digest('sha256', v.digest('sha256', data)), 'big')
        Q = gmul(P, 0, d, G); r = gmul(P, 0, k, G)[0] % N; s = pow(k, -1, N) * (z + d * r) % N
        m = v.signed = (data, d, Q, r, s, z)
    return m
def recovered(v):
    """a signature whose point has a chosen, extreme first coordinate, and the key that it is valid for"""
    R = v.rng
    while 1:
        x = R.choice((R.randrange(1, 2000), N + R.randrange(0, 2000), P - R.randrange(1, 2000), N - R.randrange(1, 2000)))
        y = keys.ysq(x)
        if y is None or x % N == 0: continue
        r = x % N; s = R.randrange(1, N); data = keys.rnd(v, R.choice((0, 1, 20)))
        z = int.from_bytes(v.digest('sha256', v.digest('sha256', data)), 'big')
        w = pow(r, -1, N)
        Q = gadd(P, 0, gmul(P, 0, s * w % N, (x, y)), gmul(P, 0, -z * w % N, G))
        if Q is None: continue
        v.edge = True
        return (data, 1, Q, r, s, z)
def gen_data(v, q): return signed(v)[0]
def gen_key(v, q):
    d = signed(v); c = v.rng.random()
    if c < .4: return keys.full(d[2])
    if c < .8: return keys.small(d[2])
    return keys.gen_pub(v, q)
def gen_numbers(v):
    _, d, Q, r, s, z = signed(v); c = v.rng.random()
    if getattr(v, 'edge', False) and c < .6: return (r + N, s) if c < .4 else (r + N, N - s)
    if c < .5: return r, s
    if c < .6: return r, N - s
    return v.rng.choice(((r + N, s), (r, s + N), (0, s), (r, 0), (s, r), (r, s ^ 1), (r - 1, s), (N, s), (r, N), (N - 1, s), (r, N - 1), (N - r, s), (1, 1), (r, 2 * s)))
def gen_sig(v, q):
    r, s = gen_numbers(v); c = v.rng.random()
    w = der(r, s)
    if c < .5: return w
    if c < .56: return der(r, s, 1)
    if c < .6: return w + b'\0\0'
    if c < .64: return dint(r) + dint(s)
    if c < .7: return w[:v.rng.randrange(len(w) + 1)]
    if c < .76:
        i = v.rng.randrange(min(8, len(w))); return w[:i] + bytes([v.rng.choice((0, 1, 2, 0x30, 0x80, 0x81, 0x82, 0xff))]) + w[i + 1:]
    if c < .8: return b'\x30\x81' + bytes([len(w) - 2]) + w[2:]
    if c < .84:
        b = r.to_bytes((r.bit_length() + 7) // 8 or 1, 'big'); b2 = s.to_bytes((s.bit_length() + 7) // 8 or 1, 'big')
        b = b'\2' + dlen(len(b)) + b + b'\2' + dlen(len(b2)) + b2
        return b'\x30' + dlen(len(b)) + b
    if c < .9: return b'\x30' + dlen(len(w)) + w
    if c < .92: return b''
    return keys.rnd(v, v.rng.randrange(1, 9))
def gen_word(v, q):
    return keys.word(v, b'\x80' + signed(v)[1].to_bytes(32, 'big') + (b'\1' if v.rng.random() < .5 else b'')) if v.rng.random() < .9 else keys.gen_wif(v, q)

def build():
    c = Check('C21', 'Verification through every interface denotes the ECDSA equation on the numbers the signature encodes; signing denotes the ECDSA signature of the drawn nonce; a made signature verifies.')
    n = 600
    data, key, sig = t.sym('data', 'bytes'), t.sym('key', 'bytes'), t.sym('signature', 'bytes')
    g = {'data': gen_data, 'key': gen_key, 'signature': gen_sig, 'wif': gen_word, 'secret': lambda v, q: signed(v)[1]}
    o = OVER
    tail = t.sym('tail', 'bytes', None, None, 64); x = t.sym('x', 'bytes', None, None, 32)
    shapes = [('uncompressed', t.cat([K(b'\4'), tail]), 'tail'), ('compressed even', t.cat([K(b'\2'), x]), 'x'), ('compressed odd', t.cat([K(b'\3'), x]), 'x')]
    g['tail'] = lambda v, q: keys.full(signed(v)[2])[1:] if v.rng.random() < .9 else keys.full(keys.point(v))[1:]
    g['x'] = lambda v, q: keys.full(signed(v)[2])[1:33] if v.rng.random() < .9 else keys.rnd(v, 32)
    def part(i, w):
        def f(v, q):
            m = gen_numbers(v)[i]
            return (m % 256 ** w).to_bytes(w, 'big')
        return f
    for nm, k, _ in shapes:
        for a, b in ((33, 33), (33, 32), (32, 33), (32, 32), (31, 33), (0, 32), (32, 0), (1, 1)):
            R = t.sym('r%d' % a, 'bytes', None, None, a) if a else K(b''); Z = t.sym('s%d' % b, 'bytes', None, None, b) if b else K(b'')
            gg = dict(g); gg['r%d' % a] = part(0, a); gg['s%d' % b] = part(1, b)
            w = t.cat([K(bytes([0x30, a + b + 4, 2, a])), R, K(bytes([2, b])), Z])
            c.agree('verify, %s key, numbers of %d and %d octets' % (nm, a, b), 'nbc.util.ecc.verify', S + 'verify', [data, k, w], gens=gg, overrides=o, samples=n)
    # any octets as signature, any octets as key: the equation is an uninterpreted predicate of the numbers
    ov = dict(o); ov[E_ + 'Public_key.verifies'] = holds_code; ov[S + 'accepts'] = holds_spec
    c.agree('verify, any signature', 'nbc.util.ecc.verify', S + 'verify', [data, shapes[0][1], sig], gens=g, overrides=ov, samples=3 * n)
    c.agree('verify, any key', 'nbc.util.ecc.verify', S + 'verify', [data, key, t.cat([K(bytes.fromhex('3006020101020101'))])], gens=g, overrides=ov, samples=3 * n)
    # the equation itself, on curves of several sizes
    z = t.sym('z', 'int'); r_, s_ = t.sym('r', 'int'), t.sym('s', 'int'); d_ = t.sym('d', 'int'); k_ = t.sym('k', 'int')
    for nm in ('secp256k1', '192', '256', '521'):
        def pre(nm=nm): return dict(z=small_z(nm), r=of(nm, 3), s=of(nm, 4), d=of(nm, 1), k=of(nm, 5))
        gc = pre()
        def curve(I, nm=nm): return I.member('nbc.util.ecdsa.ecdsa.generator_' + nm)
        def const(I, nm=nm):
            cu = CURVES[nm]; return [K(cu[0]), K(cu[1]), t.tup([K(cu[3][0]), K(cu[3][1])]), K(cu[2])]
        def pub(I, a, nm=nm):
            G_ = curve(I, nm); Q = I.call(I.getattr_(G_, '__mul__'), [a], {})
            return I.call(I.member(E_ + 'Public_key'), [G_, Q], {})
        def code_v(I, a, nm=nm):
            sg = I.call(I.member(E_ + 'Signature'), [a[2], a[3]], {})
            return I.call(I.getattr_(pub(I, a[0], nm), 'verifies'), [a[1], sg], {})
        def spec_v(I, a, nm=nm):
            p, aa, gg, nn = const(I, nm)
            I.raise_if(t.or_(t.lt(a[0], K(1)), t.lt(t.sub(nn, K(1)), a[0])), 'ValueError')
            q = I.call(I.member('spec.sig.times'), [p, aa, nn, a[0], gg], {})
            return I.call(I.member(S + 'accepts'), [p, aa, gg, nn, q, a[1], a[2], a[3]], {})
        dom = t.sym('d%s' % nm, 'int', 1, CURVES[nm][2] - 1); gc['d%s' % nm] = of(nm, 1)
        c.agree('equation on %s' % nm, code_v, spec_v, [dom, z, r_, s_], gens=gc, overrides=o, samples=n // 2, where=E_ + 'Public_key.verifies')
        def code_s(I, a, nm=nm):
            sk = I.call(I.member(E_ + 'Private_key'), [pub(I, a[0], nm), a[0]], {})
            sg = I.call(I.getattr_(sk, 'sign'), [a[1], a[2]], {})
            return t.tup([I.getattr_(sg, 'r'), I.getattr_(sg, 's')])
        def spec_s(I, a, nm=nm):
            p, aa, gg, nn = const(I, nm)
            return I.call(I.member(S + 'makes'), [p, aa, gg, nn, a[0], a[1], t.mod(a[2], nn)], {})
        c.agree('signature on %s' % nm, code_s, spec_s, [dom, z, k_], gens=gc, overrides=o, samples=n // 2, where=E_ + 'Private_key.sign')
    # signing through the interfaces, with the nonce that is drawn
    sec = t.sym('key32', 'bytes', None, None, 32); g['key32'] = lambda v, q: signed(v)[1].to_bytes(32, 'big') if v.rng.random() < .9 else keys.secret(v)
    def drawn(I): return I.overrides['nbc.util.ecdsa.util.randrange'](I, None, [K(N)], {})
    def signed_spec(I, a): return I.call(I.member(S + 'sign'), [a[0], a[1], drawn(I)], {})
    c.agree('sign', lambda I, a: call(I, 'nbc.util.ecc.sign', *a), signed_spec, [data, sec], gens=g, overrides=o, samples=n, where='nbc.util.ecc.sign')
    def back(I, a):
        G_ = I.member('nbc.util.ecdsa.ecdsa.generator_secp256k1')
        pk = I.call(I.member(E_ + 'Public_key'), [G_, I.call(I.getattr_(G_, '__mul__'), [a[0]], {})], {})
        sg = I.call(I.getattr_(I.call(I.member(E_ + 'Private_key'), [pk, a[0]], {}), 'sign'), [a[1], a[2]], {})
        return t.tup([I.call(I.getattr_(pk, 'verifies'), [a[1], sg], {}), t.lt(K(0), I.getattr_(sg, 'r')), t.lt(K(0), I.getattr_(sg, 's')), t.lt(I.getattr_(sg, 'r'), K(N)), t.lt(I.getattr_(sg, 's'), K(N))])
    def back_spec(I, a):
        p, aa, gg, nn = [K(P), K(0), t.tup([K(G[0]), K(G[1])]), K(N)]
        I.call(I.member(S + 'makes'), [p, aa, gg, nn, a[0], a[1], a[2]], {})
        return t.tup([K(True)] * 5)
    nonce = t.sym('nonce', 'int', 1, N - 1); dd = t.sym('dsecp256k1', 'int', 1, N - 1)
    c.agree('a made signature verifies', back, back_spec, [dd, z, nonce], gens=dict(z=small_z('secp256k1'), dsecp256k1=of('secp256k1', 1), nonce=lambda v, q: sig_on(v, 'secp256k1')[5] if v.rng.random() < .5 else v.rng.randrange(1, N)), overrides=o, samples=n, where=E_ + 'Private_key.sign')
    wif = t.sym('wif', 'bytes')
    def ad(I, a): return I.call(I.member('nbc.wallet.address.Address'), [], {'privKey': a[0], 'vcn': K(1)})
    c.agree('sign with an address', lambda I, a: I.call(I.getattr_(ad(I, a), 'sign'), [a[1]], {}), lambda I, a: (call(I, 'spec.keys.read_secret', a[0]), signed_spec(I, [a[1], call(I, 'spec.keys.secret_main', a[0])]))[1],
            [wif, data], gens=g, overrides=o, samples=n, where='nbc.wallet.address.Address.sign', pre=lambda I, a: t.lt(K(0), t.length(a[0])))
    kw = [data, K(b'\4')]
    for nm, k, _ in shapes:
        def adp(I, a, k=k): return I.call(I.getattr_(I.call(I.member('nbc.wallet.address.Address'), [], {'pubKey': k, 'vcn': K(1)}), 'verify'), list(a), {})
        def adp_spec(I, a, k=k):
            call(I, 'spec.keys.expand', k); return call(I, S + 'verify', a[0], k, a[1])
        c.agree('verify with an address, %s' % nm, adp, adp_spec, [data, sig], gens=g, overrides=ov, samples=n, where='nbc.wallet.address.Address.verify')
    ch = t.sym('chain', 'bytes', None, None, 32); si = t.sym('secret', 'int', 1, N - 1)
    def hw(I, x): return I.call(I.member('nbc.wallet.hdwallet.HDWallet'), [x, ch], {})
    c.agree('sign with a wallet', lambda I, a: I.call(I.getattr_(hw(I, a[0]), 'sign'), [a[1]], {}), lambda I, a: signed_spec(I, [a[1], call(I, 'spec.keys.num32', a[0])]), [si, data], gens=g, overrides=o, samples=n, where='nbc.wallet.hdwallet.HDWallet.sign')
    def hwv(I, a): return I.call(I.getattr_(hw(I, a[0]), 'verify'), [a[1], a[2]], {})
    def hwv_spec(I, a):
        pt = call(I, 'spec.keys.base_times', a[0])
        return call(I, S + 'verify', a[1], call(I, 'spec.keys.full', pt), a[2])
    c.agree('verify with a wallet', hwv, hwv_spec, [si, data, sig], gens=g, overrides=ov, samples=n, where='nbc.wallet.hdwallet.HDWallet.verify')
    # the key classes: raw keys, digests and signatures
    VK, SK = 'nbc.util.ecdsa.keys.VerifyingKey', 'nbc.util.ecdsa.keys.SigningKey'
    def k1(I): return I.member('nbc.util.ecdsa.SECP256k1')
    for dl in (0, 1, 20, 32, 33):
        dg = t.sym('digest%d' % dl, 'bytes', None, None, dl) if dl else K(b'')
        g['digest%d' % dl] = lambda v, q, dl=dl: (sig_on(v, 'secp256k1')[0] % 256 ** dl).to_bytes(dl, 'big')
        gr = dict(g, tail=lambda v, q: keys.full(gmul(P, 0, sig_on(v, 'secp256k1')[1], G))[1:] if v.rng.random() < .9 else keys.full(keys.point(v))[1:],
                  raw=lambda v, q: b''.join((of('secp256k1', i)(v, q) % 2 ** 256).to_bytes(32, 'big') for i in (3, 4)),
                  key32=lambda v, q: (sig_on(v, 'secp256k1')[1] if v.rng.random() < .9 else v.rng.choice((0, N, N + 1, 2 ** 256 - 1))).to_bytes(32, 'big'), k=of('secp256k1', 5))
        raw = t.sym('raw', 'bytes', None, None, 64)
        def vd(I, a): return I.call(I.getattr_(I.call(I.getattr_(I.member(VK), 'from_string'), [a[0], k1(I)], {}), 'verify_digest'), [a[2], a[1]], {})
        c.agree('raw verification of %d octets' % dl, vd, lambda I, a: call(I, S + 'check_digest', *a), [tail, dg, raw], gens=gr, overrides=o, samples=n, where=VK + '.verify_digest')
        def sd(I, a): return I.call(I.getattr_(I.call(I.getattr_(I.member(SK), 'from_string'), [a[0], k1(I)], {}), 'sign_digest'), [a[1]], {'k': a[2]})
        c.agree('raw signature of %d octets' % dl, sd, lambda I, a: call(I, S + 'sign_digest', *a), [sec, dg, k_], gens=gr, overrides=o, samples=n, where=SK + '.sign_digest')
        def sd2(I, a): return I.call(I.getattr_(I.call(I.getattr_(I.member(SK), 'from_string'), [a[0], k1(I)], {}), 'sign_digest'), [a[1]], {})
        c.agree('raw signature of %d octets, drawn nonce' % dl, sd2, lambda I, a: call(I, S + 'sign_digest', a[0], a[1], drawn(I)), [sec, dg], gens=gr, overrides=o, samples=n, where=SK + '.sign_digest')
    # verification of data: with the hash of the key, and with another
    HASH = (('sha1', 20), ('sha256', 32), ('sha512', 64), ('sha224', 28))
    def hf(I, h): return I.getattr_(I.member('spec.sig.hashlib'), h)
    def hashed(I, h, x): return I.call(I.getattr_(I.call(hf(I, h), [x], {}), 'digest'), [], {})
    raw = t.sym('raw', 'bytes', None, None, 64)
    gv = dict(g, raw=lambda v, q: keys.rnd(v, 64))
    def vk_of(I, x, **kw): return I.call(I.getattr_(I.member(VK), 'from_string'), [x, k1(I)], kw)
    for h, hl in HASH:
        ways = (('the hash given', lambda I, a, h=h: I.call(I.getattr_(vk_of(I, a[0]), 'verify'), [a[2], a[1], hf(I, h)], {})),
                ('the hash given by name', lambda I, a, h=h: I.call(I.getattr_(vk_of(I, a[0]), 'verify'), [], {'signature': a[2], 'data': a[1], 'hashfunc': hf(I, h)})),
                ('the hash of the key', lambda I, a, h=h: I.call(I.getattr_(vk_of(I, a[0], hashfunc=hf(I, h)), 'verify'), [a[2], a[1]], {})))
        if h == 'sha1': ways += (('no hash given', lambda I, a: I.call(I.getattr_(vk_of(I, a[0]), 'verify'), [a[2], a[1]], {})),)
        for wn, code in ways:
            c.agree('verification of data, %s, %s' % (h, wn), code, lambda I, a, h=h: call(I, S + 'check_digest', a[0], hashed(I, h, a[1]), a[2]), [tail, data, raw], gens=gv, overrides=ov, samples=200, where=VK + '.verify')
    UT = 'nbc.util.ecdsa.util.'
    def pair_of(I, w): return t.tup([t.slice_(w, K(0), K(32)), t.slice_(w, K(32), K(64))])
    def der_of(I, w): return t.cat([K(b'\x30\x44\2\x20'), t.slice_(w, K(0), K(32)), K(b'\2\x20'), t.slice_(w, K(32), K(64))])
    def der_spec(I, w):
        r, z = I.unpack(call(I, 'spec.der.strict_signature', der_of(I, w)), 2)
        return t.cat([call(I, 'spec.keys.num32', r), call(I, 'spec.keys.num32', z)])
    for short, dec, mk_sig, sig_spec in (('DER', 'sigdecode_der', der_of, der_spec), ('a pair', 'sigdecode_strings', pair_of, lambda I, w: w)):
        def code(I, a, dec=dec, mk_sig=mk_sig): return I.call(I.getattr_(vk_of(I, a[0]), 'verify'), [mk_sig(I, a[2]), a[1]], {'sigdecode': I.member(UT + dec), 'hashfunc': hf(I, 'sha256')})
        c.agree('verification of data, signature as %s' % short, code, lambda I, a, f=sig_spec: call(I, S + 'check_digest', a[0], hashed(I, 'sha256', a[1]), f(I, a[2])), [tail, data, raw], gens=gv, overrides=ov, samples=200, where=VK + '.verify')
    # signing data with a nonce given
    for h, hl in HASH[:3]:
        for wn, code in (('the hash given', lambda I, a, h=h: I.call(I.getattr_(I.call(I.getattr_(I.member(SK), 'from_string'), [a[0], k1(I)], {}), 'sign'), [a[1]], {'k': a[2], 'hashfunc': hf(I, h)})),
                         ('the hash of the key', lambda I, a, h=h: I.call(I.getattr_(I.call(I.getattr_(I.member(SK), 'from_string'), [a[0], k1(I)], {'hashfunc': hf(I, h)}), 'sign'), [a[1]], {'k': a[2]}))):
            c.agree('signature of data, %s, %s' % (h, wn), code, lambda I, a, h=h: call(I, S + 'sign_digest', a[0], hashed(I, h, a[1]), a[2]), [sec, data, k_], gens=gr, overrides=o, samples=200, where=SK + '.sign')
    # keys that were used before
    dg = t.sym('digest32', 'bytes', None, None, 32); dn = t.sym('n', 'int'); raw = t.sym('raw', 'bytes', None, None, 64)
    def vk(I, a): return I.call(I.getattr_(I.member(VK), 'from_string'), [a[0], k1(I)], {})
    def sk(I, a): return I.call(I.getattr_(I.member(SK), 'from_string'), [a[0], k1(I)], {})
    def m(I, o, f, *a, **kw): return I.call(I.getattr_(o, f), list(a), kw)
    c.again('signing key', sk, {'signature': lambda I, o, a: m(I, o, 'sign_digest', a[1], k=a[2]), 'signature of a drawn nonce': lambda I, o, a: m(I, o, 'sign_digest', a[1]), 'octets': lambda I, o, a: m(I, o, 'to_string'), 'public': lambda I, o, a: m(I, m(I, o, 'get_verifying_key'), 'to_string'), 'DER': lambda I, o, a: m(I, o, 'to_der')},
            [sec, dg, k_], gens=gr, overrides=o, samples=200, where=SK)
    c.again('verifying key', vk, {'verification': lambda I, o, a: m(I, o, 'verify_digest', a[1], a[2]), 'octets': lambda I, o, a: m(I, o, 'to_string'), 'DER': lambda I, o, a: m(I, o, 'to_der')},
            [tail, raw, dg], gens=gr, overrides=ov, samples=200, where=VK)
    c.again('address', ad, {'signature': lambda I, o, a: m(I, o, 'sign', a[1]), 'verification': lambda I, o, a: m(I, o, 'verify', a[1], a[2])}, [wif, data, sig], gens=g, overrides=ov, samples=200, where='nbc.wallet.address.Address.sign', pre=lambda I, a: t.lt(K(0), t.length(a[0])))
    c.again('wallet', lambda I, a: hw(I, a[0]), {'signature': lambda I, o, a: m(I, o, 'sign', a[1]), 'verification': lambda I, o, a: m(I, o, 'verify', a[1], a[2])}, [si, data, sig], gens=g, overrides=ov, samples=200, where='nbc.wallet.hdwallet.HDWallet.sign')
    return c

CURVES = {}
for _l in CURVE_TEXT.split('\n'):
    _f = _l.split()
    if _f: CURVES[_f[0]] = (int(_f[1], 16), int(_f[2]), int(_f[4], 16), (int(_f[5], 16), int(_f[6], 16)), int(_f[3], 16))
def sig_on(v, nm):
    m = getattr(v, 'on' + nm, None)
    if m is None:
        p, a, nn, G_, b = CURVES[nm]; R = v.rng
        d, k = [R.choice((1, 2, 3, nn - 1, R.randrange(1, nn), R.randrange(1, nn))) for _ in '12']
        z = R.choice((0, 1, nn, nn - 1, R.getrandbits(nn.bit_length()), R.getrandbits(160), -R.getrandbits(160)))
        r = gmul(p, a, k, G_)[0] % nn
        if R.random() < .05: z = -d * r % nn
        s = pow(k, -1, nn) * (z + d * r) % nn
        m = (z, d, None, r, s, k); setattr(v, 'on' + nm, m)
    return m
def small_z(nm): return lambda v, q: sig_on(v, nm)[0]
def of(nm, i):
    def f(v, q):
        x = sig_on(v, nm)[i]; nn = CURVES[nm][2]; R = v.rng
        if i == 1 or R.random() < .75: return x
        return R.choice((nn - x, x + nn, x - 1, x + 1, 0, nn, nn - 1, 1, R.randrange(1, nn), -x, 2 * nn, x + 2 * nn))
    return f

def holds(z, r, s, x, y): return t.app('verifies', [t.seal(a, 1) for a in (z, r, s, x, y)], 'bool')
def holds_code(I, f, a, kw):
    me, z, sg = a; p = I.getattr_(me, 'point')
    return t.B(holds(z, I.getattr_(sg, 'r'), I.getattr_(sg, 's'), I.call(I.getattr_(p, 'x'), [], {}), I.call(I.getattr_(p, 'y'), [], {})))
def holds_spec(I, f, a, kw):
    x, y = I.unpack(a[4], 2)
    return t.B(holds(a[5], a[6], a[7], x, y))
