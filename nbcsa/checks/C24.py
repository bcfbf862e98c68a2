from .. import terms as t, crypto
from ..terms import K
from ..check import Check
from . import keys
R = 'nbc.util.ecdsa.rfc6979.'; S = 'spec.rfc6979.'
LEN = {'sha1': 20, 'sha224': 28, 'sha256': 32, 'sha384': 48, 'sha512': 64}
def orders():
    from .C21 import CURVES
    out = [(k, v[2]) for k, v in CURVES.items()]
    # orders as far from a power of two as they get, where candidates are often rejected
    return out + [('order of 160 bits', 2 ** 159 + 0x1234567), ('order of 163 bits', 0x4000000000000000000020108A2E0CC0D99F8A5EF), ('order of 61 bits', 2 ** 60 + 33), ('order of 256 bits', 2 ** 255 + 95), ('order of 13 bits', 4099), ('order of 257 bits', 2 ** 256 + 297), ('order of 512 bits', 2 ** 511 + 111), ('order of 224 bits', 2 ** 223 + 9)]
def build():
    c = Check('C24', 'The nonce generator and everything that calls it denote the function RFC 6979 defines, of key, digest and hash function only.')
    n = 300
    for nm, q in orders():
        ql = q.bit_length()
        for h, hl in LEN.items():
            if not c.thorough and nm in ('192', '224', '384') and h not in ('sha1', 'sha256', 'sha512'): continue
            x = t.sym('x%d' % q, 'int', 1, q - 1); d = t.sym('h%d' % hl, 'bytes', None, None, hl)
            def code(I, a, q=q, h=h):
                G = I.call(I.member(S + 'Group'), [K(q)], {})
                return I.call(I.member(R + 'generate_k'), [G, a[0], I.getattr_(I.member('spec.sig.hashlib'), h), a[1]], {})
            def spec(I, a, q=q, h=h, hl=hl, ql=ql):
                return I.call(I.member(S + 'nonce'), [K(q), K(ql), a[0], a[1], I.getattr_(I.member('spec.sig.hashlib'), h), K(hl)], {})
            g = {'x%d' % q: lambda v, _, q=q: v.rng.choice((1, 2, q - 1, v.rng.randrange(1, q), v.rng.randrange(1, q))),
                 'h%d' % hl: lambda v, _, hl=hl, q=q, ql=ql: v.rng.choice((bytes(hl), b'\xff' * hl, keys.rnd(v, hl), near(v, q, ql, hl)))}
            c.agree('%s, %s' % (nm, h), code, spec, [x, d], gens=g, samples=n, where=R + 'generate_k')
    # digests of another length than the hash function makes
    for nm, q, h, hl in [(nm, q, h, hl) for nm, q in orders()[:2] + orders()[6:8] for h, hl in (('sha1', 32), ('sha512', 32), ('sha256', 64), ('sha256', 20), ('sha256', 5))]:
        ql = q.bit_length(); x = t.sym('x%d' % q, 'int', 1, q - 1); d = t.sym('h%d' % hl, 'bytes', None, None, hl)
        def code(I, a, q=q, h=h): return I.call(I.member(R + 'generate_k'), [I.call(I.member(S + 'Group'), [K(q)], {}), a[0], I.getattr_(I.member('spec.sig.hashlib'), h), a[1]], {})
        def spec(I, a, q=q, h=h, ql=ql): return I.call(I.member(S + 'nonce'), [K(q), K(ql), a[0], a[1], I.getattr_(I.member('spec.sig.hashlib'), h), K(LEN[h])], {})
        g = {'x%d' % q: lambda v, _, q=q: v.rng.choice((1, 2, q - 1, v.rng.randrange(1, q), v.rng.randrange(1, q))),
             'h%d' % hl: lambda v, _, hl=hl, q=q, ql=ql: v.rng.choice((bytes(hl), b'\xff' * hl, keys.rnd(v, hl), near(v, q, ql, hl)))}
        c.agree('%s, %s with a digest of %d octets' % (nm, h, hl), code, spec, [x, d], gens=g, samples=n, where=R + 'generate_k')
    # signing through the key class: signature of the digest, of the data, with the default hash
    from .C21 import CURVES
    SK = 'nbc.util.ecdsa.keys.SigningKey'
    data = t.sym('data', 'bytes')
    for cn, nm in (('SECP256k1', 'secp256k1'), ('NIST521p', '521'), ('NIST192p', '192')):
        p, a_, q, G, b_ = CURVES[nm]; ql = q.bit_length(); bl = (ql + 7) // 8
        sec = t.sym('x%d' % q, 'int', 1, q - 1)
        def key(I, x, cn=cn, **kw): return I.call(I.getattr_(I.member(SK), 'from_secret_exponent'), [x, I.getattr_(I.member('nbc.util.ecdsa'), cn)], kw)
        def const(p=p, a_=a_, G=G, q=q, ql=ql, bl=bl): return [K(p), K(a_), t.tup([K(G[0]), K(G[1])]), K(q), K(ql), K(bl)]
        g = {'x%d' % q: lambda v, _, q=q: v.rng.choice((1, 2, q - 1, v.rng.randrange(1, q), v.rng.randrange(1, q)))}
        for h, hl in LEN.items():
            if not c.thorough and h in ('sha224', 'sha384'): continue
            d = t.sym('h%d' % hl, 'bytes', None, None, hl)
            def hf(I, h=h): return I.getattr_(I.member('spec.sig.hashlib'), h)
            c.agree('%s, %s: deterministic signature of a digest' % (cn, h), lambda I, a, key=key, hf=hf: I.call(I.getattr_(key(I, a[0]), 'sign_digest_deterministic'), [a[1]], {'hashfunc': hf(I)}),
                    lambda I, a, const=const, hf=hf, hl=hl: I.call(I.member(S + 'sign_digest'), const() + [a[0], a[1], hf(I), K(hl)], {}), [sec, d], gens=g, overrides=crypto.ALL, samples=100, where=SK + '.sign_digest_deterministic')
            c.agree('%s, %s: deterministic signature of a digest, hash of the key' % (cn, h), lambda I, a, key=key, hf=hf: I.call(I.getattr_(key(I, a[0], hashfunc=hf(I)), 'sign_digest_deterministic'), [a[1]], {}),
                    lambda I, a, const=const, hf=hf, hl=hl: I.call(I.member(S + 'sign_digest'), const() + [a[0], a[1], hf(I), K(hl)], {}), [sec, d], gens=g, overrides=crypto.ALL, samples=100, where=SK + '.sign_digest_deterministic')
            def digest(I, x, hf=hf): return I.call(I.getattr_(I.call(hf(I), [x], {}), 'digest'), [], {})
            c.agree('%s, %s: deterministic signature' % (cn, h), lambda I, a, key=key, hf=hf: I.call(I.getattr_(key(I, a[0]), 'sign_deterministic'), [a[1]], {'hashfunc': hf(I)}),
                    lambda I, a, const=const, hf=hf, hl=hl, digest=digest: I.call(I.member(S + 'sign_digest'), const() + [a[0], digest(I, a[1]), hf(I), K(hl)], {}), [sec, data], gens=g, overrides=crypto.ALL, samples=100, where=SK + '.sign_deterministic')
            c.agree('%s, %s: deterministic signature, hash of the key' % (cn, h), lambda I, a, key=key, hf=hf: I.call(I.getattr_(key(I, a[0], hashfunc=hf(I)), 'sign_deterministic'), [a[1]], {}),
                    lambda I, a, const=const, hf=hf, hl=hl, digest=digest: I.call(I.member(S + 'sign_digest'), const() + [a[0], digest(I, a[1]), hf(I), K(hl)], {}), [sec, data], gens=g, overrides=crypto.ALL, samples=100, where=SK + '.sign_deterministic')
    return c
def near(v, q, ql, hl):
    """a digest whose leftmost bits are about the order"""
    z = q + v.rng.randrange(-2, 3)
    sh = hl * 8 - ql
    z = (z << sh if sh >= 0 else z >> -sh) % 256 ** hl
    return z.to_bytes(hl, 'big')
