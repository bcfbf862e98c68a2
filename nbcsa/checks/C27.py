from .. import terms as t, crypto
from ..terms import K
from ..check import Check
from . import keys

def build():
    c = Check('C27', 'Every function of the package that computes an address denotes the same function of key, version number and network as the reference.')
    S = 'spec.keys.'
    o = crypto.ALL
    k = t.sym('key', 'bytes'); w = t.sym('wif', 'bytes'); vcn = t.sym('vcn', 'int'); ver = t.sym('version', 'bytes', None, None, 1); net = t.sym('testnet', 'bool')
    sec = t.sym('secret', 'int', 1, keys.N - 1)
    g = {'key': keys.gen_pub, 'wif': keys.gen_wif, 'vcn': lambda v, q: v.rng.choice((0, 1, 255, 65535, 65536, -1, 70000, 4095, v.rng.getrandbits(16), v.rng.getrandbits(20)))}
    gj = dict(g, wif=valid_wif, key=lambda v, q: keys.gen_pub(v, q) if v.rng.random() < .2 else keys.full(keys.point(v)))
    n = 1500
    c.agree('address of a key', 'nbc.util.key.publickey_to_address', S + 'address_of', [k, vcn, ver], gens=g, overrides=o)
    def default(I, a): return I.call(I.member('nbc.util.key.publickey_to_address'), a, {})
    c.agree('address of a key, main network', default, lambda I, a: I.call(I.member(S + 'address_of'), a + [K(b'\0')], {}), [k, vcn], gens=g, overrides=o, where='nbc.util.key.publickey_to_address')
    def pre(I, a): return t.lt(K(0), t.length(a[0]))
    def made(f):
        def run(I, a):
            ad = I.call(I.member('nbc.wallet.address.Address'), [], {f: a[0], 'vcn': a[1], 'testnet': a[2]})
            return I.getattr_(ad, 'address')
        return run
    c.agree('Address of a public key', made('pubKey'), S + 'address_public', [k, vcn, net], gens=g, overrides=o, samples=n, where='nbc.wallet.address.Address')
    c.agree('Address of a private key', made('privKey'), S + 'address_secret', [w, vcn, net], gens=g, overrides=o, pre=pre, samples=n, where='nbc.wallet.address.Address')
    # without a version number the address belongs to the one the object shows
    def unnumbered(f):
        def run(I, a):
            ad = I.call(I.member('nbc.wallet.address.Address'), [], {f: a[0], 'testnet': a[1]})
            return I.getattr_(ad, 'address')
        def spec(I, a):
            ad = I.call(I.member('nbc.wallet.address.Address'), [], {f: a[0], 'testnet': a[1]})
            return I.call(I.member(S + ('address_public' if f == 'pubKey' else 'address_secret')), [a[0], I.getattr_(ad, 'vcn'), a[1]], {})
        return run, spec
    for f, s in (('pubKey', k), ('privKey', w)):
        r, e = unnumbered(f)
        c.agree('Address without version number, %s' % f, r, e, [s, net], gens=g, overrides=o, pre=pre, samples=n, where='nbc.wallet.address.Address')
    def forms(I, a):
        ad = I.call(I.member('nbc.wallet.address.Address'), [], {'pubKey': a[0], 'vcn': a[1], 'testnet': a[2]})
        return t.tup([I.getattr_(I.call(I.getattr_(ad, 'decompress'), [], {}), 'address'), I.getattr_(I.call(I.getattr_(ad, 'compress'), [], {}), 'address')])
    def forms_spec(I, a):
        big, sm = I.unpack(I.call(I.member(S + 'both_forms'), [a[0]], {}), 2)
        v = I.call(I.member(S + 'version_of'), [a[2]], {})
        return t.tup([I.call(I.member(S + 'address_of'), [x, a[1], v], {}) for x in (big, sm)])
    c.agree('Address in its other form', forms, forms_spec, [k, vcn, net], gens=g, overrides=o, samples=n, where='nbc.wallet.address.Address.compress')
    def forms2(I, a):
        ad = I.call(I.member('nbc.wallet.address.Address'), [], {'privKey': a[0], 'vcn': a[1], 'testnet': a[2]})
        d = I.call(I.getattr_(ad, 'decompress'), [], {}); e = I.call(I.getattr_(ad, 'compress'), [], {})
        return t.tup([I.getattr_(d, 'address'), I.getattr_(e, 'address'), I.getattr_(d, 'privKey'), I.getattr_(e, 'privKey')])
    c.agree('Address of a private key in its other form', forms2, S + 'secret_forms', [w, vcn, net], gens={'wif': valid_wif, 'vcn': g['vcn']}, overrides=o, pre=pre, samples=n, where='nbc.wallet.address.Address.decompress')
    def amake(f): return lambda I, a: I.call(I.member('nbc.wallet.address.Address'), [], {f: a[0], 'vcn': a[1], 'testnet': a[2]})
    def m(I, o, f, *a): return I.call(I.getattr_(o, f), list(a), {})
    def parts(I, o): return t.tup([I.getattr_(o, x) for x in ('address', 'pubKey', 'privKey', 'vcn', 'compressed', 'testnet')])
    ops = {'parts': lambda I, o, a: parts(I, o), 'compressed': lambda I, o, a: parts(I, m(I, o, 'compress')), 'decompressed': lambda I, o, a: parts(I, m(I, o, 'decompress')),
           'public key': lambda I, o, a: m(I, o, 'publicKey'), 'text': lambda I, o, a: I.call(I.member('spec.hd.text'), [o], {})}
    c.again('address of a public key', amake('pubKey'), ops, [k, vcn, net], gens=g, overrides=o, samples=300, where='nbc.wallet.address.Address')
    c.again('address of a private key', amake('privKey'), ops, [w, vcn, net], gens={'wif': valid_wif, 'vcn': g['vcn']}, overrides=o, pre=pre, samples=300, where='nbc.wallet.address.Address')
    def wallet(I, key, vcn, net):
        return I.call(I.member('nbc.wallet.hdwallet.HDWallet'), [key, t.sym('chain', 'bytes', None, None, 32)], {'vcn': vcn, 'testnet': net})
    def hd(I, a): return I.call(I.getattr_(wallet(I, a[0], a[1], a[2]), 'address'), [], {})
    c.agree('wallet with private key', hd, S + 'wallet_secret', [sec, vcn, net], gens=g, overrides=o, samples=n, where='nbc.wallet.hdwallet.HDWallet.address')
    def hdv(I, a): return I.call(I.getattr_(wallet(I, a[0], a[1], a[2]), 'address'), [a[3]], {})
    c.agree('wallet with private key, any version byte', hdv, S + 'wallet_secret_version', [sec, vcn, net, ver], gens=g, overrides=o, samples=n, where='nbc.wallet.hdwallet.HDWallet.address')
    def hdp(I, a):
        p = I.call(I.member('nbc.wallet.hdwallet.point_decompress'), [I.getattr_(I.member('nbc.util.ecdsa.SECP256k1'), 'curve'), a[0]], {})
        return I.call(I.getattr_(wallet(I, p, a[1], a[2]), 'address'), [], {})
    def pre33(I, a): return t.eq(t.length(a[0]), K(33))
    c.agree('wallet without private key', hdp, S + 'wallet_public', [k, vcn, net], gens=g, overrides=o, pre=pre33, samples=n, where='nbc.wallet.hdwallet.HDWallet.address')
    def get(I, a): return I.call(I.member('nbc.util.piecewise.get_address'), [a[0], a[1]], {'vcn': a[2], 'version': a[3]})
    c.agree('piecewise address', get, S + 'joint', [k, w, vcn, ver], gens=gj, overrides=o, samples=n, where='nbc.util.piecewise.get_address')
    def get0(I, a): return I.call(I.member('nbc.util.piecewise.get_address'), [a[0], a[1]], {})
    c.agree('piecewise address, defaults', get0, lambda I, a: I.call(I.member(S + 'joint'), a + [K(0), K(b'\0')], {}), [k, w], gens=gj, overrides=o, samples=n, where='nbc.util.piecewise.get_address')
    return c

def valid_wif(v, q):
    s = keys.secret(v)
    return keys.word(v, b'\x80' + s + (b'\1' if v.rng.random() < .5 else b'')) if v.rng.random() < .9 else keys.gen_wif(v, q)
