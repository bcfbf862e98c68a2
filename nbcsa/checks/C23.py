from .. import terms as t, crypto, models
from ..terms import K
from ..check import Check
from ..crypto import gmul
from . import keys
from .C21 import CURVES, S as SIG
from .C31 import OVER
from .C32 import NAMES
U = 'nbc.util.ecdsa.util.'; SK = 'nbc.util.ecdsa.keys.SigningKey'; S = 'spec.draw.'
N = keys.N
def call(I, f, *a): return I.call(I.member(f), list(a), {})
def meth(I, o, f, *a, **kw): return I.call(I.getattr_(o, f), list(a), kw)
def source(I): return call(I, S + 'Source')
def drawn(I, order, src):
    """summary of randrange: the next number of this source below this order"""
    n = models.counter(I, 'draw')
    return t.lift(lambda n, o, s: t.mk('draw', (n, o, s), 'int', 1, (t.cv(o) - 1) if t.isc(o) else None), (n, order, src))
def draw(I, f, a, kw):
    order = a[0]; src = a[1] if len(a) > 1 else kw.get('entropy', t.NONE)
    def name(v):
        if v is t.NONE: return K('system')
        c = I.class_of(v)
        if c is not None and c.name == 'Source': return K('source of the caller')
        if v.op == 'ref' and v is I.simpv(I.member('os.urandom')): return K('system')
        return K('another source')
    return drawn(I, order, I.bycase(src, name))
O = dict(OVER); O[U + 'randrange'] = draw

def build():
    c = Check('C23', 'randrange denotes the rejection loop over the system generator, or over the one of the caller, and every function that makes a key, a share or a nonce denotes its reference applied to draws from it; '
                     'no other source appears in the value graphs of what they return.')
    m = 60
    # the loop itself, as a fixed point
    def rr(I, a): return call(I, U + 'randrange', a[0])
    orders = [2, 17, 255, 256, 257, 65536, 16 ** 5 - 3] + [CURVES[n][2] for n in CURVES]
    for o in orders:
        c.agree('draw below %d' % o if o < 10 ** 6 else 'draw below an order of %d bits' % o.bit_length() + (' (%d)' % (o % 1000)), U + 'randrange', S + 'draw_system', [K(o)], samples=m)
        def mine(I, a): return call(I, U + 'randrange', a[0], source(I))
        c.agree('draw below %d from the generator of the caller' % (o if o < 10 ** 6 else o % 10 ** 6), mine, lambda I, a: call(I, S + 'draw', a[0], source(I)), [K(o)], samples=m, where=U + 'randrange')
    def mine2(I, a): return I.call(I.member(U + 'randrange'), [a[0]], {'entropy': source(I)})
    od = t.sym('order', 'int')
    go = {'order': lambda v, q: v.rng.choice((-1, 0, 1, 2, 3, 5, 17, 255, 256, 257, 300, 4000, 65535, 65536, 60000, N, v.rng.getrandbits(8), v.rng.getrandbits(16), v.rng.getrandbits(64), v.rng.getrandbits(128)))}
    c.agree('draw below any order', U + 'randrange', S + 'draw_system', [od], gens=go, samples=4 * m)
    c.agree('draw below any order from the generator of the caller', mine2, lambda I, a: call(I, S + 'draw', a[0], source(I)), [od], gens=go, samples=4 * m, where=U + 'randrange')
    def two(I, a, f): return t.tup([f(I, a[0]), f(I, a[0])])
    c.agree('two draws', lambda I, a: two(I, a, lambda I, o: call(I, U + 'randrange', o)), lambda I, a: two(I, a, lambda I, o: call(I, S + 'draw_system', o)), [K(N)], samples=m, where=U + 'randrange')
    # keys
    sysd = lambda I, o: drawn(I, K(o), K('system'))
    own = lambda I, o: drawn(I, K(o), K('source of the caller'))
    n = 300
    for cn, nm in NAMES.items():
        def cu(I, cn=cn): return I.member('nbc.util.ecdsa.curves.' + cn)
        def gen(I, a, cu=cu):
            k = I.getattr_(I.member(SK), 'generate')
            x = I.call(k, [cu(I)], {}); y = I.call(k, [cu(I)], {'entropy': source(I)}); z = I.call(k, [cu(I), source(I)], {})
            return t.tup([I.getattr_(I.getattr_(v, 'privkey'), 'secret_multiplier') for v in (x, y, z)])
        def gen_spec(I, a, nm=nm):
            o = CURVES[nm][2]; out = [sysd(I, o), own(I, o), own(I, o)]
            p, aa, gg, nn = K(CURVES[nm][0]), K(CURVES[nm][1]), t.tup([K(CURVES[nm][3][0]), K(CURVES[nm][3][1])]), K(o)
            for d in out: call(I, SIG + 'times', p, aa, nn, d, gg)
            return t.tup(out)
        c.agree('key generated on ' + cn, gen, gen_spec, [], overrides=O, samples=n // 4, where=SK + '.generate')
    for comp in (True, False):
        def ag(I, a, comp=comp):
            k = I.getattr_(I.member('nbc.wallet.address.Address'), 'generate')
            return t.tup([I.getattr_(I.call(k, [], {'vcn': K(7), 'compressed': K(comp)}), 'privKey') for _ in '12'])
        def ag_spec(I, a, comp=comp):
            out = []
            for _ in '12':
                d = call(I, 'spec.keys.num32', sysd(I, N))
                w = call(I, 'spec.keys.wif_main', t.cat([d, K(b'\1')]) if comp else d)
                call(I, 'spec.keys.read_secret', w); out.append(w)
            return t.tup(out)
        c.agree('address generated, %s' % ('compressed' if comp else 'full'), ag, ag_spec, [], overrides=O, samples=n // 2, where='nbc.wallet.address.Address.generate')
    def ag0(I, a): return I.getattr_(I.call(I.getattr_(I.member('nbc.wallet.address.Address'), 'generate'), [K(7)], {}), 'privKey')
    def ag0_spec(I, a):
        w = call(I, 'spec.keys.wif_main', t.cat([call(I, 'spec.keys.num32', sysd(I, N)), K(b'\1')])); call(I, 'spec.keys.read_secret', w); return w
    c.agree('address generated', ag0, ag0_spec, [], overrides=O, samples=n // 2, where='nbc.wallet.address.Address.generate')
    # nonces
    d = t.sym('d', 'int', 1, N - 1); data = t.sym('data', 'bytes'); z = t.sym('z', 'int', 0, N)
    g = {'d': lambda v, q: v.rng.choice((1, 2, N - 1, v.rng.randrange(1, N))), 'data': lambda v, q: keys.rnd(v, v.rng.choice((0, 1, 30))), 'z': lambda v, q: v.rng.choice((0, 1, N, v.rng.randrange(N)))}
    def k1(I): return I.member('nbc.util.ecdsa.SECP256k1')
    def sk(I, a): return I.call(I.getattr_(I.member(SK), 'from_secret_exponent'), [a, k1(I)], {'hashfunc': I.member(S + 'sha256')})
    G = (K(keys.P), K(0), t.tup([K(keys.G[0]), K(keys.G[1])]), K(N))
    def makes(I, d, z, k): return call(I, SIG + 'makes', *G, d, z, k)
    def own_key(I, d): call(I, SIG + 'times', G[0], G[1], G[3], d, G[2])
    def nums(I, a):
        s = sk(I, a[0])
        return t.tup([meth(I, s, 'sign_number', a[1]), meth(I, s, 'sign_number', a[1]), meth(I, s, 'sign_number', a[1], source(I)), meth(I, s, 'sign_number', a[1], entropy=source(I))])
    def nums_spec(I, a):
        own_key(I, a[0])
        return t.tup([makes(I, a[0], a[1], sysd(I, N)), makes(I, a[0], a[1], sysd(I, N)), makes(I, a[0], a[1], own(I, N)), makes(I, a[0], a[1], own(I, N))])
    c.agree('nonce of a number signed', nums, nums_spec, [d, z], gens=g, overrides=O, samples=n, where=SK + '.sign_number')
    kk = t.sym('k', 'int', 1, N - 1); g['k'] = g['d']
    def given(I, a):
        s = sk(I, a[0])
        return t.tup([meth(I, s, 'sign_number', a[1], k=a[2]), meth(I, s, 'sign_number', a[1]), meth(I, s, 'sign_number', a[1], source(I), a[2]), meth(I, s, 'sign_number', a[1], entropy=source(I))])
    def given_spec(I, a):
        own_key(I, a[0])
        return t.tup([makes(I, a[0], a[1], a[2]), makes(I, a[0], a[1], sysd(I, N)), makes(I, a[0], a[1], a[2]), makes(I, a[0], a[1], own(I, N))])
    c.agree('nonces after a given one', given, given_spec, [d, z, kk], gens=g, overrides=O, samples=n, where=SK + '.sign_number')
    def raw(I, rs):
        r, s = I.unpack(rs, 2); return t.cat([call(I, 'spec.keys.num32', r), call(I, 'spec.keys.num32', s)])
    dg = t.sym('digest', 'bytes', None, None, 32); g['digest'] = lambda v, q: v.rng.choice((bytes(32), b'\xff' * 32, keys.rnd(v, 32)))
    def dig(I, a):
        s = sk(I, a[0]); return t.tup([meth(I, s, 'sign_digest', a[1]), meth(I, s, 'sign_digest', a[1], source(I)), meth(I, s, 'sign_digest', a[1], entropy=source(I))])
    def dig_spec(I, a):
        own_key(I, a[0]); zz = call(I, 'spec.keys.number', a[1])
        return t.tup([raw(I, makes(I, a[0], zz, k)) for k in (sysd(I, N), own(I, N), own(I, N))])
    c.agree('nonce of a digest signed', dig, dig_spec, [d, dg], gens=g, overrides=O, samples=n, where=SK + '.sign_digest')
    def msg(I, a):
        s = sk(I, a[0]); return t.tup([meth(I, s, 'sign', a[1]), meth(I, s, 'sign', a[1], source(I)), meth(I, s, 'sign', a[1], entropy=source(I))])
    def msg_spec(I, a):
        own_key(I, a[0]); zz = call(I, 'spec.keys.number', call(I, S + 'sha', a[1]))
        return t.tup([raw(I, makes(I, a[0], zz, k)) for k in (sysd(I, N), own(I, N), own(I, N))])
    c.agree('nonce of data signed', msg, msg_spec, [d, data], gens=g, overrides=O, samples=n, where=SK + '.sign')
    key = t.sym('key32', 'bytes', None, None, 32); g['key32'] = lambda v, q: v.rng.choice((1, 2, N - 1, v.rng.randrange(1, N))).to_bytes(32, 'big')
    o2 = dict(O)
    def shown(I, f, a, kw): return I.call(I.member('nbc.util.ecdsa.ecdsa.Signature'), [a[2], a[2]], {})
    o2['nbc.util.ecdsa.ecdsa.Private_key.sign'] = shown
    def many(I, a): return t.tup([call(I, 'nbc.util.ecc.sign', a[0], a[1]) for _ in '123'])
    def many_spec(I, a):
        out = []
        for _ in '123':
            k = sysd(I, N); out.append(call(I, 'spec.der.signature', k, k))
        return t.tup(out)
    c.agree('nonces of three signatures', many, many_spec, [data, K((12345).to_bytes(32, 'big'))], gens=g, overrides=o2, samples=n, where='nbc.util.ecc.sign')
    # shares
    wif = t.sym('wif', 'bytes')
    from .C27 import valid_wif
    gw = {'wif': valid_wif}
    for k in (1, 2, 3, 4):
        def sh(I, a, k=k):
            q = I.simpv(I.seq_of(call(I, 'nbc.util.piecewise.split_private_key', a[0], K(k))))
            return t.tup([t.seqget(q, K(i)) if q.op != 'tup' else q.a[i] for i in range(k - 1)] + [t.length(q)])
        def sh_spec(I, a, k=k):
            call(I, 'spec.keys.secret_main', a[0])
            return t.tup([call(I, 'spec.keys.wif_main', call(I, 'spec.keys.num32', sysd(I, N))) for _ in range(k - 1)] + [K(k)])
        c.agree('shares drawn for %d' % k, sh, sh_spec, [wif], gens=gw, overrides=O, samples=n, where='nbc.util.piecewise.split_private_key')
    return c
