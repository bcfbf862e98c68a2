from .. import terms as t, aes, crypto
from ..terms import K
from ..check import Check
from . import keys, hd
from .store import *

def build():
    c = Check('C16', 'The dumped configuration, as a function of wallet and passphrase, is the reference one: the private key occurs in it only under the block function in CBC when a passphrase is given; '
                     'loading denotes decryption followed by the check of the length prefix, refusals included.')
    n = 200
    def dump_ad(I, a): return meth(I, address(I, a[0], a[1], a[2]), 'dump_to_cfg', *a[3:])
    def dump_ad_ref(I, a):
        address(I, a[0], a[1], a[2])
        return call(I, S + 'address_secret', a[0], a[1], a[2], a[3] if len(a) > 3 else K(b''))
    def dump_hd(I, a): return meth(I, tree(I, a[0], a[1:7]), 'dump_to_cfg', *a[7:])
    def dump_hd_ref(I, a):
        tree(I, a[0], a[1:7])
        return call(I, S + 'hd_secret', *(a if len(a) > 7 else a + [K(b'')]))
    passes = [(str(k), v) for k, v in PASS.items()] + [('any', anypass), ('empty', K(b'')), ('text', t.sym('word', 'str')), ('empty text', K('')), ('none', None)]
    for pn, p in passes:
        ps = [] if p is None else [p]
        for wn, w in WORDS.items():
            c.agree('stored address, word of %d, passphrase %s' % (wn, pn), dump_ad, dump_ad_ref, [w, vcn, net] + ps, gens=GENS, overrides=OW, samples=n, where=AD + '.dump_to_cfg')
        c.agree('stored wallet, passphrase %s' % pn, dump_hd, dump_hd_ref, [secret] + TREE + ps, gens=GENS, overrides=O, samples=n, where=HW + '.dump_to_cfg')
    ops = {'with a passphrase': lambda I, w, a: meth(I, w, 'dump_to_cfg', a[0]), 'without': lambda I, w, a: meth(I, w, 'dump_to_cfg')}
    for wn, w in WORDS.items():
        c.again('address of a word of %d' % wn, lambda I, a: address(I, *a[1:4]), ops, [PASS[5], w, vcn, net], gens=GENS, overrides=OW, samples=n, where=AD + '.dump_to_cfg')
    c.again('wallet', lambda I, a: tree(I, a[1], a[2:]), ops, [PASS[5], secret] + TREE, gens=GENS, overrides=O, samples=n, where=HW + '.dump_to_cfg')
    # loading
    def cfg(I, kind, raw, flag, a):
        items = {'type': kind, 'vcn': a[0], 'testnet': a[1], 'prvkey': I.call(I.getattr_(raw, 'hex'), [], {}), 'pubkey': K(None)}
        if flag is not None: items['encrypted'] = K(flag)
        if len(a) > 2: items.update(chain=I.call(I.getattr_(a[2], 'hex'), [], {}), depth=a[3], parentfp=I.call(I.getattr_(a[4], 'hex'), [], {}), childnum=a[5])
        return I.new_dict([(K(k), K(v) if isinstance(v, str) else v) for k, v in items.items()])
    def load_ad(flag):
        def f(I, a):
            w = call(I, AD + '.load_from_cfg', cfg(I, 'default', a[0], flag, a[1:3]), *a[3:])
            return aview(I, w)
        return f
    def load_ad_ref(flag):
        def f(I, a):
            raw = call(I, S + 'opened', a[0], a[3]) if flag else a[0]
            return aview(I, address(I, call(I, S + 'inner', raw), a[1], a[2]))
        return f
    def load_hd(flag):
        def f(I, a): return hd.view(I, call(I, HW + '.load_from_cfg', cfg(I, 'HD', a[0], flag, [a[2], a[3], a[1], a[4], a[5], a[6]]), *a[7:]))
        return f
    def load_hd_ref(flag):
        def f(I, a):
            raw = call(I, S + 'opened', a[0], a[7]) if flag else a[0]
            k = call(I, 'spec.keys.number', call(I, S + 'inner', raw))
            return hd.view(I, tree(I, k, a[1:7]))
        return f
    def gen_raw(n, kind, flag):
        def g(v, q):
            r = v.rng
            if kind == 'default': w = GENS['wif%d' % r.choice((51, 52))](v, q)
            else: w = hd.gen_secret(v, q).to_bytes(32, 'big')
            if r.random() < .2: w = w[:-1]
            d = b'%02x' % len(w) + w
            d = d.ljust(n, b'\0')[:n]
            x = r.random()
            if x < .1: d = bytes([r.choice(b'0123456789abcdefABF +-_')]) + d[1:]
            elif x < .2: d = d[:1] + bytes([r.choice(b'0123456789abcdefABCx _')]) + d[2:]
            elif x < .3: d = b'%02x' % max(0, min(255, n - 2 - r.choice((0, 1, 14, 15, 16, 17, -1, -2, 30)))) + d[2:]
            elif x < .35: d = b'\xff\xff' + d[2:]
            v.plain = d[:n]
            if flag and len(d) % 16 == 0:
                p = b'some words'; k = p.ljust(16, b'\0'); last = bytes(16); out = b''
                for i in range(0, len(d), 16):
                    last = aes.perm(k, bytes(x ^ y for x, y in zip(d[i:i + 16], last))); out += last
                d = out
            return d[:n]
        return g
    given = {'bytes': K(b'some words'), 'text': K('some words'), 'another': K(b'Some words'), 'a space more': K(b'some words '), 'a line more': K(b'\tsome words\n')}
    m = 500
    for flag in (True, False, None):
        for n in (0, 1, 2, 15, 16, 17, 32, 48, 53, 54, 64, 80, 96, 240, 256, 272) if flag else (1, 2, 3, 33, 34, 35, 48, 49, 52, 53, 54, 55, 60, 64, 69, 70, 80):
            raw = t.sym('raw%d' % n, 'bytes', None, None, n)
            for pn, p in given.items() if flag else (('unused', K(b'x')),):
                if pn not in ('bytes', 'text', 'unused') and n not in (48, 64): continue
                g = dict(GENS); g['raw%d' % n] = gen_raw(n, 'default', flag)
                c.agree('load an address, %d bytes, encrypted %s, passphrase %s' % (n, flag, pn), load_ad(flag), load_ad_ref(flag), [raw, vcn, net, p], gens=g, overrides=O, samples=m if n in (53, 54, 64) else 150, where=AD + '.load_from_cfg')
                g = dict(GENS); g['raw%d' % n] = gen_raw(n, 'HD', flag)
                c.agree('load a wallet, %d bytes, encrypted %s, passphrase %s' % (n, flag, pn), load_hd(flag), load_hd_ref(flag), [raw] + TREE + [p], gens=g, overrides=O, samples=m if n in (34, 48) else 150, where=HW + '.load_from_cfg')
    return c
