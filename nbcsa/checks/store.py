"""Shared by the properties of stored wallets."""
from .. import terms as t, crypto, aes, models
from ..terms import K, B, mk
from . import keys, hd
from .hd import secret, chain, depth, fp, num, vcn, net
AD = 'nbc.wallet.address.Address'; HW = 'nbc.wallet.hdwallet.HDWallet'
S = 'spec.store.'
O = dict(crypto.ALL); O.update(aes.OVER)
def call(I, f, *a, **kw): return I.call(I.member(f), list(a), kw)
def meth(I, o, f, *a, **kw): return I.call(I.getattr_(o, f), list(a), kw)
# the form of an imported key is decided in C19: here a word stands for its key, or is refused
def of_wif(I, f, a, kw):
    w = I.simpv(a[0])
    I.raise_if(t.lift(lambda w: B(mk('badwif', (w,), 'bool')), (w,)), 'ValueError')
    return t.lift(lambda w: mk('ofwif', (w,), 'bytes', None, None, 32), (w,))
OW = dict(O); OW['nbc.util.key.privkey_from_wif'] = of_wif
WORDS = {51: t.sym('wif51', 'bytes', None, None, 51), 52: t.sym('wif52', 'bytes', None, None, 52)}
def gen_word(n):
    def f(v, q):
        k = keys.secret(v) if v.rng.random() < .3 else v.rng.randrange(1, keys.N).to_bytes(32, 'big')
        return keys.word(v, b'\x80' + k + (b'\1' if n == 52 else b''))
    return f
PASS = {n: t.sym('pass%d' % n, 'bytes', None, None, n) for n in (1, 5, 16, 17, 40)}
anypass = t.sym('pass', 'bytes')
GENS = dict(hd.GENS, wif51=gen_word(51), wif52=gen_word(52))
GENS['pass'] = lambda v, q: bytes(v.rng.getrandbits(8) or 1 for _ in range(v.rng.choice((0, 1, 2, 8, 15, 16, 17, 30))))
def address(I, wif, vcn, net): return call(I, AD, privKey=wif, vcn=vcn, testnet=net)
def watch(I, key, vcn, net): return call(I, AD, pubKey=key, vcn=vcn, testnet=net)
TREE = [chain, vcn, net, depth, fp, num]
def tree(I, k, a): return hd.build(I, k, chain=a[0], vcn=a[1], testnet=a[2], depth=a[3], parentfp=a[4], childnum=a[5])
def aview(I, a): return t.tup([I.getattr_(a, n) for n in ('pubKey', 'privKey', 'vcn', 'address', 'compressed', 'testnet')])
def through_json(I, cfg): return call(I, S + 'through_json', cfg)
