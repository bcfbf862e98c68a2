"""Shared by the wallet properties."""
from .. import terms as t, crypto
from ..terms import K
from . import keys
S = 'spec.hd.'
W = 'nbc.wallet.hdwallet.HDWallet'
secret = t.sym('secret', 'int', 1, keys.N - 1)
chain = t.sym('chain', 'bytes', None, None, 32)
index = t.sym('index', 'int')
depth = t.sym('depth', 'int', 0, 255)
fp = t.sym('parentfp', 'bytes', None, None, 4)
num = t.sym('childnum', 'int', 0, 2 ** 32 - 1)
vcn = t.sym('vcn', 'int')
net = t.sym('testnet', 'bool')
pub = t.sym('key', 'bytes', None, None, 33)
def gen_secret(v, q): return v.rng.choice((1, 2, 3, keys.N - 1, keys.N - 2, v.rng.randrange(1, keys.N), v.rng.randrange(1, keys.N), v.rng.getrandbits(100) + 1))
def gen_pub(v, q): return keys.small(keys.point(v)) if v.rng.random() < .85 else bytes([v.rng.choice((2, 3))]) + keys.rnd(v, 32)
GENS = {'secret': gen_secret, 'key': gen_pub,
        'index': lambda v, q: v.rng.choice((0, 1, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32 - 1, 2 ** 32, -1, v.rng.getrandbits(31), v.rng.getrandbits(32), v.rng.getrandbits(16))),
        'depth': lambda v, q: v.rng.choice((0, 0, 1, 2, 254, 255, v.rng.randrange(256))),
        'vcn': lambda v, q: v.rng.choice((0, 1, 65535, 65536, -1, v.rng.getrandbits(16)))}
def build(I, key, **kw): return I.call(I.member(W), [key, kw.pop('chain', chain)], kw)
def point(I, key): return I.call(I.member('nbc.wallet.hdwallet.point_decompress'), [I.getattr_(I.member('nbc.util.ecdsa.SECP256k1'), 'curve'), key], {})
def meth(I, o, name, *args, **kw): return I.call(I.getattr_(o, name), list(args), kw)
def view(I, w): return I.call(I.member(S + 'view'), [w], {})
