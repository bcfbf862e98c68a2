"""The block function of AES, standing for itself in everything built on it (decided once, in C28)."""
import hashlib
from . import terms as t, models, evalt
from .terms import mk, K

def enc(k, x):
    if x.op == 'aesdec' and x.a[0] is k: return x.a[1]
    return mk('aesenc', (k, x), 'bytes', None, None, 16)
def dec(k, x):
    if x.op == 'aesenc' and x.a[0] is k: return x.a[1]
    return mk('aesdec', (k, x), 'bytes', None, None, 16)
models.APPS['aesenc'] = enc
models.APPS['aesdec'] = dec

# under a valuation: some keyed permutation
def _f(k, r, b): return hashlib.md5(b'%d' % r + k + b).digest()[:8]
def _x(a, b): return bytes(x ^ y for x, y in zip(a, b))
def perm(k, x):
    if len(x) != 16: raise evalt.Fail('block')
    a, b = x[:8], x[8:]
    for r in range(4): a, b = b, _x(a, _f(k, r, b))
    return a + b
def unperm(k, x):
    if len(x) != 16: raise evalt.Fail('block')
    a, b = x[:8], x[8:]
    for r in (3, 2, 1, 0): a, b = _x(b, _f(k, r, a)), a
    return a + b
evalt.simple('aesenc', perm)
evalt.simple('aesdec', unperm)

AES = 'nbc.util.pyaes.aes.AES.'
def _init(I, f, a, kw):
    key = a[1]
    n = t.length(key)
    I.raise_if(t.not_(t.any_([t.eq(n, K(s)) for s in (16, 24, 32)])), 'ValueError')
    o = I.simpv(a[0])
    I.put(o.a[0], '$key', key)
    return t.NONE
def _block(op):
    def f(I, fn, a, kw):
        k = I.get(I.simpv(a[0]).a[0], '$key')
        b = models.to_bytes(I, [a[1]], {})
        I.raise_if(t.not_(t.eq(t.length(b), K(16))), 'ValueError')
        r = t.lift(op, (k, b))
        return I.new_list([t.byte(r, K(i)) for i in range(16)])
    return f
OVER = {AES + '__init__': _init, AES + 'encrypt': _block(enc), AES + 'decrypt': _block(dec)}
