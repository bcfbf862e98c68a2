from .. import terms as t, crypto, models
from ..terms import K, mk
from ..check import Check
from . import keys
from .C27 import valid_wif

def draw(I, f, args, kw):
    """summary of the random number in [1, order - 1] (C23)"""
    n = models.counter(I, 'draw')
    return t.lift(lambda n, o: mk('draw', (n, o), 'int', 1, (t.cv(o) - 1) if t.isc(o) else None), (n, args[0]))
OVER = dict(crypto.ALL); OVER['nbc.util.ecdsa.util.randrange'] = draw
R = 'nbc.util.piecewise.'; S = 'spec.shares.'
def call(I, f, *a): return I.call(I.member(f), list(a), {})
def new_list(I, ws): return I.new_list(ws)

def build():
    c = Check('C31', 'Combining shares, the contents of partial key-sets and QR codes denote the same functions as the reference; the shares of a key combine to it; the contents of partial key-sets are what combining expects.')
    m = 1000
    for k in (1, 2, 3, 5):
        ws = [t.sym('wif%d' % i, 'bytes') for i in range(k)]
        g = dict(('wif%d' % i, valid_wif) for i in range(k))
        c.agree('combine %d' % k, lambda I, a: call(I, R + 'combine_private_keys', new_list(I, a)), lambda I, a: call(I, S + 'combine', new_list(I, a)), ws, gens=g, overrides=OVER, samples=m, where=R + 'combine_private_keys')
    w = t.sym('wif', 'bytes')
    for k in (1, 2, 3, 4):
        def again(I, a, k=k):
            return call(I, S + 'rejoin', call(I, R + 'split_private_key', a[0], K(k)), I.member(R + 'combine_private_keys'))
        c.agree('split into %d' % k, again, lambda I, a, k=k: call(I, S + 'rejoined', a[0], K(k)), [w], gens={'wif': valid_wif}, overrides=OVER, samples=m, where=R + 'split_private_key')
    for r, n in ((1, 1), (1, 2), (2, 2), (2, 3), (3, 3), (3, 2), (2, 4)):
        c.agree('partial key-sets %d of %d' % (r, n), lambda I, a, r=r, n=n: call(I, S + 'partial_view', call(I, R + 'partial_split_private_key', a[0], K(r), K(n)), K(n)),
                lambda I, a, r=r, n=n: call(I, S + 'partial_expected', a[0], K(r), K(n)), [w], gens={'wif': valid_wif}, overrides=OVER, samples=m, where=R + 'partial_split_private_key')
    for k in (1, 2, 3):
        ws = [t.sym('part%d' % i, 'bytes') for i in range(k)]
        g = dict(('part%d' % i, gen_part(i, k)) for i in range(k))
        for ign in (False, True):
            c.agree('partial combine %d%s' % (k, ' leniently' * ign), lambda I, a, ign=ign: call(I, R + 'partial_combine_private_keys', new_list(I, a), K(ign)), lambda I, a, ign=ign: call(I, S + 'recover', new_list(I, a), K(ign)),
                    ws, gens=g, overrides=OVER, samples=m, where=R + 'partial_combine_private_keys')
        c.agree('QR text of %d' % k, lambda I, a: call(I, R + 'partial_split_qr_encode', new_list(I, a)), lambda I, a: call(I, S + 'qr_bytes', new_list(I, a)), ws, gens=g, overrides=OVER, samples=m, where=R + 'partial_split_qr_encode')
    for k, extra in ((0, 0), (1, 0), (2, 0), (3, 0), (1, 7)):
        n = 9 + 32 * k + extra
        q = t.sym('text%d' % n, 'bytes', None, None, -(-n * 8 // 5))
        c.agree('QR contents of %d%s' % (k, '+' * (extra > 0)), lambda I, a: call(I, R + 'partial_split_qr_decode', a[0]), lambda I, a: call(I, S + 'qr_words', a[0]), [q], gens={'text%d' % n: gen_qr(n)}, overrides=OVER, samples=m, where=R + 'partial_split_qr_decode')
    return c

def gen_qr(n):
    def f(v, _):
        import base64
        r = v.rng
        b = (b'\x84\x7c\x20' if r.random() < .8 else keys.rnd(v, 3)) + bytes([r.choice((0, 1, 2, 3, 4, r.randrange(256)))]) + keys.rnd(v, n - 4)
        w = base64.b32encode(b).strip(b'=')
        if r.random() < .1: w = w[:-1] + bytes([r.choice(b'018=\xff ')])
        return w
    return f

def gen_part(i, k):
    def f(v, _):
        r = v.rng; kk = getattr(v, 'parts', None)
        if i == 0 or kk is None:
            x = r.randrange(1, keys.N); key = x.to_bytes(32, 'big'); chk = v.digest('sha256', v.digest('sha256', key))[:4]
            if r.random() < .1: chk = keys.rnd(v, 4)
            ss = [r.randrange(1, keys.N) for _ in range(k - 1)]
            v.parts = kk = (k if r.random() < .7 else r.randrange(0, 5), chk, ss + [(x - sum(ss)) % keys.N])
        req, chk, ss = kk
        c = r.random(); idx = r.choice((3, 3, 3, i, 0)); sh = ss[i].to_bytes(32, 'big')
        if c < .05: req = (req + 1) % 256
        elif c < .1: chk = keys.rnd(v, 4)
        elif c < .15: sh = keys.rnd(v, r.choice((32, 31, 0, 33)))
        pl = b'\x10\x01' + bytes([idx, req]) + chk + sh
        if c > .97: pl = pl[:r.randrange(0, 9)]
        elif c > .94: pl = b'\x10\x02' + pl[2:]
        w = keys.word(v, pl)
        if c > .92 and c < .94: w = w[:-1] + b'1'
        return w
    return f
