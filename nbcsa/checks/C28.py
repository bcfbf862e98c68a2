from .. import terms as t, aes
from ..terms import K
from ..check import Check

P = 'nbc.util.pyaes.'
A = P + 'aes.'
S = 'spec.aes.'; M = 'spec.modes.'
def call(I, f, *a, **kw): return I.call(I.member(f), list(a), kw)
def meth(I, o, f, *a): return I.call(I.getattr_(o, f), list(a), {})
KEYS = {n: t.sym('key%d' % n, 'bytes', None, None, n) for n in (16, 24, 32)}
anykey = t.sym('anykey', 'bytes')
iv = t.sym('iv', 'bytes', None, None, 16); anyiv = t.sym('anyiv', 'bytes')
def msg(i, n): return t.sym('m%d_%d' % (i, n), 'bytes', None, None, n)
def calls(ns): return [msg(i, n) for i, n in enumerate(ns)]

def build():
    c = Check('C28', 'The block cipher denotes FIPS-197 as a value graph over the bytes of key and block (table look-ups composed, linear tables distributed over exclusive or); '
                     'every mode, applied to a sequence of calls, denotes the mode of SP 800-38A over the block function; padding and the feeders denote the padded stream for every way of cutting it.')
    block = t.sym('block', 'bytes', None, None, 16)
    for n, key in KEYS.items():
        def both(what):
            def f(I, a):
                o = call(I, A + 'AES', a[0])
                return meth(I, o, what, a[1])
            return f
        for what in ('encrypt', 'decrypt'):
            c.agree('%s one block, key of %d bytes' % (what, n), both(what), S + what, [key, block], samples=200, where=A + 'AES.' + what)
    def reuse(I, a):
        o = call(I, A + 'AES', a[0])
        return t.tup([meth(I, o, w, x) for w, x in zip(('encrypt', 'decrypt', 'encrypt'), a[1:])])
    b2 = t.sym('block2', 'bytes', None, None, 16)
    c.agree('one cipher used three times', reuse, lambda I, a: t.tup([call(I, S + w, a[0], x) for w, x in zip(('encrypt', 'decrypt', 'encrypt'), a[1:])]), [KEYS[16], block, b2, b2], samples=30, where=A + 'AES')
    O = aes.OVER
    def seq(I, o, what, ms): return t.tup([meth(I, o, what, m) for m in ms])
    def run(cls, what, k, mk_args):
        """make a mode, then call it once for every message"""
        def f(I, a):
            o = call(I, A + 'AESModeOfOperation' + cls, *mk_args(I, a))
            return seq(I, o, what, a[k:])
        return f
    def ref(fn, k, extra=()):
        def f(I, a): return t.tup(I.unpack(I.call(I.member(M + fn), list(a[:k]) + [t.tup(a[k:])] + list(extra), {}), len(a) - k))
        return f
    key = KEYS[16]
    def agree(name, code, spec, args, where, **kw):
        c.agree(name, code, spec, args, overrides=O, samples=kw.pop('samples', 100), where=P + 'blockfeeder.BlockFeeder.feed' if where == '@' else A + where, **kw)
    WHAT = ('encrypt', 'decrypt')
    for what in WHAT:
        e = what == 'encrypt'
        for kn, k in list(KEYS.items()) + [('any', anykey)]:
            agree('ECB %s, key %s' % (what, kn), run('ECB', what, 1, lambda I, a: [a[0]]), ref('ecb', 1, [K(e)]), [k] + calls((16, 16, 16)), 'AESModeOfOperationECB.' + what)
            agree('CBC %s, key %s' % (what, kn), run('CBC', what, 2, lambda I, a: a[:2]), ref('cbc_' + what, 2), [k, iv] + calls((16, 16, 16)), 'AESModeOfOperationCBC.' + what)
        agree('CBC %s without vector' % what, run('CBC', what, 1, lambda I, a: [a[0]]), lambda I, a, what=what: ref('cbc_' + what, 2)(I, [a[0], K(None)] + a[1:]), [key] + calls((16, 16, 16)), 'AESModeOfOperationCBC.' + what)
        free = [t.sym('free%d' % i, 'bytes') for i in range(2)]
        agree('ECB %s of anything' % what, run('ECB', what, 1, lambda I, a: [a[0]]), ref('ecb', 1, [K(e)]), [key] + free, 'AESModeOfOperationECB.' + what)
        agree('CBC %s of anything' % what, run('CBC', what, 2, lambda I, a: a[:2]), ref('cbc_' + what, 2), [key, anyiv] + free, 'AESModeOfOperationCBC.' + what)
        for size, ns in ((1, (5, 0, 20)), (1, (1,) * 36), (2, (2,) * 18), (4, (20, 4, 40)), (16, (16,) * 5), (12, (12, 36, 12)), (3, (3, 18, 6)), (8, (8, 24)), (16, (16, 32, 16)), (15, (30, 15)), (0, (3, 2))):
            agree('CFB %s, segments of %d' % (what, size), run('CFB', what, 2, lambda I, a, size=size: [a[0], a[1], K(size)]), ref_cfb(size or 1, e), [key, iv] + calls(ns), 'AESModeOfOperationCFB.' + what)
            agree('CFB %s without vector, segments of %d' % (what, size), run('CFB', what, 1, lambda I, a, size=size: [a[0], K(None), K(size)]),
                  lambda I, a, size=size, e=e: ref_cfb(size or 1, e)(I, [a[0], K(None)] + a[1:]), [key] + calls(ns[:2]), 'AESModeOfOperationCFB.' + what)
            agree('CFB %s, segments of %d, ragged' % (what, size), run('CFB', what, 2, lambda I, a, size=size: [a[0], a[1], K(size)]), ref_cfb(size or 1, e), [key, iv] + calls((size + 1,)), 'AESModeOfOperationCFB.' + what)
        agree('CFB %s, the usual segment' % what, run('CFB', what, 2, lambda I, a: a[:2]), ref_cfb(1, e), [anykey, iv] + calls((4, 15)), 'AESModeOfOperationCFB.' + what)
        for ns in ((0, 1, 15, 1, 16, 17), (16, 32), (40, 3), (7, 7, 7), (1,) * 50, (17, 1, 33, 0, 64), (2, 3, 5, 7, 11, 13, 17), (31, 1, 1)):
            agree('OFB %s, calls of %s' % (what, ns), run('OFB', what, 2, lambda I, a: a[:2]), ref('ofb', 2), [key, iv] + calls(ns), 'AESModeOfOperationOFB.' + what)
            agree('CTR %s, calls of %s' % (what, ns), run('CTR', what, 1, lambda I, a: a[:1]), lambda I, a: ref('ctr', 2)(I, [a[0], K(1)] + a[1:]), [key] + calls(ns), 'AESModeOfOperationCTR.' + what)
        agree('OFB %s, any key and vector' % what, run('OFB', what, 2, lambda I, a: a[:2]), ref('ofb', 2), [anykey, anyiv] + calls((20, 20)), 'AESModeOfOperationOFB.' + what)
        agree('OFB %s without vector' % what, run('OFB', what, 1, lambda I, a: a[:1]), lambda I, a: ref('ofb', 2)(I, [a[0], K(None)] + a[1:]), [anykey] + calls((20, 20)), 'AESModeOfOperationOFB.' + what)
        for first in (0, 255, 2 ** 64 - 2, 2 ** 128 - 1, 2 ** 128 - 3, 0xffffff00ffffff):
            agree('CTR %s from %x' % (what, first), run('CTR', what, 1, lambda I, a, first=first: [a[0], call(I, A + 'Counter', K(first))]),
                  lambda I, a, first=first: ref('ctr', 2)(I, [a[0], K(first)] + a[1:]), [anykey] + calls((20, 50)), 'AESModeOfOperationCTR.' + what)
    # the counter alone, from any value
    first = t.sym('first', 'int')
    def gen_first(v, q):
        r = v.rng
        return r.choice((r.getrandbits(128), (r.getrandbits(100) << 28) + 2 ** 28 - r.choice((1, 2, 3)), 2 ** 128 - r.choice((1, 2, 3)), r.getrandbits(8), 2 ** (8 * r.randrange(1, 17)) - 1, -r.getrandbits(20)))
    def steps(k):
        def f(I, a):
            o = call(I, A + 'Counter', a[0])
            for i in range(k): meth(I, o, 'increment')
            return I.seq_of(I.getattr_(o, 'value'))
        return f
    def nth(k): return lambda I, a: I.seq_of(I.new_list(I.seq_of(call(I, M + 'counter_block', t.mod(t.add(a[0], K(k)), K(2 ** 128))))))
    for k in (0, 1, 2, 3):
        c.agree('counter after %d steps' % k, steps(k), nth(k), [first], gens={'first': gen_first}, samples=600, where=A + 'Counter.increment')
    # padding
    U = P + 'util.'
    for n in range(0, 34):
        c.agree('padding of %d bytes' % n, U + 'append_PKCS7_padding', M + 'pad', [msg(0, n)], samples=50)
    data = t.sym('data', 'bytes')
    def gen_padded(v, q):
        r = v.rng; n = r.choice((0, 1, 5, 15, 16, 17, 31, 32, 48))
        d = bytes(r.getrandbits(8) for _ in range(n)); p = 16 - n % 16
        d = d + bytes([p]) * p; x = r.random()
        if x < .2:
            i = r.randrange(max(0, len(d) - 17), len(d)); d = d[:i] + bytes([r.choice((p, 0, 17, 255, 1, 16, 2))]) + d[i + 1:]
        if x > .9: d = d[:-1]
        if x > .95: d = b''
        return d
    c.agree('padding of anything', U + 'append_PKCS7_padding', M + 'pad', [data], samples=600)
    c.agree('removing the padding', U + 'strip_PKCS7_padding', M + 'unpad', [data], gens={'data': gen_padded}, samples=3000)
    for n in range(0, 33):
        c.agree('removing the padding of %d bytes' % n, lambda I, a: call(I, U + 'strip_PKCS7_padding', call(I, U + 'append_PKCS7_padding', a[0])), lambda I, a: a[0], [msg(0, n)], samples=50, where=U + 'strip_PKCS7_padding')
    # the feeders: every way of cutting a stream gives what the whole stream gives
    F = P + 'blockfeeder.'
    def mode(I, m, k, v):
        if m == 'ECB': return call(I, A + 'AESModeOfOperationECB', k)
        if m in ('CBC', 'OFB'): return call(I, A + 'AESModeOfOperation' + m, k, v)
        if m == 'CTR': return call(I, A + 'AESModeOfOperationCTR', k)
        return call(I, A + 'AESModeOfOperationCFB', k, v, K(m))
    def feed(I, cls, m, k, v, parts, end):
        f = call(I, F + cls, mode(I, m, k, v))
        out = [meth(I, f, 'feed', p) for p in parts] + [meth(I, f, 'feed', *end)]
        return f, call(I, M + 'joined', t.tup(out))
    CUTS = [(), (1,), (5, 0, 7), (15, 1), (16,), (16, 1), (17, 16), (32,), (33, 15), (1,) * 18, (20, 30, 10), (31, 17)]
    ENDS = {'nothing': [], 'None': [K(None)], 'an empty string': [K(b'')]}
    for m in ('ECB', 'CBC', 'OFB', 'CTR', 1, 8, 16, 5):
        nm = m if isinstance(m, str) else 'CFB %d' % m
        for ci, cut in enumerate(CUTS):
            cut = tuple(x for x in cut if x)
            ps = calls(cut)
            end = list(ENDS.values())[ci % 3]
            def enc_code(I, a, m=m, end=end): return feed(I, 'Encrypter', m, a[0], a[1], a[2:], end)[1]
            def enc_ref(I, a, m=m): return call(I, M + 'stream_encrypt', K(m), a[0], a[1], t.cat(a[2:], 'bytes'))
            agree('feed %s, encrypting %s' % (nm, cut), enc_code, enc_ref, [key, iv] + ps, '@', samples=50)
            def dec_code(I, a, m=m, end=end): return feed(I, 'Decrypter', m, a[0], a[1], a[2:], end)[1]
            def dec_ref(I, a, m=m): return call(I, M + 'stream_decrypt', K(m), a[0], a[1], t.cat(a[2:], 'bytes'))
            if m not in ('ECB', 'CBC') or sum(cut) % 16 or not cut: agree('feed %s, decrypting %s' % (nm, cut), dec_code, dec_ref, [key, iv] + ps, '@', samples=50)
            def back(I, a, m=m, end=end, other=CUTS[(ci * 5 + 3) % len(CUTS)]):
                w = feed(I, 'Encrypter', m, a[0], a[1], a[2:], [])[1]
                parts = []; at = 0
                for n in other:
                    if n: parts.append(t.slice_(w, K(at), K(at + n))); at += n
                parts.append(t.slice_(w, K(at), None))
                parts = [p for p in parts if p is not K(b'')]
                return feed(I, 'Decrypter', m, a[0], a[1], parts, end)[1]
            agree('feed %s, decrypting what was encrypted from %s' % (nm, cut), back, lambda I, a: t.cat(a[2:], 'bytes'), [key, iv] + ps, '@', samples=50)
        def late(I, a, m=m):
            f, _ = feed(I, 'Encrypter', m, a[0], a[1], a[2:], [])
            return meth(I, f, 'feed', a[2])
        def never(I, a): return I.throw('ValueError')
        agree('feed %s after the end' % nm, late, never, [key, iv] + calls((3,)), '@', samples=20)
    for n in (16, 32, 48):
        for m in ('ECB', 'CBC'):
            for tail in (1, 2, 15, 16, 'wrong', 'zero', 'long'):
                # a padded text encrypted by the definition; the last octets before the padding are free
                k = {'wrong': 5, 'zero': 1, 'long': 1}.get(tail, tail)
                p = bytes([k]) * k if tail not in ('wrong', 'zero', 'long') else {'wrong': bytes([5, 5, 4, 5, 5]), 'zero': b'\0', 'long': b'\x11'}[tail]
                body = msg(0, n - k)
                def code(I, a, m=m, p=p):
                    w = call(I, M + 'blockwise', K(m), a[0], a[1], t.cat([a[2], K(p)]) if p else a[2])
                    return feed(I, 'Decrypter', m, a[0], a[1], [w], [])[1]
                def want(I, a, p=p): return call(I, M + 'unpad', t.cat([a[2], K(p)]))
                agree('feed %s, decrypting %d bytes with padding %s' % (m, n, tail), code, want, [key, iv, body], '@', samples=50)
    return c
def ref_cfb(size, e):
    def f(I, a): return t.tup(I.unpack(I.call(I.member(M + 'cfb'), [a[0], a[1], K(size), t.tup(a[2:]), K(e)], {}), len(a) - 2))
    return f
