from .. import terms as t, crypto
from ..terms import K
from ..check import Check
from . import keys

def gen_data(v, q):
    r = v.rng
    d = bytes(r.getrandbits(8) for _ in range(r.choice((0, 1, 2, 3, 5, 8, 20, 25, 33, 38, 60))))
    c = r.random()
    if c < .3: d = bytes(r.randrange(1, 5)) + d
    if c < .1: d = bytes(r.randrange(0, 8))
    if r.random() < .05: d = bytes(r.choice((16, 31, 32, 33, 60, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000))) + d[:8]
    elif r.random() < .02: d = bytes(r.getrandbits(8) for _ in range(r.choice((64, 65, 127, 128, 129, 130, 255, 256, 257))))
    return d
def gen_word(v, q):
    r = v.rng; c = r.random()
    if c < .5: return crypto.n58e(gen_data(v, q))
    w = bytes(r.choice(crypto.ALPHABET) for _ in range(r.choice((0, 1, 2, 3, 10, 30))))
    if c < .7: w = b'1' * r.randrange(0, 4) + w
    if r.random() < .05: w = b'1' * r.choice((16, 31, 32, 33, 60, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000)) + w[:8]
    if c < .8:
        i = r.randrange(len(w) + 1); w = w[:i] + bytes([r.choice(b'0OIl+/ \n\x80\xff')]) + w[i:]
    return w
def text(f): return lambda v, q: f(v, q).decode('latin-1')

def build():
    c = Check('C35', 'Base58 encoding and decoding denote the same functions as the reference (loops compared as fixed points under valuations), refusal of foreign characters included; '
                     'decoding an encoding has the value that was encoded.')
    d = t.sym('data', 'bytes'); w = t.sym('word', 'bytes'); s = t.sym('text', 'str'); n = t.sym('n', 'int', 0, None); one = t.sym('one', 'bool')
    g = {'data': gen_data, 'word': gen_word, 'text': text(gen_word), 'n': lambda v, q: v.rng.choice((0, 1, 57, 58, 59, 58 * 58 - 1, 58 * 58, v.rng.getrandbits(200), v.rng.getrandbits(20)))}
    S = 'spec.base58.'; C = 'nbc.util.base58.'
    m = 2000
    c.agree('encode', C + 'b58encode', S + 'encode', [d], gens=g, samples=m)
    c.agree('encode text', C + 'b58encode', S + 'encode_text', [s], gens=g, samples=m)
    c.agree('decode', C + 'b58decode', S + 'decode', [w], gens=g, samples=m)
    c.agree('decode text', C + 'b58decode', S + 'decode_text', [s], gens=g, samples=m)
    c.agree('encode a number', C + 'b58encode_int', S + 'encode_number', [n], gens=g, samples=m)
    c.agree('encode a number or nothing', C + 'b58encode_int', S + 'encode_number0', [n, one], gens=g, samples=m)
    c.agree('decode a number', C + 'b58decode_int', S + 'value', [w], gens=g, samples=m)
    def back(I, a): return I.call(I.member(C + 'b58decode'), [I.call(I.member(C + 'b58encode'), a, {})], {})
    c.agree('decode what was encoded', back, lambda I, a: a[0], [d], gens=g, samples=m, where=C + 'b58decode')
    def again(I, a): return I.call(I.member(C + 'b58encode'), [I.call(I.member(C + 'b58decode'), a, {})], {})
    def only(I, a):
        I.call(I.member(S + 'decode'), a, {})
        return a[0]
    c.agree('encode what was decoded', again, only, [w], gens=g, samples=m, where=C + 'b58encode')
    return c
