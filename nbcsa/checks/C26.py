from .. import terms as t, crypto
from ..terms import K
from ..check import Check
from . import keys, hd
from .hd import *

VERSIONS = [b'\x04\x88\xad\xe4', b'\x04\x88\xb2\x1e', b'\x04\x35\x83\x94', b'\x04\x35\x87\xcf']
def gen_word(v, q):
    r = v.rng
    ver = r.choice(VERSIONS) if r.random() < .9 else bytes([4, r.choice((0x88, 0x35)), r.getrandbits(8), r.getrandbits(8)])
    d = bytes([r.choice((0, 0, 1, 2, 255, r.getrandbits(8)))])
    key = b'\0' + r.choice((1, keys.N - 1, r.randrange(1, keys.N), r.randrange(1, keys.N), 0, keys.N)).to_bytes(32, 'big') if r.random() < .5 else hd.gen_pub(v, q)
    if r.random() < .6: key = (b'\0' + gen_secret(v, q).to_bytes(32, 'big')) if ver in VERSIONS[::2] else hd.gen_pub(v, q)
    if r.random() < .05: key = bytes([r.choice((0, 1, 2, 3, 4))]) + key[1:]
    body = ver + d + keys.rnd(v, 4) + keys.rnd(v, 4) + keys.rnd(v, 32) + key
    c = r.random()
    if c < .05: body = body[:-1]
    elif c < .1: body = body + b'\0'
    w = keys.word(v, body)
    if c > .95:
        i = r.randrange(len(w)); w = w[:i] + bytes([r.choice(b'23456789ABZabz')]) + w[i + 1:]
    if c > .9 and c < .93: w = w + b'0'
    return w

def build():
    c = Check('C26', 'Exporting and importing extended keys denote the same functions of all parts of a wallet as the reference layout; importing an exported key gives a wallet that says the same.')
    o = crypto.ALL; n = 1500
    word = t.sym('word', 'bytes'); private = t.sym('private', 'bool')
    g = dict(GENS, word=gen_word)
    def ws(I, a): return hd.build(I, a[0], chain=a[1], vcn=a[2], testnet=a[3], depth=a[4], parentfp=a[5], childnum=a[6])
    def wp(I, a): return hd.build(I, hd.point(I, a[0]), chain=a[1], vcn=a[2], testnet=a[3], depth=a[4], parentfp=a[5], childnum=a[6])
    tail = [chain, vcn, net, depth, fp, num]
    c.agree('export with private key', lambda I, a: meth(I, ws(I, a), 'to_extended_key', a[7]), S + 'export_secret', [secret] + tail + [private], gens=g, overrides=o, samples=n, where=W + '.to_extended_key')
    c.agree('export without private key', lambda I, a: meth(I, wp(I, a), 'to_extended_key', a[7]), S + 'export_public', [pub] + tail + [private], gens=g, overrides=o, samples=n, where=W + '.to_extended_key')
    c.agree('export on no request', lambda I, a: meth(I, ws(I, a), 'to_extended_key'), lambda I, a: I.call(I.member(S + 'export_secret'), a + [K(False)], {}), [secret] + tail, gens=g, overrides=o, samples=n, where=W + '.to_extended_key')
    c.agree('import', lambda I, a: view(I, I.call(I.getattr_(I.member(W), 'from_extended_key'), [a[0]], {'vcn': a[1]})), S + 'read', [word, vcn], gens=g, overrides=o, samples=4000, modes=(0, 0, 0, 1, 2), where=W + '.from_extended_key')
    ops = {'exported': lambda I, w, a: meth(I, w, 'to_extended_key', a[7]), 'child exported': lambda I, w, a: meth(I, meth(I, w, 'child', a[8]), 'to_extended_key', a[7])}
    c.again('wallet with private key', ws, ops, [secret] + tail + [private, index], gens=g, overrides=o, samples=300, where=W + '.to_extended_key')
    c.again('wallet without private key', wp, ops, [pub] + tail + [private, index], gens=g, overrides=o, samples=300, where=W + '.to_extended_key')
    def back(priv, mk_):
        def f(I, a):
            w = meth(I, mk_(I, a), 'to_extended_key', K(priv))
            return view(I, I.call(I.getattr_(I.member(W), 'from_extended_key'), [w], {'vcn': a[2]}))
        return f
    def same(priv, mk_):
        def f(I, a):
            v = I.unpack(view(I, mk_(I, a)), 8)
            if not priv: v[0] = K(None)
            return t.tup(v)
        return f
    c.agree('import of an exported private key', back(True, ws), same(True, ws), [secret] + tail, gens=g, overrides=o, samples=n, where=W + '.from_extended_key')
    c.agree('import of an exported public key', back(False, ws), same(False, ws), [secret] + tail, gens=g, overrides=o, samples=n, where=W + '.from_extended_key')
    c.agree('import of the exported key of a wallet without private key', back(False, wp), same(False, wp), [pub] + tail, gens=g, overrides=o, samples=n, where=W + '.from_extended_key')
    return c
