from .. import terms as t
from ..terms import K
from ..check import Check
from ..compare import Obs
from . import wire

def hashed(name):
    def f(I, a):
        r = I.call(I.member('nbc.protocol.format.%s.parse' % name), [a[0]], {})
        n, o = I.unpack(r, 2)
        return t.tup([I.getattr_(o, 'hash'), I.getattr_(o, 'hash'), I.call(I.getattr_(o, 'binary'), [], {})])
    return f
def hashed_spec(name):
    return lambda I, a: wire.spec(I, 'hash_struct', name, a[0])

def build():
    c = Check('C01', 'Reading any bytes as a structure denotes the same function of the bytes as its reference layout (offset consumed, every field, refusals); '
                     'writing what was read denotes the canonical bytes of the layout; hashes are the double SHA-256 of the bytes the reference names.')
    d = t.sym('data', 'bytes')
    for s in wire.STRUCTS:
        g = {'data': wire.gen_fields(wire.W.STRUCTS[s])}
        c.agree('read ' + s, wire.parse_struct(s), wire.spec_struct(s), [d], overrides=wire.VARINT, spec_overrides=wire.VARINT, gens=g, where='nbc.protocol.format.%s.parse' % s)
        c.agree('write ' + s, wire.rewrite_struct(s), wire.spec_rewrite_struct(s), [d], overrides=wire.VARINT, spec_overrides=wire.VARINT, gens=g, where='nbc.protocol.format.%s.binary' % s)
    for s in ('Txn', 'BlockHeader'):
        c.agree('hash of ' + s, hashed(s), hashed_spec(s), [d], overrides=wire.VARINT, spec_overrides=wire.VARINT, gens={'data': wire.gen_fields(wire.W.STRUCTS[s])}, samples=600, where='nbc.protocol.format.%s.hash' % s)
    def meth(I, o, f, *a): return I.call(I.getattr_(o, f), list(a), {})
    for s in ('Txn', 'BlockHeader'):
        def make(I, a, s=s): return I.unpack(I.call(I.member('nbc.protocol.format.%s.parse' % s), [a[0]], {}), 2)[1]
        c.again(s, make, {'hash': lambda I, o, a: I.getattr_(o, 'hash'), 'binary': lambda I, o, a: meth(I, o, 'binary')}, [d], overrides=wire.VARINT, spec_overrides=wire.VARINT, gens={'data': wire.gen_fields(wire.W.STRUCTS[s])}, samples=200, where='nbc.protocol.format.' + s)
    for m in wire.COMMANDS:
        F = wire.W.MESSAGES[m][2]
        g = {'payload': wire.gen_fields(F)}
        c.agree('read message ' + m, wire.parse_message(m), wire.spec_message(m), wire.payload, pre=wire.short, overrides=wire.VARINT, spec_overrides=wire.VARINT, gens=g, where='nbc.protocol.messages.Message.parse')
        c.agree('write message ' + m, wire.rewrite_message(m), wire.spec_rewrite_message(m), wire.payload, pre=wire.short, overrides=wire.VARINT, spec_overrides=wire.VARINT, gens=g, where='nbc.protocol.messages.Message.binary')
    # a header and a block made of a stored block
    U32 = ('int', 0, 2 ** 32 - 1, None)
    def stored(n):
        def f(I):
            for k, so in (('version', U32), ('previous_hash', ('bytes', None, None, 32)), ('merkle_root', ('bytes', None, None, 32)), ('timestamp', U32), ('bits', U32), ('nonce', U32)): I.schema[('Stored', k)] = so
            o = I.obj('stored', 'spec.wire.Stored')
            I.put(o.a[0] if o.op == 'ref' else o, 'transactions', t.tup([I.obj('tx%d' % i, 'spec.wire.Stored') for i in range(n)]))
            return [o]
        return f
    for n in (0, 1, 2, 252, 253):
        c.agree('header of a stored block of %d' % n, lambda I, a: meth(I, I.call(I.member('nbc.protocol.format.BlockHeader.from_block'), a, {}), 'binary'), lambda I, a, n=n: I.call(I.member('spec.wire.stored_header'), [a[0], K(n)], {}), stored(n), overrides=wire.VARINT, spec_overrides=wire.VARINT, where='nbc.protocol.format.BlockHeader.from_block')
    NB = ('version', 'prev_block', 'merkle_root', 'timestamp', 'bits', 'nonce')
    def block(I, a):
        b = I.call(I.member('nbc.protocol.messages.Block.from_block'), a, {})
        return t.tup([I.getattr_(b, k) for k in NB] + [t.length(I.seq_of(I.getattr_(b, 'txns')))])
    def block_spec(I, a): return t.tup([I.getattr_(a[0], k) for k in ('version', 'previous_hash', 'merkle_root', 'timestamp', 'bits', 'nonce')] + [K(0)])
    c.agree('message of a stored block', block, block_spec, stored(0), where='nbc.protocol.messages.Block.from_block')
    # references to outputs: equal exactly if both fields are, and then with equal hash
    h1, h2 = [t.sym('hash' + w, 'bytes', None, None, 32) for w in 'ab']; i1, i2 = [t.sym('index' + w, 'int', 0, 2 ** 32 - 1) for w in 'ab']
    few = lambda v, q: v.rng.choice((bytes(32), b'\1' * 32)); fi = lambda v, q: v.rng.choice((0, 1))
    def two(I, a): return [I.call(I.member('nbc.protocol.format.OutPoint'), [a[2 * j], a[2 * j + 1]], {}) for j in (0, 1)]
    def equal(I, a):
        x, y = two(I, a); hx, hy = [meth(I, o, '__hash__') for o in (x, y)]
        e = I.truth(meth(I, x, '__eq__', y))
        return t.tup([t.ite(e, K(True), K(False)), t.ite(I.truth(meth(I, x, '__eq__', a[0])), K(True), K(False)), t.ite(t.or_(t.not_(e), t.eq(hx, hy)), K(True), K(False))])
    def equal_spec(I, a): return t.tup([t.ite(t.and_(t.eq(a[0], a[2]), t.eq(a[1], a[3])), K(True), K(False)), K(False), K(True)])
    c.agree('equality of references', equal, equal_spec, [h1, i1, h2, i2], gens={'hasha': few, 'hashb': few, 'indexa': fi, 'indexb': fi}, where='nbc.protocol.format.OutPoint.__eq__')
    return c
