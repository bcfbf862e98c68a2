from .. import terms as t, crypto
from ..terms import K
from ..check import Check
from . import keys

def build():
    c = Check('C19', 'Importing and exporting WIF keys denote the same functions of the word (checksum, version, length, marker and first character included) as the reference; '
                     'importing what was exported has the key as normal form.')
    o = crypto.BASE58
    w = t.sym('wif', 'bytes')
    g = {'wif': keys.gen_wif, 'prefix': keys.wif_prefix}
    nonempty = None
    c.agree('import', 'nbc.util.key.privkey_from_wif', 'spec.keys.secret_main', [w], cats=['ValueError'], gens=g, overrides=o, modes=(0, 1, 2), samples=3000)
    pre = t.sym('prefix', 'bytes', None, None, 1)
    c.agree('import with version byte', 'nbc.util.key.privkey_from_wif', 'spec.keys.secret_of', [w, pre], cats=['ValueError'], gens=dict(g, wif=keys.gen_wif_of), overrides=o, modes=(0, 1, 2), samples=3000)
    k = t.sym('key', 'bytes')
    c.agree('export', 'nbc.util.key.privkey_to_wif', 'spec.keys.wif_main', [k], overrides=o)
    c.agree('export with version byte', 'nbc.util.key.privkey_to_wif', 'spec.keys.wif_of', [k, pre], overrides=o)
    c.agree('checked word written', 'nbc.util.base58.encode_check', 'spec.keys.to_word', [k], overrides=o)
    c.agree('checked word read', 'nbc.util.base58.decode_check', 'spec.keys.of_word', [w], cats=['ValueError'], gens=g, overrides=o, modes=(0, 1, 2), samples=3000)
    k32 = t.sym('key32', 'bytes', None, None, 32)
    def first(I, a, chars):
        """words of the version byte begin with these letters (arithmetic of Base58, C35)"""
        p = t.FALSE
        for ch in chars: p = t.or_(p, t.eq(t.byte(a, K(0)), K(ch)))
        return p
    for nm, tail, chars in (('uncompressed', b'', b'5'), ('compressed', b'\1', b'KL')):
        def back(I, a, tail=tail, chars=chars):
            x = t.cat([a[0], K(tail)]) if tail else a[0]
            wif = I.call(I.member('nbc.util.key.privkey_to_wif'), [x], {})
            I.assume(first(I, wif, chars)); I.assume(t.le(K(50), t.length(wif)))
            return I.call(I.member('nbc.util.key.privkey_from_wif'), [wif], {})
        def same(I, a, tail=tail, chars=chars):
            x = t.cat([a[0], K(tail)]) if tail else a[0]
            wif = I.call(I.member('spec.keys.wif_main'), [x], {})
            I.assume(first(I, wif, chars)); I.assume(t.le(K(50), t.length(wif)))
            return a[0]
        c.agree('import of an exported key, ' + nm, back, same, [k32], overrides=o, where='nbc.util.key.privkey_from_wif')
    return c
