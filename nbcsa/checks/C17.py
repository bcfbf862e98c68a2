from .. import terms as t, crypto, models
from ..terms import K, mk
from ..check import Check
from . import keys, hd
from .store import *

def build():
    c = Check('C17', 'Loading (through JSON) the configuration a wallet dumps gives a wallet that says the same of itself, as a composition of value graphs; saving and loading by file do the same and dispatch on the kind. '
                     'A configuration that JSON can not represent is a TypeError in the model.')
    n = 200
    other = t.sym('other', 'bytes', None, None, 33); big = t.sym('big', 'bytes', None, None, 65)
    g = dict(GENS, key=hd.gen_pub, big=lambda v, q: keys.full(keys.point(v)))
    def text_of(p): return t.decode(p, 'latin-1')
    # what carries the configuration from one to the other
    def by_dict(I, klass, w, p, q):
        cfg = meth(I, w, 'dump_to_cfg', *p)
        return call(I, klass + '.load_from_cfg', through_json(I, cfg), *q)
    def by_file(I, klass, w, p, q):
        name = t.sym('name', 'str')
        written = []
        def binary(I, f): return 'b' in t.cv(I.simpv(I.getattr_(f, '_mode')))
        def write(I, f, a, kw):
            raw = binary(I, a[0])
            if not all((l.sort == 'bytes') == raw for l in t.leaves(a[1])): I.throw('TypeError')
            written.append(a[1] if raw else t.encode(a[1], 'latin-1' if all(models.ascii_only(l) for l in t.leaves(a[1])) else 'utf-8'))
            return t.length(a[1])
        def read(I, f, a, kw):
            if len(a) > 1: raise t.Unsup('reading a part')
            x = t.cat(written, 'bytes')
            if binary(I, a[0]): return x
            def text(x):
                y = t.decode(x, 'latin-1')
                return y if y.op == 'json' else t.decode(x, 'utf-8')
            return t.lift(text, (x,))
        old = dict(I.overrides)
        I.overrides['__stub_io.File.write'] = write; I.overrides['__stub_io.File.read'] = read
        I.overrides['__stub_io._may_fail'] = lambda I, f, a, kw: K(None)
        try:
            call(I, 'nbc.wallet.saveTo', name, w, *p)
            return call(I, 'nbc.wallet.loadFrom', name, *q)
        finally: I.overrides = old
    for how, carry in (('dump and load', by_dict), ('save and load', by_file)):
        for pn, p, q in [('none', [], [])] + [('of %d' % k, [v], [v]) for k, v in PASS.items()] + [('of any length', [anypass], [anypass]), ('of 16, as text', [PASS[16]], [text_of(PASS[16])]), ('none, one given', [], [PASS[5]])]:
            def pre(I, a): return t.lt(K(0), t.length(anypass)) if pn == 'of any length' else t.TRUE
            for wn, w in WORDS.items():
                def code(I, a, carry=carry, p=p, q=q): return t.tup([K('default'), aview(I, carry(I, AD, address(I, *a), p, q))])
                def want(I, a): return t.tup([K('default'), aview(I, address(I, *a))])
                c.agree('%s an address, word of %d, passphrase %s' % (how, wn, pn), code, want, [w, vcn, net], gens=g, overrides=OW, samples=n, where=AD + '.load_from_cfg')
            def code(I, a, carry=carry, p=p, q=q): return hd.view(I, carry(I, HW, tree(I, a[0], a[1:]), p, q))
            def want(I, a): return hd.view(I, tree(I, a[0], a[1:]))
            c.agree('%s a wallet, passphrase %s' % (how, pn), code, want, [secret] + TREE, gens=g, overrides=O, samples=n, where=HW + '.load_from_cfg')
            if pn not in ('none', 'of 5'): continue
            for kn, k in (('compressed', other), ('whole', big)):
                def code(I, a, carry=carry, p=p, q=q): return aview(I, carry(I, AD, watch(I, *a), p, q))
                def want(I, a): return aview(I, watch(I, *a))
                c.agree('%s a watch-only address, %s key, passphrase %s' % (how, kn, pn), code, want, [k, vcn, net], gens=dict(g, other=hd.gen_pub), overrides=O, samples=n, where=AD + '.load_from_cfg')
            def code(I, a, carry=carry, p=p, q=q): return hd.view(I, carry(I, HW, tree(I, hd.point(I, a[0]), a[1:]), p, q))
            def want(I, a): return hd.view(I, tree(I, hd.point(I, a[0]), a[1:]))
            c.agree('%s a watch-only wallet, passphrase %s' % (how, pn), code, want, [hd.pub] + TREE, gens=g, overrides=O, samples=n, where=HW + '.load_from_cfg')
    def loaded(klass, view, p):
        return lambda I, w, a: view(I, call(I, klass + '.load_from_cfg', through_json(I, meth(I, w, 'dump_to_cfg', *p)), *p))
    for wn, w in WORDS.items():
        c.again('address, word of %d' % wn, lambda I, a: address(I, *a), {'loaded, passphrase': loaded(AD, aview, [PASS[5]]), 'loaded, other passphrase': loaded(AD, aview, [PASS[17]]), 'loaded': loaded(AD, aview, [])}, [w, vcn, net], gens=g, overrides=OW, samples=n, where=AD + '.dump_to_cfg')
    c.again('wallet', lambda I, a: tree(I, a[0], a[1:]), {'loaded, passphrase': loaded(HW, hd.view, [PASS[5]]), 'loaded, other passphrase': loaded(HW, hd.view, [PASS[17]]), 'loaded': loaded(HW, hd.view, [])}, [secret] + TREE, gens=g, overrides=O, samples=n, where=HW + '.dump_to_cfg')
    return c
