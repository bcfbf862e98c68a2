from .. import terms as t, models
from ..terms import K
from ..check import Check
from . import keys, hd
from .store import *
F = 'spec.fs.'

def build():
    c = Check('C18', 'Typestate of the files a save touches, followed over every path including the failure of each file operation: the wallet file is only ever replaced by renaming a file of its own directory '
                     'that was written, flushed and forced to disk without a failure; a save that returns has done so.')
    name = t.sym('name', 'str')
    def over(disk):
        def go(what):
            return lambda I, f, a, kw: meth(I, disk, what, *[path(I, x) for x in a])
        def path(I, x):
            x = I.simpv(x)
            k = I.class_of(x)
            return I.getattr_(x, 'path') if k is not None and k.name == 'Handle' else x
        def open_(I, f, a, kw): return call(I, F + 'Handle', disk, a[0], (a[1] if len(a) > 1 else kw.get('mode', K('r'))))
        return {'__stub_io.open': open_, '__stub_io.fsync': go('fsync'), '__stub_io.rename': go('rename'), '__stub_io.remove': go('remove')}
    def run(fn, made, p):
        def f(I, a):
            disk = call(I, F + 'Disk', name)
            w = made(I, a)
            I.overrides = dict(I.overrides); I.overrides.update(over(disk))
            return call(I, F + fn, disk, I.member('nbc.wallet.saveTo'), name, w, t.tup(p))
        return f
    kinds = {'address': (lambda I, a: address(I, *a), [WORDS[52], vcn, net], OW), 'watch-only address': (lambda I, a: watch(I, *a), [hd.pub, vcn, net], O),
             'wallet': (lambda I, a: tree(I, a[0], a[1:]), [secret] + TREE, O), 'watch-only wallet': (lambda I, a: tree(I, hd.point(I, a[0]), a[1:]), [hd.pub] + TREE, O)}
    for kn, (made, args, o) in kinds.items():
        for pn, p in (('none', []), ('of 5', [PASS[5]]), ('text', [K('secret')])):
            def ref(I, a, made=made, p=p, kn=kn, pn=pn):
                made(I, a)
                return K('the old or the new wallet is there at every step')
            c.agree('saving, %s, passphrase %s' % (kn, pn), run('attempt', made, p), ref, args, overrides=o, gens=dict(GENS, key=hd.gen_pub), samples=300, where='nbc.wallet.saveTo')
    return c
