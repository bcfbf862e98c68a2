from .. import terms as t
from ..terms import K
from ..check import Check
from ..compare import Obs
from . import wire

def build():
    c = Check('C03', 'The condition under which reading data as a structure or message refuses denotes the same function of the data as the reference layout, '
                     'truncations and counts at and beyond the limits included; reading an element of a list from no data refuses, so a list visits no more elements than it has data.')
    nothing = Obs(lambda I, st, v: [])
    fmt = 'nbc.protocol.format.'
    d = t.sym('data', 'bytes')
    for s in wire.STRUCTS:
        g = {'data': wire.gen_fields(wire.W.STRUCTS[s])}
        c.agree('refusals of ' + s, wire.parse_struct(s), wire.spec_struct(s), [d], overrides=wire.VARINT, spec_overrides=wire.VARINT, gens=g, obs=nothing, where=fmt + s + '.parse')
        # cut anywhere
        cut = {'data': wire.gen_cut(wire.W.STRUCTS[s])}
        c.agree('truncations of ' + s, wire.parse_struct(s), wire.spec_struct(s), [d], overrides=wire.VARINT, spec_overrides=wire.VARINT, gens=cut, obs=nothing, where=fmt + s + '.parse')
    for m in wire.COMMANDS:
        F = wire.W.MESSAGES[m][2]
        if not F: continue
        for nm, g in (('refusals', wire.gen_fields(F)), ('truncations', wire.gen_cut(F))):
            c.agree('%s of message %s' % (nm, m), wire.parse_message(m), wire.spec_message(m), wire.payload, pre=wire.short, overrides=wire.VARINT, spec_overrides=wire.VARINT, gens={'payload': g}, obs=nothing, where='nbc.protocol.messages.Message.parse')
        lim = wire.limits(F)
        if lim:
            c.agree('limit of message %s' % m, wire.parse_message(m), wire.spec_message(m), wire.payload, pre=wire.short, overrides=wire.VARINT, spec_overrides=wire.VARINT,
                    gens={'payload': wire.gen_fields(F, exact=lim)}, obs=nothing, samples=len(lim), limit=120, where='nbc.protocol.messages.Message.parse')
    # the truncated forms of every codec
    def parse(cls, *args):
        return lambda I, a: I.call(I.getattr_(I.call(I.member(fmt + cls), [K(x) for x in args], {}), 'parse'), [a[0]], {})
    def spec(name, *args): return lambda I, a: I.call(I.member('spec.wire.' + name), [K(x) for x in args] + list(a), {})
    for f, n in zip('bBhHiIqQ', (1, 1, 2, 2, 4, 4, 8, 8)):
        c.agree('number %s refusals' % f, parse('FtNumber', f), spec('read_num', n, f.islower(), 'little'), [d], obs=nothing, where=fmt + 'FtNumber.parse')
    c.agree('variable-length integer refusals', parse('FtVarInteger'), spec('varint'), [d], obs=nothing, gens={'data': wire.gen_fields([('v', wire.W.VAR)])}, where=fmt + 'FtVarInteger.parse')
    c.agree('string refusals', parse('FtVarString'), spec('read_str'), [d], obs=nothing, gens={'data': wire.gen_fields([('s', wire.W.STR)])}, where=fmt + 'FtVarString.parse')
    c.agree('IP address refusals', parse('FtIPAddress'), spec('read_ip'), [d], obs=nothing, gens={'data': wire.gen_fields([('s', wire.W.IP)])}, where=fmt + 'FtIPAddress.parse')
    for k in (1, 8, 32): c.agree('%d bytes refusals' % k, parse('FtBytes', k), spec('read_raw', k), [d], obs=nothing, where=fmt + 'FtBytes.parse')
    # the work is bounded by the data: reading any element from no data refuses
    def refuses(I, what, f):
        ex = I.run(f)
        return ['%s is read from no data' % what for kind, st, v, loc in ex if kind == 'return' and st.pc is not t.FALSE]
    def elements(I):
        bad = []; n = 0
        for s in wire.STRUCTS + ['FtVarString', 'FtVarInteger', 'FtIPAddress']:
            I.reset(); n += 1
            bad += refuses(I, s, lambda: I.call(I.getattr_(I.member(fmt + s) if s in wire.STRUCTS else I.call(I.member(fmt + s), [], {}), 'parse'), [K(b'')], {}))
        for cls, arg in (('FtBytes', 32), ('FtNumber', 'I'), ('FtNumber', 'B')):
            I.reset(); n += 1
            bad += refuses(I, cls, lambda: I.call(I.getattr_(I.call(I.member(fmt + cls), [K(arg)], {}), 'parse'), [K(b'')], {}))
        return bad, n
    c.require('no element is read from no data', elements)
    # a list refuses as soon as its data ends, whatever count it declares
    def declared(I):
        bad = []; n = 0
        for inner, size, one in (('FtNumber', ('I',), 4), ('FtBytes', (32,), 32), ('FtVarString', (), 1)):
            for count in (2 ** 16, 2 ** 32, 2 ** 60):
                I.reset(); n += 1
                data = K(wire.W.put_varint(count) + b'\0' * (3 * one))
                el = I.call(I.member(fmt + inner), [K(x) for x in size], {})
                arr = I.call(I.member(fmt + 'FtArray'), [el], {})
                before = I.steps
                ex = I.run(lambda: I.call(I.getattr_(arr, 'parse'), [data], {}))
                for kind, st, v, loc in ex:
                    if kind == 'return' and st.pc is not t.FALSE: bad.append('a list of %d %s declared, 3 present: accepted' % (count, inner))
        return bad, n
    c.require('a declared count is not trusted', declared)
    return c
