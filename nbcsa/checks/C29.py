from .. import terms as t, crypto
from ..terms import K, isc, cv
from ..check import Check
from ..interp import Cls, Unsup, Func
from . import keys
S = 'spec.coins.'; M = 'nbc.coins.'
def call(I, f, *a): return I.call(I.member(f), list(a), {})
def coins(I):
    """every class of the package that is a coin"""
    base = I.member('nbc.coins.coin.Coin').a[0]; out = []
    for h in (I.base, I.st.h):
        for (o, name), v in list(h.items()):
            if v.op == 'ref' and isinstance(v.a[0], Cls) and base in v.a[0].mro and v.a[0] is not base and v.a[0] not in out: out.append(v.a[0])
    return out
def value(I, k, f):
    v = I.simpv(I.getattr_(k.ref, f))
    return v
def const(I, k, f):
    v = value(I, k, f)
    if not isc(v): raise Unsup('%s of %s is not constant' % (f, k.name))
    return cv(v)
def items(I, v):
    v = I.simpv(I.seq_of(v))
    if v.op != 'tup':
        if isc(v): return [K(x) for x in cv(v)]
        raise Unsup('not a list of known length')
    return list(v.a)
def texts(I, v):
    out = []
    for x in items(I, v):
        if not isc(x): raise Unsup('not constant')
        out.append(cv(x))
    return out

def build():
    c = Check('C29', 'The constants of every coin class, as the module bodies leave them, satisfy the rules between them; get_coin denotes the reference search.')
    def forms(I):
        bad = []; n = 0; seen = {}
        ks = coins(I)
        if not ks: bad.append('nbc.coins defines no coin')
        listed = [x.a[0] for x in items(I, I.member(M + 'Coins'))]
        for k in ks:
            w = 'nbc.coins %s: ' % k.name
            def rule(ok, what):
                if not ok: bad.append(w + what)
            nm = const(I, k, 'name'); sy = texts(I, value(I, k, 'symbols')); n += 22
            rule(listed.count(k) == 1, 'is listed %d times in Coins' % listed.count(k))
            rule(isinstance(nm, str) and nm and nm == nm.lower(), 'name %r is not a lower case text' % (nm,))
            rule(sy and all(isinstance(s, str) and s and s == s.upper() for s in sy), 'symbols %r are not upper case texts' % (sy,))
            rule(const(I, k, 'symbol') in sy, 'symbol %r is not one of %r' % (const(I, k, 'symbol'), sy))
            for s in [nm] + sy:
                rule(s not in seen, '%r also denotes %s' % (s, seen.get(s))); seen[s] = k.name
            def octets(f, size):
                v = const(I, k, f)
                rule(isinstance(v, bytes) and len(v) == size, '%s has not %d octets: %r' % (f, size, v)); return v
            octets('magic', 4); h = octets('genesis_block_hash', 32); octets('genesis_merkle_root', 32)
            one = [octets(f, 1) for f in ('addrVer', 'script_address', 'secret_key')]; four = [octets(f, 4) for f in ('ext_public_key', 'ext_secret_key')]
            rule(len(set(one)) == 3, 'version octets of addresses, scripts and keys are not distinct')
            rule(len(set(four)) == 2, 'version octets of extended keys are not distinct')
            ver = {'main': (b'\x04\x88\xb2\x1e', b'\x04\x88\xad\xe4'), 'test': (b'\x04\x35\x87\xcf', b'\x04\x35\x83\x94')}
            rule(tuple(four) in ver.values(), 'version octets of extended keys are not a pair of BIP32: %r' % (four,))
            ports = [const(I, k, 'port'), const(I, k, 'rpc_port')]
            rule(all(isinstance(p, int) and 0 < p < 65536 for p in ports), 'ports %r' % (ports,))
            rule(ports[0] != ports[1], 'both ports are %r' % (ports[0],))
            a = const(I, k, 'alert_public_key')
            rule(isinstance(a, bytes) and len(a) == 65 and a[0] == 4 and (int.from_bytes(a[33:], 'big') ** 2 - int.from_bytes(a[1:33], 'big') ** 3 - 7) % keys.P == 0 and int.from_bytes(a[1:33], 'big') < keys.P and int.from_bytes(a[33:], 'big') < keys.P, 'alert_public_key is no point of secp256k1')
            for f, hi in (('genesis_version', 2 ** 32), ('genesis_timestamp', 2 ** 32), ('genesis_bits', 2 ** 32), ('genesis_nonce', 2 ** 32), ('protocol_version', 2 ** 31)):
                v = const(I, k, f); rule(isinstance(v, int) and not isinstance(v, bool) and 0 <= v < hi, '%s is %r' % (f, v))
            rule(const(I, k, 'protocol_version') >= 70001, 'protocol_version %r' % const(I, k, 'protocol_version'))
            b = const(I, k, 'genesis_bits')
            rule(3 <= b >> 24 <= 32 and not b & 0x800000 and b & 0x7fffff and (b & 0x7fffff) << 8 * ((b >> 24) - 3) < 2 ** 256, 'genesis_bits %#x is no target' % b)
            for s in items(I, value(I, k, 'dns_seeds')):
                p = items(I, s); n += 1
                rule(len(p) == 2 and all(isc(x) for x in p) and isinstance(cv(p[0]), str) and cv(p[0]) and isinstance(cv(p[1]), int) and 0 < cv(p[1]) < 65536, 'seed %s' % t.show(s))
            for s in items(I, value(I, k, 'block_height_guess')):
                p = items(I, s); n += 1
                rule(len(p) == 2 and isc(p[0]) and isinstance(cv(p[0]), str) and p[1].op == 'ref' and isinstance(p[1].a[0], Func), 'source of block heights %s' % t.show(s))
        v = I.member(M + 'satoshi_per_coin')
        if not isc(v) or cv(v) != 10 ** 8: bad.append('satoshi_per_coin is %s' % t.show(v))
        return bad, n
    c.require('forms of the constants', forms)
    def each(f): return lambda I, a: t.tup([f(I, k) for k in sorted(coins(I), key=lambda k: k.name)])
    c.agree('hash of the genesis block', each(lambda I, k: value(I, k, 'genesis_block_hash')), each(lambda I, k: call(I, S + 'genesis_hash', k.ref)), [], samples=3, where='nbc.coins')
    c.agree('target of the genesis block', each(lambda I, k: call(I, S + 'genesis_meets', k.ref)), each(lambda I, k: K(True)), [], samples=3, where='nbc.coins')
    c.agree('proof of work of the genesis block', each(lambda I, k: I.call(I.member('nbc.util.verify_target'), [k.ref, call(I, S + 'genesis_object', k.ref)], {})), each(lambda I, k: K(True)), [], samples=3, where='nbc.util.verify_target')
    h = t.sym('header', 'bytes')
    c.agree('proof of work', lambda I, a: t.tup([I.call(I.getattr_(k.ref, 'proof_of_work'), [a[0]], {}) for k in coins(I)]), lambda I, a: t.tup([call(I, 'spec.chain.dhash', a[0]) for k in coins(I)]), [h], where='nbc.coins')
    # search
    def gen(v, q):
        r = v.rng; x = r.choice(('newbitcoin', 'nbc', 'NBC', 'Nbc', 'NewBitcoin', 'NEWBITCOIN', '', 'bitcoin', 'btc', 'nb', 'newbitcoi', 'n', 'NBCC', ' nbc', 'x'))
        return x
    nm, sy = t.sym('name', 'str'), t.sym('symbol', 'str')
    g = {'name': gen, 'symbol': gen}
    shapes = [('neither', [t.NONE, t.NONE]), ('name', [nm, t.NONE]), ('symbol', [t.NONE, sy]), ('both', [nm, sy])]
    def shown(I, v):
        def f(v):
            if v is t.NONE: return t.NONE
            if v.op == 'ref' and isinstance(v.a[0], Cls): return K('class ' + v.a[0].name)
            raise Unsup('result of get_coin')
        return t.lift(f, (v,))
    for w, a in shapes:
        c.agree('get_coin by ' + w, lambda I, a: shown(I, call(I, M + 'get_coin', *a)), lambda I, a: shown(I, call(I, S + 'find', I.member(M + 'Coins'), *a)), a, gens=g, samples=400, where=M + 'get_coin')
    def known(I):
        bad = []; n = 0
        for k in coins(I):
            nm = const(I, k, 'name')
            for w, a in [('name', [K(nm)]), ('name', [K(nm.upper())]), ('name', [K(nm.capitalize())])] + [('symbol', [t.NONE, K(s)]) for s in texts(I, value(I, k, 'symbols'))] + [('symbol', [t.NONE, K(s.lower())]) for s in texts(I, value(I, k, 'symbols'))]:
                n += 1
                r = I.simpv(call(I, M + 'get_coin', *a))
                if not (r.op == 'ref' and r.a[0] is k): bad.append('get_coin does not find %s by its %s %s' % (k.name, w, t.show(a[-1])))
        for a in ([], [K('')], [K(''), K('')], [K('nothing')], [t.NONE, K('XYZ')]):
            n += 1; r = I.simpv(call(I, M + 'get_coin', *a))
            if r is not t.NONE: bad.append('get_coin finds something by %s' % [t.show(x) for x in a])
        return bad, n
    c.require('coins are found', known)
    return c
