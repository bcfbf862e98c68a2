"""private keys never reach text output"""
from .. import terms as t, crypto, aes, models
from ..check import Check
from ..terms import K, TRUE, FALSE, NONE, mk, B, Unsup, Blowup
from ..interp import Broken, Inst, Func, Cls, Mod, StaticM, ClassM, Prop, Builtin
from . import keys, hd
from . import C32
from .C31 import OVER
from .store import PASS, OW

# ------------------------------------------------------------ what may be told
SECRET = {}
def secret(name, *a):
    s = t.sym(name, *a); SECRET[s] = name; return s
WORD = secret('secret_word', 'bytes'); WORD51 = secret('secret_word51', 'bytes', None, None, 51); WORD52 = secret('secret_word52', 'bytes', None, None, 52)
WORDB = secret('secret_word_b', 'bytes'); WORDT = secret('secret_word_text', 'str')
RAW = secret('secret_bytes', 'bytes', None, None, 32); RAWANY = secret('secret_octets', 'bytes')
NUM = secret('secret_number', 'int', 1, keys.N - 1); NUMANY = secret('secret_any_number', 'int')
PHRASE = secret('secret_phrase', 'bytes'); PHRASE5 = secret('secret_phrase5', 'bytes', None, None, 5); PTEXT = secret('secret_text', 'str')
SEED = secret('secret_seed', 'bytes'); XPRV = secret('secret_extended_key', 'bytes')
SHARE = [secret('secret_share%d' % i, 'bytes') for i in range(3)]
STORED = t.sym('stored_octets', 'bytes', None, None, 64)
NONCE = secret('secret_nonce', 'int', 1, keys.N - 1)
KEYOPS = {'draw': 'a random key', 'urandom': 'a random key', 'getpass': 'the passphrase', 'file_contents': 'a stored key'}
# results nothing of the secret can be got back from
PUBLIC = {'gmul', 'digest', 'aesenc', 'len', 'nosqrt', 'badb58', 'ginf', 'notnum', 'isint', 'id', 'hash', 'type', 'dertag'}
TEXT = ('__str__', '__repr__', '__format__')
def told(v, own):
    """the secrets a value shows"""
    seen = set(); out = set(); few = {}
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple): todo.extend(x); continue
        if not isinstance(x, t.T) or x.id in seen: continue
        seen.add(x.id)
        if x in SECRET: out.add(SECRET[x]); continue
        if x.op in KEYOPS: out.add(KEYOPS[x.op]); continue
        if x.op == 'c' or x.op in PUBLIC or x.sort == 'bool' and x.op != 'ite': continue
        if x.op == 'ite':
            todo.extend(t.leaves(x)); continue
        if x.op == 'byte' and t.isc(x.a[1]):                 # single octets do not give a key away
            few.setdefault(x.a[0], set()).add(t.cv(x.a[1])); continue
        if x.op == 'slice' and x.sort in ('bytes', 'str') and t.isc(x.a[1]) and t.isc(x.a[2]) and 0 <= t.cv(x.a[1]) <= t.cv(x.a[2]) <= t.cv(x.a[1]) + 4:
            few.setdefault(x.a[0], set()).update(range(t.cv(x.a[1]), t.cv(x.a[2]))); continue
        if x.op == 'mapget' and x.a[0].op == 'unjson' and t.isc(x.a[1]) and t.cv(x.a[1]) != 'prvkey': continue
        if x.op in ('ref', 'objval'):
            cls = x.a[0] if x.op == 'objval' else x.a[0].cls if isinstance(x.a[0], Inst) else None
            if cls is not None:
                if own(cls): raise Unsup('text of a %s inside another value' % cls.name)
                continue
            if x.op == 'ref' and not isinstance(x.a[0], (Cls, Func, Builtin, Mod)): raise Unsup('what a %s shows' % type(x.a[0]).__name__)
            continue
        todo.extend(x.a)
    for base, s in few.items():
        if len(s) > 4: todo.append(base)
    if todo: out |= set(told(tuple(todo), own))
    return sorted(out)

def has_text(I):
    def own(cls): return any(I.get(k, f) is not None for k in cls.mro if not k.builtin for f in ('__repr__', '__format__'))
    return own
def outputs(I, exits, text):
    """[(kind, value, state)] that leave: texts of exceptions, what was printed, the result when it is a text form"""
    out = []
    for e in exits:
        kind, st, v = e[0], e[1], e[2]
        ev = models.events(I, 'text', st)
        if ev is not None: out.append(('prints', ev, st))
        if kind == 'raise':
            for l in t.leaves(v):
                if l.op != 'ref' or not isinstance(l.a[0], Inst): continue
                o = l.a[0]
                I.st = st.fork(st.pc); I.exits = []
                own = I.cls_attr(o.cls, '__str__')
                def says():
                    if own is not None and own.op == 'ref' and isinstance(own.a[0], Func): return I.call(I.bind(own, l, o.cls), [])
                    a = I.get(o, 'args')
                    if a is None: return NONE
                    a = I.seq_of(a)
                    if a.op == 'tup' and len(a.a) == 1: return I.bycase(a.a[0], lambda x: shown(I, models.tostr, x))
                    return t.tup([I.bycase(y, lambda x: shown(I, models.torepr, x)) for y in a.a]) if a.op == 'tup' else I.reify(a)
                for x in I.run(says):
                    if x[0] == 'return': out.append(('raises %s' % o.cls.name, x[2], x[1]))
        elif text: out.append(('gives the text', v, st))
    return out

def shown(I, f, x):
    return f(I, x) if I.class_of(x) is not None and not t.isc(x) else I.reify(x)
def clean(run, text, over):
    def go(I):
        I.overrides = dict(over)
        ex = I.run(lambda: run(I))
        if not ex: raise Unsup('never ends')
        bad = []; n = 0
        for what, v, st in outputs(I, ex, text):
            n += 1; I.st = st
            for s in told(I.reify(v), has_text(I)): bad.append('%s with %s' % (what, s.replace('_', ' ')))
        return sorted(set(bad)), n + 1
    return go

# ------------------------------------------------------------ what is called with what
anyb = t.sym('octets', 'bytes'); digest32 = t.sym('digest32', 'bytes', None, None, 32)
def some(I, name, who):
    """arguments for a parameter of this name; [] when there is none"""
    if name in ('privKey', 'privkey', 'private_key', 'prvKey', 'wif'): return [WORD, WORDT] if name == 'privKey' else [WORD]
    if name in ('private_keys', 'keys', 'shares', 'parts'): return [I.new_list(t.tup(SHARE[:2]))]
    if name in ('passphrase', 'password'): return [PHRASE5, PTEXT]
    if name == 'sText': return [STORED, K(b'123')] if 'Decrypt' in who else [RAW]
    if name in ('string', 'pem', 'der') and 'SigningKey' in who: return [RAW] if who.endswith('from_string') else [RAWANY]
    if name == 'string' and '.der.' in who: return [RAWANY]
    if name in ('generator',): return [I.getattr_(I.member('nbc.util.ecdsa.SECP256k1'), 'generator')]
    if name == 'curve': return [I.member('nbc.util.ecdsa.SECP256k1')]
    if name == 'hash_func': return [models.EXTM['hashlib.sha256'](I)]
    if name == 'sig_der': return [anyb]
    if name == 'pem': return [RAWANY]
    if name == 'fileName': return [t.sym('file_name', 'str')]
    if name == 'wallet': return [I.call(I.member('nbc.wallet.address.Address'), [], {'privKey': WORD51, 'vcn': hd.vcn, 'testnet': hd.net})]
    if name == 'random_k': return [NONCE]
    if name in ('number',): return [t.sym('number', 'int', 0, keys.N - 1)]
    if name in ('master_seed', 'seed'): return [SEED, PTEXT]
    if name == 'extended_key': return [XPRV]
    if name == 'key' and 'HDWallet' in who: return [NUM, NUMANY, RAW]
    if name in ('key', 'secexp', 'secret_multiplier', 'k', 'num'): return [NUM]
    if name in ('chain',): return [hd.chain]
    if name in ('vcn',): return [hd.vcn]
    if name in ('testnet',): return [hd.net]
    if name in ('i', 'index'): return [hd.index]
    if name == 'depth': return [hd.depth]
    if name == 'parentfp': return [hd.fp]
    if name == 'childnum': return [hd.num]
    if name in ('include_prv', 'compressed'): return [TRUE]
    if name in ('pubKey', 'public_key', 'pubkey', 'publickey'): return [hd.pub]
    if name in ('data', 'signature', 'message', 'digest', 'hash', 'qr_code', 'string'): return [anyb]
    if name in ('version', 'prefix', 'verByte'): return [K(b'\x80')]
    if name == 'point': return [hd.point(I, hd.pub)]
    if name == 'order': return [K(keys.N)]
    if name == 'count': return [K(1), K(2)]
    if name in ('required', 'total'): return [K(2)]
    if name in ('ignore_errors',): return [FALSE, TRUE]
    if name == 'x': return [t.sym('x', 'int', 0, keys.N)]
    if name == 'y': return [t.sym('y', 'int', 0, keys.N)]
    if name in ('v', 'payload', 's', 'word', 'text', 'b'): return [RAWANY]
    return []
def combos(I, f, who, skip=0, force=()):
    """argument lists for a function, optional parameters included when a value for them is known"""
    a = f.node.args
    pos = [p.arg for p in a.posonlyargs + a.args][skip:]
    nd = len(f.defaults)
    out = [([], {})]
    for j, p in enumerate(pos):
        optional = j >= len(pos) - nd
        vs = some(I, p, who)
        if p == 'self': continue
        if p == 'cfg': vs = [cfg(I, x) for x in (False, True)]
        if not vs:
            if optional: break
            vs = [t.sym('arg_' + p, 'any')]
        elif optional and f.defaults[j - len(pos) + nd] is NONE and p not in ('vcn', 'depth'): vs = vs + [NONE]
        out = [(l + [v], k) for l, k in out for v in vs]
    if nd: out += [(l[:len(pos) - nd], k) for l, k in out[:1]]
    res = []
    for x in out:
        if not any(len(x[0]) == len(y[0]) and all(p is q for p, q in zip(x[0], y[0])) for y in res): res.append(x)
    return res[:12]
def cfg(I, encrypted):
    text = secret('stored_key', 'str') if not encrypted else t.decode(t.hexl(STORED), 'latin-1')
    return I.new_dict([(K('encrypted'), K(encrypted)), (K('type'), K('default')), (K('vcn'), hd.vcn), (K('testnet'), hd.net), (K('prvkey'), text), (K('pubkey'), NONE),
                       (K('chain'), t.sym('chain_text', 'str')), (K('depth'), hd.depth), (K('parentfp'), t.sym('fp_text', 'str')), (K('childnum'), hd.num)])

def objects(I):
    """the objects that hold secrets, and how they are made"""
    A = 'nbc.wallet.address.Address'; H = 'nbc.wallet.hdwallet.HDWallet'
    def addr(w): return lambda: I.call(I.member(A), [], {'privKey': w, 'vcn': hd.vcn, 'testnet': hd.net})
    def sk(): return I.call(I.getattr_(I.member('nbc.util.ecdsa.SigningKey'), 'from_string'), [RAW], {'curve': I.member('nbc.util.ecdsa.SECP256k1')})
    return [('Address', A, addr(WORD51)), ('compressed Address', A, addr(WORD52)), ('HDWallet', H, lambda: hd.build(I, NUM, vcn=hd.vcn, testnet=hd.net, depth=hd.depth, parentfp=hd.fp, childnum=hd.num)),
            ('SigningKey', 'nbc.util.ecdsa.SigningKey', sk), ('Private_key', 'nbc.util.ecdsa.ecdsa.Private_key', lambda: I.getattr_(sk(), 'privkey'))]

PLAIN = dict(OVER); PLAIN.update(aes.OVER);
WITHWIF = dict(PLAIN); WITHWIF['nbc.util.key.privkey_from_wif'] = OW['nbc.util.key.privkey_from_wif']
DERS = dict(PLAIN); DERS.update(C32.summaries()[0])
def verifies(I, f, a, kw): return B(t.app('verifies', [I.reify(x) for x in a[1:]], 'bool'))
PLAIN['nbc.util.ecdsa.ecdsa.Public_key.verifies'] = WITHWIF['nbc.util.ecdsa.ecdsa.Public_key.verifies'] = DERS['nbc.util.ecdsa.ecdsa.Public_key.verifies'] = verifies
DECRYPTED = secret('secret_decrypted', 'bytes')
FILES = dict(WITHWIF); FILES['nbc.wallet.address._aesDecrypt'] = lambda I, f, a, kw: DECRYPTED
def build():
    c = Check('C15', 'Values that leave as text (arguments of every exception that escapes, everything printed, the results of __str__, __repr__, __format__), computed as value graphs for secret arguments, contain no secret: '
                     'a key, a passphrase or a share occurs in them only below a one-way function (public key, hash, cipher, length, comparison).')
    from ..env import make
    I0 = c.I = make()
    c.needs = ['nbc', 'nbc.util', 'nbc.wallet', 'nbc.util.ecdsa', 'nbc.util.ecdsa.keys', 'nbc.util.piecewise', 'nbc.util.key', 'nbc.util.ecc', 'nbc.util.base58']
    for m in c.needs: I0.load(m)
    def count(fn, who, skip):
        I0.reset(); I0.overrides = dict(OVER)
        I0.exits = []
        n = len(combos(I0, fn, who, skip))
        I0.reset()
        return n
    def members(cls):
        out = {}
        for k in reversed(cls.mro):
            if k.builtin: continue
            for (o, f), v in list(I0.base.items()):
                if o is k and v.op == 'ref': out[f] = v.a[0]
        return out
    def add(name, get, fn, who, skip, text=False, over=PLAIN):
        for i in range(count(fn, who, skip)):
            def run(I, i=i):
                f = get(I); a, k = combos(I, fn, who, skip)[i]
                return I.call(f, a, k)
            c.require('%s, arguments %d' % (name, i) if i else name, clean(run, text, over), limit=20)
    for label, path, maker in objects(I0):
        cls = I0.member(path).a[0]; ms = members(cls)
        over = WITHWIF if 'ddress' in label else DERS if label == 'SigningKey' else PLAIN
        make_ = lambda I, label=label: [x for x in objects(I) if x[0] == label][0][2]()
        for f, v in sorted(ms.items()):
            if isinstance(v, (StaticM, ClassM)) and v.func.op == 'ref' and isinstance(v.func.a[0], Func):
                if not label.startswith('compressed'): add(label + '.' + f, lambda I, p=path + '.' + f: I.member(p), v.func.a[0], path + '.' + f, 1 if isinstance(v, ClassM) else 0, False, over)
            elif isinstance(v, Func) and f == '__init__':
                if not label.startswith('compressed'): add(label, lambda I, p=path: I.member(p), v, path, 1, False, over)
            elif isinstance(v, Func): add(label + '.' + f, lambda I, f=f, make_=make_: I.getattr_(make_(I), f), v, path + '.' + f, 1, f in TEXT, over)
            elif isinstance(v, Prop): c.require('%s.%s' % (label, f), clean(lambda I, f=f, make_=make_: I.getattr_(make_(I), f), False, over), limit=20)
        c.require('text of %s' % label, clean(lambda I, make_=make_: models.tostr(I, make_(I)), True, over), limit=20)
        c.require('short text of %s' % label, clean(lambda I, make_=make_: models.torepr(I, make_(I)), True, over), limit=20)
    for mod in ('nbc.util.key', 'nbc.util.ecc', 'nbc.util.piecewise', 'nbc.wallet.address', 'nbc.wallet.hdwallet', 'nbc.wallet', 'nbc.util.base58', 'nbc.util.ecdsa.rfc6979', 'nbc.util.ecdsa.der'):
        m = I0.load(mod)
        over = {} if mod.endswith(('base58', 'der')) else FILES if mod == 'nbc.wallet' else PLAIN
        for f, v in sorted((f, v) for (o, f), v in I0.base.items() if o is m):
            if v.op != 'ref' or not isinstance(v.a[0], Func) or v.a[0].mod is not m or f in ('main', 'CHR', 'ORD'): continue
            add('%s.%s' % (mod, f), lambda I, p=mod + '.' + f: I.member(p), v.a[0], mod + '.' + f, 0, False, over)
    return c
