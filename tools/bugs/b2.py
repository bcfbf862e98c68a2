W = '''
import os, json, tempfile, hashlib
from nbc import wallet, util
from nbc.wallet import Address, HDWallet
from nbc.util import key, ecc, base58
from nbc.util.ecdsa import SECP256k1 as C
'''
BUGS = {
'c03-array-step': dict(property='C03', edits=[('nbc/protocol/format.py', "      self.validate(FtVarInteger._minSize + self._child.parse", "      self.validate(FtVarInteger._minSize + self._child.parse")],
  needs='', breaks='', demo='') ,
'c15-wif-type': dict(property='C15', edits=[('nbc/wallet/address.py', "raise ValueError('unknown private key type: %r' % privKey[0])", "raise ValueError('unknown private key type: %r' % privKey[:52])")],
  needs='a private key in a form the wallet does not know', breaks='the text of the error contains the private key',
  demo=W + '''
k = b'9' + base58.encode_check(b'\\x80' + b'\\x11' * 32)[1:]
try: Address(privKey=k, vcn=1)
except ValueError as e: assert k[10:40].decode() not in str(e), e
else: raise SystemExit('accepted')
'''),
'c15-hd-repr': dict(property='C15', edits=[('nbc/wallet/hdwallet.py', "      raise TypeError('Unknown key type \"{0}\"'.format(type(key)))", "      raise TypeError('Unknown key type \"{0.__class__}\" ({0!r})'.format(key))")],
  needs='a wallet made from key bytes instead of an integer', breaks='the text of the error contains the private key bytes',
  demo=W + '''
try: HDWallet(b'secretsecretsecretsecretsecret!!', b'c' * 32, vcn=1)
except TypeError as e: assert 'secretsecret' not in str(e), e
else: raise SystemExit('accepted')
'''),
'c16-short-pass': dict(property='C16', edits=[('nbc/wallet/hdwallet.py', "        sPrv = _aesEncrypt(sPrv,passphrase)\n        cfg['encrypted'] = True\n", "        sPrv, cfg['encrypted'] = _aesEncrypt(sPrv,passphrase), True\n        cfg['hint'] = hexlify(sPrv[:0] or number_to_string(self._prvkey,curve.order)[-4:]).decode('latin-1')\n")],
  needs='an HD wallet with a private key, dumped with a passphrase', breaks='four bytes of the private key are stored in the clear beside the ciphertext',
  demo=W + '''
from binascii import hexlify
w = HDWallet.from_master_seed('some seed', vcn=3)
cfg = w.dump_to_cfg(b'pass')
assert hexlify(w.prvkey()[-4:]).decode() not in json.dumps(cfg)
'''),
'c16-flag': dict(property='C16', edits=[('nbc/wallet/address.py', "      if passphrase:\n        privKey = _aesEncrypt(privKey,passphrase)\n        cfg['encrypted'] = True\n", "      if passphrase.strip():\n        privKey = _aesEncrypt(privKey,passphrase)\n        cfg['encrypted'] = True\n")],
  needs='a passphrase made of blanks only', breaks='the private key is stored in the clear although a passphrase was given',
  demo=W + '''
a = Address.generate(vcn=1)
c = a.dump_to_cfg(b'   ')
assert c['encrypted'] and bytes.fromhex(c['prvkey']).find(a.privKey) < 0
'''),
'c17-child-number': dict(property='C17', edits=[('nbc/wallet/hdwallet.py', "      'childnum': self._childnum,\n    }", "      'childnum': self._childnum & 0x7FFFFFFF,\n    }")],
  needs='a hardened child that is saved and loaded', breaks='the loaded wallet has another child number',
  demo=W + '''
m = HDWallet.from_master_seed('seed of it', vcn=1)
for i in (5, 0x80000005):
    c = m.child(i); l = HDWallet.load_from_cfg(json.loads(json.dumps(c.dump_to_cfg())))
    assert l.childnum() == i and l.to_extended_key(True) == c.to_extended_key(True)
'''),
'c17-vcn-zero': dict(property='C17', edits=[('nbc/wallet/address.py', "    return klass(pubKey=pubKey, privKey=prvKey, vcn=cfg['vcn'], testnet=cfg['testnet'])", "    return klass(pubKey=pubKey, privKey=prvKey, vcn=cfg.get('vcn') or None, testnet=cfg['testnet'])")],
  needs='a wallet whose version number is 0', breaks='it is loaded with a random version number and so another address',
  demo=W + '''
for v in (7, 0):
    a = Address.generate(vcn=v); b = Address.load_from_cfg(json.loads(json.dumps(a.dump_to_cfg())))
    c = Address.load_from_cfg(json.loads(json.dumps(a.dump_to_cfg())))
    assert a.address == b.address == c.address, v
'''),
'c18-tmp-dump': dict(property='C18', edits=[('nbc/wallet/__init__.py', "  cfg = wallet.dump_to_cfg(passphrase)\n  sCfg = json.dumps(cfg)\n  \n", "  sCfg = ''.join(json.JSONEncoder().iterencode(wallet.dump_to_cfg(passphrase)))\n  if os.path.islink(fileName):\n    with open(fileName,'w') as f:\n      f.write(sCfg)\n    return\n")],
  needs='a wallet file that is a symbolic link, and a write that fails', breaks='the wallet is written in place and truncated when the write fails',
  demo=W + '''
import builtins
d = tempfile.mkdtemp(); p = os.path.join(d, 'w'); q = os.path.join(d, 'link')
open(p, 'w').write('OLD'); os.symlink(p, q)
a = Address.generate(vcn=1)
real = builtins.open
class F:
    def __init__(self, f): self.f = f
    def __enter__(self): return self
    def __exit__(self, *a): self.f.close()
    def write(self, s): raise OSError('disk full')
    def flush(self): self.f.flush()
    def fileno(self): return self.f.fileno()
builtins.open = lambda n, m='r', *k: F(real(n, m)) if 'w' in m else real(n, m)
try: wallet.saveTo(q, a)
except OSError: pass
builtins.open = real
assert open(p).read() == 'OLD'
'''),
'c19-check-tail': dict(property='C19', edits=[('nbc/util/base58.py', "  if digest[:4] == check:", "  if check and digest.startswith(check):")],
  needs='a word whose decoded form has fewer than four bytes', breaks='short words with a truncated checksum are accepted',
  demo=W + '''
e = hashlib.sha256(hashlib.sha256(b'').digest()).digest()
for n in (1, 2, 3):
    assert base58.decode_check(base58.b58encode(e[:n])) is None
    try: key.privkey_from_wif(base58.b58encode(e[:n]))
    except ValueError: pass
assert base58.decode_check(base58.b58encode(e[:4])) == b''
'''),
'c19-first-char': dict(property='C19', edits=[('nbc/util/key.py', "        if ch != 76 and ch != 75:  # 76 is 'L', 75 is 'K'", "        if ch not in range(75, 77) and ch != 53:  # 76 is 'L', 75 is 'K'")],
  needs='a compressed key under a prefix that gives another first character', breaks='a compressed key whose word begins with 5 is accepted',
  demo=W + '''
for pre in range(256):
    w = key.privkey_to_wif(b'\\x11' * 32 + b'\\x01', bytes([pre]))
    try: key.privkey_from_wif(w, bytes([pre])); ok = True
    except ValueError: ok = False
    assert not ok or w[:1] in b'KL', (pre, w)
    w = base58.encode_check(bytes([pre]) + b'\\xff' * 32 + b'\\x01')
    try: key.privkey_from_wif(w, bytes([pre])); ok = True
    except ValueError: ok = False
    assert not ok or w[:1] in b'KL', (pre, w)
'''),
'c20-parity': dict(property='C20', edits=[('nbc/wallet/hdwallet.py', "  if (y & 1) != (ch & 1):\n    y = curve.p() - y", "  if (y ^ ch) & 1:\n    y = -y % curve.order() if hasattr(curve, 'order') else curve.p() - y | 1")],
  needs='an even point whose root is odd', breaks='a point with the wrong parity (or not on the curve) is read',
  demo=W + '''
from nbc.wallet import hdwallet as h
for i in range(1, 40):
    p = C.generator * i
    q = h.point_decompress(C.curve, h.point_compress(p))
    assert (q.x(), q.y()) == (p.x(), p.y()), i
'''),
'c20-hybrid': dict(property='C20', edits=[('nbc/util/key.py', "    if (ch != 2 and ch != 3) or len(public_key) != 33:", "    if ch & 0xfe != 2 and ch & 0xf7 != 2 or len(public_key) != 33:")],
  needs='a 33-byte key with prefix 0x0a', breaks='a key with an unknown prefix is accepted',
  demo=W + '''
good = b'\\x02' + C.generator.x().to_bytes(32, 'big')
key.decompress_public_key(good)
for ch in set(range(256)) - {2, 3}:
    try: key.decompress_public_key(bytes([ch]) + good[1:])
    except ValueError: continue
    raise SystemExit('accepted prefix %d' % ch)
'''),
'c21-r-equals-n': dict(property='C21', edits=[('nbc/util/ecdsa/ecdsa.py', "    v = xy.x() % n\n    return v == r", "    return ( xy.x() - r ) % n == 0"), ('nbc/util/ecdsa/ecdsa.py', "    if r < 1 or r > n-1: return False", "    if r < 1 or r > self.curve.p()-1: return False")],
  needs='a signature whose r is the true r plus n', breaks='a second form of a signature, with r above n, verifies',
  demo=W + '''
from nbc.util.ecdsa import ecdsa, numbertheory, ellipticcurve
# small curve y^2 = x^3 + 2x + 2 mod 17 of prime order 19 is too large for r + n < p; use one with n < p
c = ellipticcurve.CurveFp(23, 1, 4)
pts = [ellipticcurve.Point(c, x, y) for x in range(23) for y in range(23) if c.contains_point(x, y)]
def order(p):
    k, q = 1, p
    while q != ellipticcurve.INFINITY: q = q + p; k += 1
    return k
best = None
for p0, a, b in ((p, a, b) for p in (43, 59, 61, 67) for a in range(4) for b in range(1, 12)):
    c = ellipticcurve.CurveFp(p0, a, b)
    if (4 * a ** 3 + 27 * b * b) % p0 == 0: continue
    n = 1 + sum(1 for x in range(p0) for y in range(p0) if c.contains_point(x, y))
    if n < p0 - 4 and numbertheory.is_prime(n): best = (c, p0, n); break
c, p0, n = best
x, y = next((x, y) for x in range(1, n) for y in range(1, n) if c.contains_point(x, y))
G = ellipticcurve.Point(c, x, y, n)
bad = 0
for d in range(1, n):
    Q = G * d
    if Q.x() >= n or Q.y() >= n: continue
    pub = ecdsa.Public_key(G, Q); prv = ecdsa.Private_key(pub, d)
    for k in range(1, n):
        try: s = prv.sign(5, k)
        except RuntimeError: continue
        assert pub.verifies(5, s)
        assert not pub.verifies(5, ecdsa.Signature(s.r + n, s.s)), (d, k)
'''),
'c21-noncanonical': dict(property='C21', edits=[('nbc/util/ecc.py', "    value = int(binascii.hexlify(numberbytes), 16)\n", "    value = abs(twos_comp(int(binascii.hexlify(numberbytes), 16), len(numberbytes) * 8))\n")],
  needs='a signature whose r or s is written without the leading zero, or is negative', breaks='the negative of a number verifies as the number',
  demo=W + '''
d = 12345; pk = d.to_bytes(32, 'big'); P = C.generator * d
pub = b'\\x04' + P.x().to_bytes(32, 'big') + P.y().to_bytes(32, 'big')
def enc(v): return b'\\x02' + bytes([len(v)]) + v
n = 0
while n < 4:
    sig = ecc.sign(b'data', pk); r, s = ecc.sigdecode_der(sig, C.order)
    assert ecc.verify(b'data', pub, sig)
    if r >> 255 or s >> 255: continue
    n += 1
    bad = enc((2 ** 256 - r).to_bytes(32, 'big')) + enc(s.to_bytes(32, 'big'))
    assert not ecc.verify(b'data', pub, b'\\x30' + bytes([len(bad)]) + bad)
'''),
'c22-inverse-check': dict(property='C22', edits=[('nbc/util/ecdsa/ellipticcurve.py', "      if ( self.__y + other.__y ) % self.__curve.p() == 0:", "      if self.__y == self.__curve.p() - other.__y:")],
  needs='the sum of a point with itself where y is 0, or with an inverse whose y is not reduced', breaks='the sum fails instead of being the identity',
  demo=W + '''
from nbc.util.ecdsa.ellipticcurve import CurveFp, Point, INFINITY
c = CurveFp(23, 1, 1)
for x in range(23):
    for y in range(23):
        if c.contains_point(x, y):
            assert Point(c, x, y) + Point(c, x, -y) == INFINITY
'''),
'c22-p521': dict(property='C22', edits=[('nbc/util/ecdsa/curves.py', "                 (1, 3, 132, 0, 34))\nNIST521p", "                 (1, 3, 132, 0, 35))\nNIST521p"), ('nbc/util/ecdsa/curves.py', "                 (1, 3, 132, 0, 35))\nSECP256k1", "                 (1, 3, 132, 0, 34))\nSECP256k1")],
  needs='a key of P-384 or P-521 exchanged with another implementation', breaks='the object identifiers of two curves are exchanged',
  demo=W + '''
from nbc.util import ecdsa
assert ecdsa.NIST384p.oid[-1] == 34 and ecdsa.NIST521p.oid[-1] == 35
'''),
'c23-modulo': dict(property='C23', edits=[('nbc/util/ecdsa/util.py', "        if 1 <= candidate < order:\n            return candidate\n        continue\n", "        if candidate >= order and dont_try_forever < 9990:\n            candidate = candidate % order\n        if 1 <= candidate < order:\n            return candidate\n")],
  needs='ten candidates in a row above the order (small orders, or an unlucky generator)', breaks='candidates above the order are reduced instead of rejected, so small numbers are likelier',
  demo=W + '''
from nbc.util.ecdsa.util import randrange
class E:
    n = 0
    def __call__(self, k): self.n += 1; return b'\\xff' * k if self.n < 30 else b'\\x01' * k
e = E(); v = randrange(C.order, e)
assert e.n == 30 and v == int.from_bytes(b'\\x01' * 32, 'big') + 1, (e.n, v)
'''),
'c23-seeded-share': dict(property='C23', edits=[('nbc/util/piecewise.py', "    secexps = [randrange(curve.order) for i in xrange(count - 1)]", "    secexps = [randrange(curve.order)] * min(1, count - 1)\n    while len(secexps) < count - 1:\n        secexps.append((secexps[-1] * secexps[0]) % curve.order)")],
  needs='splitting into three or more shares', breaks='only the first share is drawn; the next ones follow from it',
  demo=W + '''
from nbc.util import piecewise
calls = []
real = piecewise.randrange
piecewise.randrange = lambda *a: calls.append(1) or real(*a)
w = key.privkey_to_wif(b'\\x01' * 32)
for n in (2, 3, 5):
    del calls[:]; piecewise.split_private_key(w, n); assert len(calls) == n - 1, (n, len(calls))
'''),
'c24-retry': dict(property='C24', edits=[('nbc/util/ecdsa/rfc6979.py', "        k = hmac.new(k, v+b('\\x00'), hash_func).digest()\n        v = hmac.new(k, v, hash_func).digest()", "        k = hmac.new(k, v+b('\\x00')+bx, hash_func).digest()\n        v = hmac.new(k, v, hash_func).digest()")],
  needs='a first candidate outside the range (an order far below a power of two)', breaks='the second candidate is not the one RFC 6979 prescribes',
  demo=W + '''
import hmac
from nbc.util.ecdsa import rfc6979
class G:
    def __init__(self, n): self.n = n
    def order(self): return self.n
def ref(n, x, h):
    ql = n.bit_length(); rl = (ql + 7) // 8
    def b2i(b):
        v = int.from_bytes(b, 'big'); l = len(b) * 8
        return v >> (l - ql) if l > ql else v
    hh = b2i(h)
    hh = (hh - n if hh >= n else hh).to_bytes(rl, 'big'); xo = x.to_bytes(rl, 'big')
    H = lambda k, m: hmac.new(k, m, hashlib.sha256).digest()
    V = b'\\1' * 32; K = b'\\0' * 32
    K = H(K, V + b'\\0' + xo + hh); V = H(K, V); K = H(K, V + b'\\1' + xo + hh); V = H(K, V)
    while 1:
        T = b''
        while len(T) < rl: V = H(K, V); T += V
        k = b2i(T)
        if 1 <= k < n: return k
        K = H(K, V + b'\\0'); V = H(K, V)
n = 0x4000000000000000000020108A2E0CC0D99F8A5EF
n2 = (1 << 160) + 7
for o in (n, n2, C.order):
    for x in range(1, 30):
        d = hashlib.sha256(bytes([x])).digest()
        assert rfc6979.generate_k(G(o), x, hashlib.sha256, d) == ref(o, x, d), (o, x)
'''),
'c24-digest': dict(property='C24', edits=[('nbc/util/ecdsa/rfc6979.py', "    if z2 < 0:\n        z2 = z1\n", "    if z2 <= 0:\n        z2 = z1\n")],
  needs='a digest equal to the group order', breaks='a digest equal to the order is not reduced',
  demo=W + '''
from nbc.util.ecdsa import rfc6979
assert rfc6979.bits2octets(C.order.to_bytes(32, 'big'), C.order) == b'\\0' * 32
'''),
'c25-fingerprint-cache': dict(property='C25', edits=[('nbc/wallet/hdwallet.py', "      depth=self._depth + 1,\n      parentfp=self.fingerprint(),", "      depth=self._depth + 1,\n      parentfp=self.fingerprint() if not priv_deriv or self._depth else hash_160(str_k)[:4],")],
  needs='a hardened child of a master key', breaks='the parent fingerprint of such a child is that of the private key',
  demo=W + '''
m = HDWallet.from_master_seed('seed', vcn=1)
for i in (0, 0x80000000): assert m.child(i).parentfp() == m.fingerprint(), i
assert m.child(1).child(0x80000001).parentfp() == m.child(1).fingerprint()
'''),
'c25-index-width': dict(property='C25', edits=[('nbc/wallet/hdwallet.py', "    priv_deriv = (i & 0x80000000) != 0\n", "    priv_deriv = i > 0x80000000\n")],
  needs='the first hardened index, 0x80000000', breaks='the first hardened child is derived from the public key',
  demo=W + '''
import hmac
m = HDWallet.from_master_seed('seed', vcn=1)
for i in (0x80000000, 0x80000001, 0xffffffff):
    I = hmac.new(m.chain(), b'\\0' + m.prvkey() + i.to_bytes(4, 'big'), hashlib.sha512).digest()
    assert m.child(i).chain() == I[32:], hex(i)
'''),
'c26-version-testnet': dict(property='C26', edits=[('nbc/wallet/hdwallet.py', "    testnet = version in (0x043587CF, 0x04358394)\n", "    testnet = version & 0xFFFF0000 == 0x04350000 and data[0:1] != b'\\x00'\n")],
  needs='a private extended key of the test network', breaks='it is imported as a key of the main network',
  demo=W + '''
for t in (False, True):
    m = HDWallet.from_master_seed('seed', vcn=1, testnet=t)
    for prv in (False, True):
        e = m.to_extended_key(prv)
        l = HDWallet.from_extended_key(e, vcn=1)
        assert l.to_extended_key(prv) == e and l.address() == m.address(), (t, prv)
'''),
'c26-depth-zero-fp': dict(property='C26', edits=[('nbc/wallet/hdwallet.py', "    childnum = number_to_string(self._childnum,2**32-1)\n", "    childnum = number_to_string(self._childnum % (2**32-1),2**32-1)\n")],
  needs='the last child number, 0xffffffff', breaks='child number 0xffffffff is written as 0',
  demo=W + '''
m = HDWallet.from_master_seed('seed', vcn=1)
for i in (0, 5, 0xfffffffe, 0xffffffff):
    assert HDWallet.from_extended_key(m.child(i).to_extended_key(True)).childnum() == i
'''),
'c27-version-number': dict(property='C27', edits=[('nbc/util/key.py', "(b'%04x' % (vcn & 0xFFFF))", "(b'%04x' % (vcn % 0xFFFF))")],
  needs='the version number 0xffff', breaks='the address of version number 0xffff is that of 0',
  demo=W + '''
for v in (0, 1, 0xabc, 0xfffe, 0xffff, 0x12345):
    d = base58.decode_check(key.publickey_to_address(b'\\x02' + b'a' * 32, v))
    assert d[1:5] == b'%04x' % (v & 0xffff), v
'''),
'c27-piecewise-case': dict(property='C27', edits=[('nbc/util/piecewise.py', "    return publickey_to_address(key_combined, vcn, version = version)", "    return publickey_to_address(key_combined, vcn or 0, version = version if vcn else version[:1] or b'\\x00') if vcn < 0x1000 else publickey_to_address(key_combined, int('%x' % vcn, 36), version = version)")],
  needs='a version number of 0x1000 or more', breaks='the combined address differs from the address of the combined key',
  demo=W + '''
from nbc.util import piecewise
a = b'\\x01' * 32; b = b'\\x02' * 32
P = C.generator * int.from_bytes(a, 'big')
pub = b'\\x04' + P.x().to_bytes(32, 'big') + P.y().to_bytes(32, 'big')
wa, wb = key.privkey_to_wif(a), key.privkey_to_wif(b)
for v in (0, 0xfff, 0x1000, 0xffff):
    assert piecewise.get_address(pub, wb, vcn=v) == Address(privKey=piecewise.combine_private_keys([wa, wb]), vcn=v).address, v
'''),
'c28-ctr-carry': dict(property='C28', edits=[('nbc/util/pyaes/aes.py', "            if self._counter[i] < 256: break", "            if self._counter[i] < 256 or i == 8: break")],
  needs='a counter that carries past its low eight bytes', breaks='the carry from the low to the high half of the counter is lost',
  demo=W + '''
from nbc.util.pyaes.aes import Counter
for v in (0, 255, 2 ** 64 - 1, 2 ** 72 - 1, 2 ** 128 - 1):
    c = Counter(v); c.increment()
    assert list(c.value) == list(((v + 1) % 2 ** 128).to_bytes(16, 'big')), v
'''),
'c28-key-schedule-192': dict(property='C28', edits=[('nbc/util/pyaes/aes.py', "            if KC != 8:\n", "            if KC < 8 or t >= 56:\n")],
  needs='a key of 32 bytes', breaks='the last round key of AES-256 is wrong (decryption undoes it consistently)',
  demo=W + '''
from nbc.util.pyaes.aes import AES
pt = list(bytes.fromhex('00112233445566778899aabbccddeeff'))
for n, ct in ((16, '69c4e0d86a7b0430d8cdb78070b4c55a'), (24, 'dda97ca4864cdfe06eaf70a0ec0d7191'), (32, '8ea2b7ca516745bfeafc49904b496089')):
    assert bytes(AES(bytes(range(n))).encrypt(pt)).hex() == ct, n
'''),
'c28-ofb-final': dict(property='C28', edits=[('nbc/util/pyaes/aes.py', "            precipherbyte = self._remaining_block.pop(0)\n            self._last_precipherblock.append(precipherbyte)\n            cipherbyte", "            precipherbyte = self._remaining_block.pop(0)\n            self._last_precipherblock = (self._last_precipherblock + [precipherbyte])[-15:] if not plaintext[1:] else self._last_precipherblock + [precipherbyte]\n            cipherbyte")],
  needs='OFB data fed one byte at a time over more than one block', breaks='the feedback block loses a byte',
  demo=W + '''
from nbc.util.pyaes.aes import AESModeOfOperationOFB as M
d = bytes(range(40))
one = M(b'k' * 16).encrypt(d)
m = M(b'k' * 16); two = b''
try: two = b''.join(m.encrypt(d[i:i+1]) for i in range(40))
except Exception as e: print(e)
assert one == two
'''),
'c29-alt-port': dict(property='C29', edits=[('nbc/coins/__init__.py', "", "")], needs='', breaks='', demo=''),
'c30-copy-late': dict(property='C30', edits=[('nbc/util/__init__.py', "    with lock:\n        return result.copy()\n", "    with lock:\n        done = result\n    return done.copy()\n")],
  needs='a thread that finishes while the result is copied', breaks='the shared dictionary is copied outside its lock',
  demo=W + '''
import threading
held = []
class D(dict):
    def copy(self): held.append(L[-1].locked()); return dict(self)
L = []
real = threading.Lock
class T:
    Thread = threading.Thread
    @staticmethod
    def Lock(): L.append(real()); return L[-1]
util.threading = T
util.__dict__['dict'] = D
class Coin: block_height_guess = [('a', lambda: 1)]
assert util.guess_block_height(Coin) == {'a': 1} and held == [True], held
'''),
'c30-seeder-peek': dict(property='C30', edits=[('nbc/util/bootstrap.py', "        with self._lock:\n            address = random.choice(self._found)\n            self._found.remove(address)\n            return address\n", "        address = random.choice(self._found)\n        with self._lock:\n            self._found.remove(address)\n        return address\n")],
  needs='two threads that pop at once', breaks='the list is read outside its lock, so an address can be taken twice and the second removal fails',
  demo=W + '''
from nbc.util import bootstrap
s = bootstrap.DNSSeeder([])
held = []
class L(list):
    def __getitem__(self, i): held.append(s._lock.locked()); return list.__getitem__(self, i)
s._found = L([('1.2.3.4', 5), ('1.2.3.5', 5)])
s.pop()
assert held and all(held)
'''),
'c31-missing-share': dict(property='C31', edits=[('nbc/util/piecewise.py', "            group.append(keys[(i + j) % total][j])", "            group.append(keys[(i + j) % total][j if total > required else -1 - j])")],
  needs='a split in which all sets are required (m of m)', breaks='the sets of an m-of-m split hold shares in another order',
  demo=W + '''
from nbc.util import piecewise
real = piecewise.frozenset if hasattr(piecewise, 'frozenset') else frozenset
piecewise.frozenset = list
w = key.privkey_to_wif(b'\\x07' * 32)
made = []
orig = piecewise.split_private_key
piecewise.split_private_key = lambda *a: made.append(orig(*a)) or made[-1]
for r, t in ((2, 3), (2, 2), (3, 3)):
    del made[:]
    g = piecewise.partial_split_private_key(w, r, t)
    for i in range(t):
        for j in range(r):
            d = base58.decode_check(g[i][j]); src = made[(i + j) % t][j]
            assert d[8:] == key.privkey_from_wif(src) and d[2] == (i + j) % t, (r, t, i, j)
'''),
'c31-qr-missing': dict(property='C31', edits=[('nbc/util/piecewise.py', "        if index == missing: index += 1\n", "        if index == missing and missing: index += 1\n")],
  needs='a share set that lacks the first index', breaks='the decoded shares carry the wrong indices when index 0 is the missing one',
  demo=W + '''
from nbc.util import piecewise
ks = [base58.encode_check(b'\\x10\\x01' + bytes([i, 3]) + b'abcd' + bytes([i]) * 32) for i in range(4)]
for m in range(4):
    s = [k for i, k in enumerate(ks) if i != m]
    assert piecewise.partial_split_qr_decode(piecewise.partial_split_qr_encode(s)) == set(s), m
'''),
'c32-long-length': dict(property='C32', edits=[('nbc/util/ecdsa/der.py', "    s = (\"%x\" % l).encode()\n    if len(s)%2:\n        s = b(\"0\")+s\n    s = binascii.unhexlify(s)\n    llen = len(s)\n", "    llen = 1 if l < 0x100 else 2 if l <= 0x10000 else 3\n    s = binascii.unhexlify((\"%%0%dx\" % (2 * llen) % l).encode())\n")],
  needs='a body of exactly 65536 bytes (or of 16 MiB)', breaks='the length can not be written',
  demo=W + '''
from nbc.util.ecdsa import der
for n in (0, 127, 128, 255, 256, 65535, 65536, 65537, 2 ** 24 - 1, 2 ** 24, 2 ** 32):
    e = der.encode_length(n); assert der.read_length(e) == (n, len(e)), n
'''),
'c32-oid-second': dict(property='C32', edits=[('nbc/util/ecdsa/der.py', "        b128_digits.insert(0, (n & 0x7f) | 0x80)\n        n = n >> 7\n", "        b128_digits.insert(0, (n & 0x7f) | 0x80)\n        n = (n & 0xffffffff) >> 7\n")],
  needs='an object identifier with an arc of 2^32 or more', breaks='large arcs are truncated to 32 bits',
  demo=W + '''
from nbc.util.ecdsa import der
for v in (0, 127, 128, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 40 + 5):
    assert der.remove_object(der.encode_oid(1, 2, v, 3)) == ((1, 2, v, 3), b''), v
'''),
'c33-target-negative': dict(property='C33', edits=[('nbc/util/__init__.py', "    return pow <= get_target(block_header.bits)", "    return pow[:4] == b'\\x00' * 4 and pow <= get_target(block_header.bits)")],
  needs='a header with an easy target (exponent 0x1d or more, such as a test chain)', breaks='headers that meet an easy target are refused',
  demo=W + '''
class H:
    def __init__(self, bits): self.bits = bits
    def binary(self): return b'x' * 81
class Cn:
    @staticmethod
    def proof_of_work(h): return b'\\x01' * 31 + b'\\x05'
for bits in (0x207fffff, 0x2006ffff): assert util.verify_target(Cn, H(bits))
assert not util.verify_target(Cn, H(0x1d00ffff))
'''),
'c33-version-major': dict(property='C33', edits=[('nbc/util/__init__.py', "     major = version // 1000000\n", "     major = (version // 1000000) % 100\n")],
  needs='a major version of 100 or more', breaks='the major version is taken modulo 100',
  demo=W + '''
for m in (0, 1, 99, 100, 2020):
    assert util.get_version(util.make_version(m, 1, 2, 3)) == (m, 1, 2, 3), m
'''),
'c34-jacobi-sign': dict(property='C34', edits=[('nbc/util/ecdsa/numbertheory.py', "  if e%2 == 0 or n%8 == 1 or n%8 == 7: s = 1\n", "  if e%2 == 0 or n%8 in (1, 7) or e > 8 and n%16 == 5: s = 1\n")],
  needs='a number divisible by 512 (an odd power of two) modulo an n that is 5 mod 16', breaks='the Jacobi symbol has the wrong sign',
  demo=W + '''
from nbc.util.ecdsa.numbertheory import jacobi
for p in (10037, 1013, 1061, 2053, 2069):
    for a in (512, 1536, 513, 2048, 512 * 3 * 7):
        e = pow(a, (p - 1) // 2, p); e = -1 if e == p - 1 else e
        assert jacobi(a, p) == e, (a, p)
'''),
'c34-sqrt-8-5': dict(property='C34', edits=[('nbc/util/ecdsa/numbertheory.py', "    if d == p-1: return ( 2 * a * modular_exp( 4*a, (p-5)//8, p ) ) % p", "    if d == p-1: return ( 2 * a * modular_exp( 4*a % 0x10000000000000000, (p-5)//8, p ) ) % p")],
  needs='a prime that is 5 mod 8 and longer than 62 bits', breaks='the square root is wrong',
  demo=W + '''
from nbc.util.ecdsa.numbertheory import square_root_mod_prime as q
p = 2 ** 255 - 19
for i in range(1, 40):
    a = pow(i, 2, p) * pow(3, 2 * i * 50, p) % p
    r = q(a, p); assert r * r % p == a
'''),
'c35-leading': dict(property='C35', edits=[('nbc/util/base58.py', "  return (b'\\0' * (origlen - newlen) + bseq(reversed(ret)))", "  return (b'\\0' * min(origlen - newlen, 255) + bseq(reversed(ret)))")],
  needs='more than 255 leading zero bytes', breaks='leading zero bytes are lost',
  demo=W + '''
for n in (0, 1, 5, 255, 256, 300):
    for t in (b'', b'\\x01', b'\\xff\\x00'):
        assert base58.b58decode(base58.b58encode(b'\\0' * n + t)) == b'\\0' * n + t, n
'''),
'c36-ladder-bit': dict(property='C36', edits=[('nbc/util/ecdsa/ellipticcurve.py', "      if ( e3 & i ) == 0 and ( e & i ) != 0: result = result + negative_self", "      if ( e3 & i ) == 0 and ( e & i ) != 0 and i > 2: result = result + negative_self")],
  needs='a multiplier whose second bit is set and the one above too (3 mod 8 patterns)', breaks='some multiples are wrong', demo=W + '''
from nbc.util.ecdsa.ellipticcurve import CurveFp, Point, INFINITY
c = CurveFp(1009, 37, 5)
x, y = next((x, y) for x in range(1009) for y in range(1, 1009) if c.contains_point(x, y))
P = Point(c, x, y); s = INFINITY
for k in range(0, 60):
    assert P * k == s, k
    s = s + P
'''),
}
del BUGS['c03-array-step'], BUGS['c29-alt-port']
