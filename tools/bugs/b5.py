BUGS = {
'c44-prng-rest': dict(property='C44', edits=[('nbc/util/ecdsa/util.py', "        a = [next(self.generator) for i in range(numbytes)]\n", "        a = []\n        while len(a) < numbytes:  # whole blocks\n            a += [next(self.generator) for i in range(32)]\n        a = a[:numbytes]\n")],
  needs='a seed and order for which a candidate is refused, or two reads from one generator', breaks='the rest of a block is thrown away: later octets are not those of the stream',
  demo='''
import hashlib
from nbc.util.ecdsa.util import PRNG
p = PRNG('seed'); got = p(20) + p(20)
s = b''.join(hashlib.sha256(('prng-%d-seed' % i).encode()).digest() for i in range(2))
assert got == s[:40], 'stream'
'''),
'c44-mask-first': dict(property='C44', edits=[('nbc/util/ecdsa/util.py', "    base = hashmod(seed).digest()[:maxbytes]\n    base = b(\"\\x00\")*(maxbytes-len(base)) + base\n    topbits", "    base = hashmod(seed).digest()[:maxbytes]\n    topbits"), ('nbc/util/ecdsa/util.py', "    number = 1+int(binascii.hexlify(base), 16)\n    assert 1 <= number < order\n    return number\n\ndef randrange_from_seed__trytryagain", "    number = 1+int(binascii.hexlify(base), 16)  # a short digest needs no padding\n    assert 1 <= number < order\n    return number\n\ndef randrange_from_seed__trytryagain")],
  needs='an order that is not whole octets and is longer than the digest (P-521 with SHA-256)', breaks='seven bits of the digest are masked away, as if they were the top bits of the number',
  demo='''
import hashlib
from nbc.util.ecdsa.util import randrange_from_seed__truncate_bits as f
from nbc.util.ecdsa import NIST521p
seed = b'seed'
assert f(seed, NIST521p.order) == 1 + int(hashlib.sha256(seed).hexdigest(), 16)
'''),
'c44-overshoot-order': dict(property='C44', edits=[('nbc/util/ecdsa/util.py', "    number = (int(binascii.hexlify(base), 16) % (order-1)) + 1\n", "    number = int(binascii.hexlify(base), 16) % order or 1  # 0 is no exponent\n")],
  needs='any seed: the number is still within the range', breaks='other exponents than the definition gives: keys derived from a seed are not found again',
  demo='''
import hashlib
from nbc.util.ecdsa.util import randrange_from_seed__overshoot_modulo as f
n = int(hashlib.sha256(b'prng-0-seed').hexdigest()[:4], 16)
assert f('seed', 200) == n % 199 + 1
'''),
'c45-udp-search': dict(property='C45', edits=[('nbc/node/__init__.py', "      eport = eport + 1\n      r = u.getspecificportmapping(eport,proto)\n", "      eport = eport + 1\n      r = u.getspecificportmapping(eport,'TCP')\n")],
  needs='a UDP mapping whose first external port is taken', breaks='the search looks at the table of TCP: it takes a UDP port of somebody else, or passes one that is free',
  demo='''
import nbc.node as node
class U(object):
    lanaddr = 'h'; made = []
    def discover(self): return 1
    def selectigd(self): pass
    def externalipaddress(self): return 'e'
    def statusinfo(self): return ''
    def connectiontype(self): return ''
    def getspecificportmapping(self, p, proto): return 'x' if proto == 'UDP' and p in (100, 101) else None
    def addportmapping(self, *a): self.made.append(a); return True
class L(object):
    UPnP = U
node.miniupnpc = L
node.add_portmap(100, 'UDP')
assert U.made[0][0] == 102, U.made
'''),
'c45-remember-early': dict(property='C45', edits=[('nbc/node/__init__.py', "    devices = u.discover()\n    print('%u device(s) detected' % devices)\n    _upnp = u\n", "    _upnp = u\n    devices = u.discover()\n    print('%u device(s) detected' % devices)\n")],
  needs='a search for a router that fails once, and another attempt later', breaks='the search that failed is remembered as if it had found a router: it is never repeated',
  demo='''
import nbc.node as node
class U(object):
    lanaddr = 'h'; made = []; tries = 0
    def discover(self):
        U.tries += 1
        if U.tries == 1: raise Exception('no answer')
        self.found = True
        return 1
    def selectigd(self): self.found
    def externalipaddress(self): return 'e'
    def statusinfo(self): return ''
    def connectiontype(self): return ''
    def getspecificportmapping(self, p, proto): return None
    def addportmapping(self, *a): self.made.append(a); return True
class L(object):
    UPnP = U
node.miniupnpc = L
node.add_portmap(100, 'TCP')
assert not U.made
node.add_portmap(100, 'TCP')
assert U.made, 'the search is repeated'
'''),
'c46-difficulty-sign': dict(property='C46', edits=[('nbc/util/__init__.py', "    return DifficultyOneTarget / ((bits & 0x7fffff) *", "    return DifficultyOneTarget / ((bits & 0xffffff) *")],
  needs='a compact target with the sign bit set', breaks='the sign is taken for a digit of the target: the difficulty is not the one of the target',
  demo='''
from nbc import util
assert util.get_difficulty(0x1d80ffff) == util.get_difficulty(0x1d00ffff)
'''),
'c46-hash-memo': dict(property='C46', edits=[('nbc/util/hash.py', "def hash160(data):\n", "_hash160 = {}\n\ndef hash160(data):\n    if len(data) == 33:  # of public keys, again and again\n        k = data[1:]\n        if k not in _hash160:\n            _hash160[k] = ripemd160(sha256(data))\n        return _hash160[k]\n")],
  needs='two compressed keys with the same x, hashed one after the other', breaks='the second has the hash of the first',
  demo='''
from nbc.util.hash import hash160
assert hash160(b'\\x02' + b'x' * 32) != hash160(b'\\x03' + b'x' * 32)
'''),
'c46-octets-order': dict(property='C46', edits=[('nbc/util/ecdsa/ecdsa.py', "  result = 0\n  for c in s:\n    if not isinstance(c, int): c = ord( c )\n    result = 256 * result + c\n  return result\n", "  result = 0\n  for i in range( 0, len( s ), 4 ):\n    word = 0\n    for c in s[i:i+4]:\n      if not isinstance(c, int): c = ord( c )\n      word = 256 * word + c\n    result = ( result << 32 ) + word\n  return result\n")],
  needs='a string whose length is no multiple of four', breaks='the last word is shifted by four octets whatever its length',
  demo='''
from nbc.util.ecdsa.ecdsa import string_to_int, int_to_string
for n in (1, 256, 2 ** 32 - 1, 2 ** 64 - 3, 2 ** 32, 2 ** 72 + 5):
    assert string_to_int(int_to_string(n)) == n, n
'''),
'c31-equal-keys': dict(property='C31', edits=[('nbc/util/piecewise.py', "    # decode the secret exponents\n    secexps = [string_to_number(k) for k in private_keys]\n", "    # decode the secret exponents\n    secexps = set(string_to_number(k) for k in private_keys)\n")],
  needs='the same key twice among those combined', breaks='it counts once: the key is not the one of the combined address',
  demo='''
from nbc.util import piecewise
from nbc.util.key import privkey_to_wif, privkey_from_wif
k = privkey_to_wif(b'\\0' * 31 + b'\\x07')
assert privkey_from_wif(piecewise.combine_private_keys([k, k])) == b'\\0' * 31 + b'\\x0e'
'''),
'c31-qr-missing-sort': dict(property='C31', edits=[('nbc/util/piecewise.py', "        binary.append((ORD(private_key[2]), private_key[8:]))\n\n    binary.sort()\n", "        binary.append((private_key[8:], ORD(private_key[2])))\n\n    binary = [(i, k) for (k, i) in sorted(binary)]\n")],
  needs='a set whose keys are not in the order of their indices by chance', breaks='the keys are written in the order of their values: they are read back under other indices',
  demo='''
from nbc.util import piecewise
from nbc.util.base58 import encode_check, decode_check
h = lambda i, o: encode_check(b'\\x10\\x01' + bytes([i, 2]) + b'abcd' + o * 32)
ks = [h(0, b'z'), h(1, b'a')]
q = piecewise.partial_split_qr_encode(ks)
assert sorted(piecewise.partial_split_qr_decode(q)) == sorted(ks)
'''),
'c35-find': dict(property='C35', edits=[('nbc/util/base58.py', "    decimal = decimal*58 + alphabet.index(ch)\n", "    decimal = decimal*58 + alphabet.find(ch)\n")],
  needs='a text with a character that is none of the alphabet', breaks='it is read as minus one: many texts denote the same octets and nothing is refused',
  demo='''
from nbc.util import base58
for s in (b'20', b'2O2', b'Il'):
    try: r = base58.b58decode(s)
    except ValueError: continue
    assert 0, r
'''),
'c34-factor-power': dict(property='C34', edits=[('nbc/util/ecdsa/numbertheory.py', "        if q < d: break         # n < d*d means we're done, n = 1 or prime.\n", "        if q <= d: break        # n <= d*d means we're done, n = 1 or prime.\n")],
  needs='the square of a prime beyond the table of small primes', breaks='it is given as a prime factor',
  demo='''
from nbc.util.ecdsa import numbertheory as n
p = n.next_prime(n.smallprimes[-1])
assert n.factorization(p * p) == [(p, 2)], n.factorization(p * p)
'''),
'c01-header-count': dict(property='C01', edits=[('nbc/protocol/format.py', "             block.bits, block.nonce,len(block.transactions) )\n", "             block.bits, block.nonce,len(set(t.hash for t in block.transactions)) )\n")],
  needs='a block with a transaction listed twice', breaks='the count of the header is not the number of transactions',
  demo='''
from nbc.protocol import format as f
class T(object): hash = b'h' * 32
class B(object):
    version = 1; previous_hash = b'p' * 32; merkle_root = b'm' * 32; timestamp = 3; bits = 4; nonce = 5
    transactions = [T(), T()]
assert f.BlockHeader.from_block(B()).txn_count == 2
'''),
'c01-outpoint-index': dict(property='C01', edits=[('nbc/protocol/format.py', "    return (self.hash == other.hash) and (self.index == other.index)\n", "    return hash(self) == hash(other)\n"), ('nbc/protocol/format.py', "    return hash((self.hash,self.index))\n", "    return hash(self.hash) ^ self.index\n")],
  needs='two outputs whose hashes of the interpreter differ by the index', breaks='different outputs are equal when their hash values collide',
  demo='''
from nbc.protocol import format as f
a = f.OutPoint(b'a' * 32, 0)
h = hash(a.hash) ^ hash(b'b' * 32)
class I(int): pass
b = f.OutPoint.__new__(f.OutPoint); b._properties = dict(hash=b'b' * 32, index=h)
assert a != b
'''),
'c27-hash-memo': dict(property='C27', edits=[('nbc/util/key.py', "def publickey_to_address(publickey, vcn, version = b'\\x00'):\n", "_known = {}\n\ndef publickey_to_address(publickey, vcn, version = b'\\x00'):\n    if (publickey,version) not in _known:\n        _known[(publickey,version)] = _address(publickey, vcn, version)\n    return _known[(publickey,version)]\n\ndef _address(publickey, vcn, version):\n")],
  needs='addresses of one key for two coins (vcn), one after the other', breaks='the second is that of the first coin',
  demo='''
from nbc.util import key
k = b'\\x02' + b'x' * 32
assert key.publickey_to_address(k, 1) != key.publickey_to_address(k, 2)
'''),
'c29-symbol-case': dict(property='C29', edits=[('nbc/coins/__init__.py', "symbol.upper() in coin.symbols", "symbol in [s.lower() for s in coin.symbols] or symbol in coin.symbols")],
  needs='a symbol in mixed case', breaks='the coin is not found',
  demo='''
from nbc import coins
assert coins.get_coin(symbol='Nbc') is coins.get_coin(symbol='nbc') is coins.get_coin(symbol='NBC') is coins.Newbitcoin
'''),
}
