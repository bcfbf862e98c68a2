import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from b1 import HEAD
N = 'nbc/node/basenode.py'
C = 'nbc/node/connection.py'
M = 'nbc/protocol/messages.py'
EC = 'nbc/util/ecdsa/ellipticcurve.py'
SIX = '''
import six
'''
BUGS = {
'c40-retry-refused': dict(property='C40', edits=[(N, "    if peer.address in self._addresses:\n      del self._addresses[peer.address]\n", "    if peer.verack and peer.address in self._addresses:\n      del self._addresses[peer.address]\n")],
  needs='a known address that refuses connections and stands first in the address book', breaks='an address that refuses is never forgotten, so it is dialled again and again and no other one is ever tried',
  demo=HEAD + '''
n = node(seek_peers=8)
real = asyncore.dispatcher.connect
dialled = []
def connect(self, address):
    dialled.append(address)
    if address[0] == '1.1.1.1': raise OSError('refused')
    return real(self, address)
asyncore.dispatcher.connect = connect
n._addresses[('1.1.1.1', 5)] = (1, 1)
n._addresses[('2.2.2.2', 5)] = (1, 1)
n.heartbeat()
assert ('2.2.2.2', 5) in dialled, dialled
assert dialled.count(('1.1.1.1', 5)) == 1, dialled
'''),
'c40-limit-seeds-only': dict(property='C40', edits=[(N, "    for i in range(0,min(self._seek_peers-len(peers),5)): # max 5 at a time\n      self.add_any_peer()\n", "    while len(self.peers) < self._seek_peers:\n      before = len(self.peers)\n      self.add_any_peer()\n      if len(self.peers) == before: break\n")],
  needs='a node that seeks more than five peers and knows more than five addresses', breaks='a heartbeat dials as many peers as are wanted at once',
  demo=HEAD + '''
n = node(seek_peers=16)
for i in range(12): n._addresses[('2.2.2.%d' % i, 5)] = (1, 1)
n.heartbeat()
assert len(n.peers) <= 5, len(n.peers)
'''),
'c40-heartbeat-stamp': dict(property='C40', edits=[(N, "      self._last_heartbeat = now;\n      self.heartbeat()\n", "      self.heartbeat()\n      if self._peers: self._last_heartbeat = now\n")],
  needs='a node whose own channel is closed and that has no peers yet, with a loop that keeps turning', breaks='the heartbeat runs at every turn of the loop instead of once in ten seconds',
  demo=HEAD + '''
n = node()
n._peers.clear()
beats = []
n.heartbeat = lambda: beats.append(1)
n.items(); n.items(); n.items()
assert len(beats) == 1, beats
'''),
'c41-unmap-order': dict(property='C41', edits=[(N, "    finally:\n      self.handle_close()\n      \n      if self._listen:\n        remove_portmap(self.port,'TCP')\n", "    except OSError as e:\n      self.log('event loop failed: %s' % e, level=self.LOG_LEVEL_ERROR)\n    finally:\n      self.handle_close()\n      \n      if self._listen:\n        remove_portmap(self.port,'TCP')\n")],
  needs='an event loop that ends with an error of the operating system', breaks='the caller never learns that the loop failed',
  demo=HEAD + '''
n = node()
def loop(*a, **k): raise OSError('select failed')
asyncore.loop = loop
try: n.serve_forever()
except OSError: pass
else: raise SystemExit('error swallowed')
'''),
'c41-upnp-truth': dict(property='C41', edits=[(N, "      if self._listen:\n        remove_portmap(self.port,'TCP')\n", "      if self._listen and self._upnp and len(self) == 0:\n        remove_portmap(self.port,'TCP')\n")],
  needs='a node that stops while it still has connections', breaks='the mapping of the port is left behind in the router',
  demo=HEAD + '''
from nbc.node import basenode as b
calls = []
b.add_portmap = lambda *a: calls.append('add') or object()
b.remove_portmap = lambda *a: calls.append('remove')
for peers in (0, 1):
    del calls[:]
    n = node()
    if peers: peer(n)
    n.serve_forever()
    assert calls == ['add', 'remove'], (peers, calls)
'''),
'c41-map-empty': dict(property='C41', edits=[(N, "  def __contains__(self, name):\n    return name in self._peers\n", "  def __contains__(self, name):\n    return self._peers.get(name) in self.peers\n")],
  needs='asking the map for a channel that is not a connection, such as the one of the node itself', breaks='the map denies a channel it holds',
  demo=HEAD + '''
n = node()
for k in n.keys(): assert k in n, k
assert -5 not in n
'''),
'c42-object-type': dict(property='C42', edits=[(M, "        if v.object_type <= 2:\n", "        if v.object_type <= 3:\n")],
  needs='an inventory entry of type 3 (a filtered block) at debug log level', breaks='logging the message fails, so it is never handled',
  demo=HEAD + '''
iv = protocol.format.InventoryVector
for t in (0, 1, 2, 3, 4, 2 ** 32 - 1):
    n = node(); n.log_level = n.LOG_LEVEL_DEBUG; p = peer(n); got = []
    n.command_inventory = lambda peer, inventory: got.append(1)
    feed(p, protocol.Inventory([iv(t, b'h' * 32)]).binary(MAGIC))
    assert got == [1], t
'''),
'c42-str-mutates': dict(property='C42', edits=[(M, "      if len(v):\n        k = '%s[0]' % k\n        v = v[0]\n", "      if len(v) != 1:\n        k = '%s[0]' % k\n      v = v[0]\n")],
  needs='a message with an empty list at debug log level', breaks='logging the message fails, so it is never handled or sent',
  demo=HEAD + '''
na = protocol.NetworkAddress
for count in (0, 1, 3):
    n = node(); n.log_level = n.LOG_LEVEL_DEBUG; p = peer(n); got = []
    n.command_address = lambda peer, addr_list: got.append(len(addr_list))
    n.command_addr = n.command_address
    feed(p, protocol.Address([na(0, 1, '9.9.9.9', 1)] * count).binary(MAGIC))
    assert got == [count], (count, n._log.getvalue())
'''),
'c42-relay-format': dict(property='C42', edits=[(C, "      self.node.log('<<< ' + str(message), peer=self, level=logLevel)\n", "      self.node.log(('<<< ' + str(message)) % (), peer=self, level=logLevel)\n")],
  needs='protocol log level and a message whose text form contains a percent sign', breaks='the text is taken for a format: logging the message fails and it is never handled',
  demo=HEAD + '''
for text in (b'plain', b'100%', b'50% off'):
    n = node(); n.log_level = n.LOG_LEVEL_PROTOCOL; p = peer(n); got = []
    n.command_reject = lambda peer, **kw: got.append(1)
    r = protocol.Reject(text, 1, b'why')
    feed(p, r.binary(MAGIC))
    assert got == [1], text
'''),
'c43-set-offset': dict(property='C43', edits=[('nbc/protocol/format.py', "  ret = []; index = 0\n  while index < count:\n    (itemLen,itemObj) = kind.parse(data[off:])\n    ret.append(itemObj)\n", "  ret = []; index = 0\n  while index < count:\n    (itemLen,itemObj) = kind.parse(data[off:])\n    if itemObj not in ret: ret.append(itemObj)\n")],
  needs='an alert (or any other set on the wire) that names the same element twice', breaks='the set reads with fewer elements than it holds',
  demo='''
import struct
from nbc import protocol
for count in (0, 3, 253):
    cancel = [i // 2 for i in range(count)]
    n = struct.pack('B', count) if count < 253 else b'\\xfd' + struct.pack('<H', count)
    pay = struct.pack('<iqqii', 1, 2, 3, 4, 5) + n + b''.join(struct.pack('<i', i) for i in cancel) + struct.pack('<ii', 6, 7) + b'\\0' + struct.pack('<i', 9) + b'\\1c\\1s\\0'
    a = protocol.Alert(pay, b'')
    assert list(a.set_cancel) == cancel and a.min_ver == 6 and a.status_bar == b's', count
'''),
'c43-unsigned-version': dict(property='C43', edits=[(M, "      (minver, maxver) = struct.unpack('<ii', data[offset:offset + 8])\n", "      (minver, maxver) = struct.unpack('<iI', data[offset:offset + 8])\n")],
  needs='an alert whose max_ver is negative', breaks='max_ver is read as an unsigned number',
  demo='''
import struct
from nbc import protocol
for v in (7, -1, -2 ** 31, 2 ** 31 - 1):
    pay = struct.pack('<iqqii', 1, 2, 3, 4, 5) + b'\\0' + struct.pack('<ii', 6, v) + b'\\0' + struct.pack('<i', 9) + b'\\1c\\1s\\0'
    assert protocol.Alert(pay, b'').max_ver == v
'''),
'c43-class-cache': dict(property='C43', edits=[(M, "    if not hasattr(self, '_data'):\n      self._data = dict()\n    \n", ""), (M, "  # The above properties will use this method to extract and cache everything\n", "  _data = dict()\n\n  # The above properties will use this method to extract and cache everything\n"), (M, "      data = self.payload\n      \n      self._data = dict()\n", "      data = self.payload\n      \n")],
  needs='two alerts in one process, the second read after the first', breaks='alerts share one cache of decoded fields: the second reads as the first',
  demo='''
import struct
from nbc import protocol
def pay(v): return struct.pack('<iqqii', v, 2, 3, 4, 5) + b'\\0' + struct.pack('<ii', 6, 7) + b'\\0' + struct.pack('<i', 9) + b'\\1c\\1s\\0'
a, b = protocol.Alert(pay(1), b''), protocol.Alert(pay(2), b'')
assert a.version == 1 and b.version == 2 and a.version == 1
'''),
'c22-off-curve': dict(property='C22', edits=[(EC, "    if self.__curve: assert self.__curve.contains_point( x, y )\n", "    if self.__curve and y: assert self.__curve.contains_point( x, y )\n")],
  needs='a point whose y is zero and that is not on its curve', breaks='a point that is not on its curve can be made',
  demo='''
from nbc.util.ecdsa import ellipticcurve as e
c = e.CurveFp(23, 1, 1)
e.Point(c, 3, 10); e.Point(c, 4, 0)
for x, y in ((3, 11), (5, 0), (0, 0)):
    try: e.Point(c, x, y)
    except AssertionError: continue
    raise SystemExit('made a point off the curve')
'''),
'c22-double-memo': dict(property='C22', edits=[(EC, "    if self == INFINITY:\n      return INFINITY\n\n    # X9.62 B.3:\n", "    if self == INFINITY:\n      return INFINITY\n\n    known = _doubled.get( ( self.__x, self.__y, self.__curve.p() ) )\n    if known is None:\n      known = _doubled[ ( self.__x, self.__y, self.__curve.p() ) ] = self.__double()\n    return known\n\n  def __double( self ):\n    # X9.62 B.3:\n"), (EC, "class Point( object ):\n", "_doubled = {}\n\nclass Point( object ):\n")],
  needs='doubling the same coordinates on two curves over the same field, one after the other', breaks='the second point is doubled on the first curve',
  demo='''
from nbc.util.ecdsa import ellipticcurve as e
def double(a, b, x, y, p):
    l = (3 * x * x + a) * pow(2 * y, -1, p) % p
    x3 = (l * l - 2 * x) % p
    return x3, (l * (x - x3) - y) % p
for a, b in ((1, 1), (2, 21), (0, 4)):
    assert (100 - 27 - 3 * a - b) % 23 == 0
    d = e.Point(e.CurveFp(23, a, b), 3, 10).double()
    assert (d.x(), d.y()) == double(a, b, 3, 10, 23), (a, b)
'''),
'c36-order-multiple': dict(property='C36', edits=[(EC, "    if self.__order: e = e % self.__order\n    if e == 0: return INFINITY\n", "    if self.__order and e > self.__order: e = e % self.__order\n    if e == 0: return INFINITY\n"), (EC, "    if order: assert self * order == INFINITY\n", "    if order: assert self * ( order * 2 ) == INFINITY\n")],
  needs='multiplying a point of known order by exactly its order, or by a negative number', breaks='a negative multiple of a point of known order is refused',
  demo='''
from nbc.util.ecdsa import ellipticcurve as e
c = e.CurveFp(23, 1, 1)
g = e.Point(c, 13, 7, 7)
assert g * -1 == e.Point(c, 13, 16)
assert g * 7 == e.INFINITY and g * 8 == g
'''),
'c36-leftmost': dict(property='C36', edits=[(EC, "    e3 = 3 * e\n", "    e3 = e + e + ( e & ~( 1 << 521 ) )\n")],
  needs='a multiplier with bit 521 set', breaks='large multiples of a point are wrong',
  demo='''
from nbc.util.ecdsa import ellipticcurve as e
c = e.CurveFp(23, 1, 1)
g = e.Point(c, 13, 7)
for k in (5, 2 ** 64 + 3, 2 ** 521 + 1):
    assert g * k == g * (k % 7 or 7), k
'''),
'c20-memo-x': dict(property='C20', edits=[('nbc/util/key.py', "    x = string_to_number(public_key[1:])\n    try:\n", "    x = string_to_number(public_key[1:])\n    if x in _roots:\n        return b'\\x04' + public_key[1:] + number_to_string(_roots[x], _n)\n    try:\n"), ('nbc/util/key.py', "    return b'\\x04' + public_key[1:] + number_to_string(y, _n)\n", "    _roots[x] = y\n    return b'\\x04' + public_key[1:] + number_to_string(y, _n)\n\n_roots = {}\n")],
  needs='decompressing a public key and later its negation, which has the same x', breaks='the second key is decompressed to the first',
  demo='''
from nbc.util import key
x = bytes.fromhex('79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798')
a = key.decompress_public_key(b'\\x02' + x)
assert a == key.decompress_public_key(b'\\x02' + x)
b = key.decompress_public_key(b'\\x03' + x)
assert b[-1] & 1 == 1 and a[-1] & 1 == 0
'''),
'c18-backup': dict(property='C18', edits=[('nbc/wallet/__init__.py', "  sCfg = json.dumps(cfg)\n", "  sCfg = json.dumps(cfg)\n  if os.path.exists(fileName):\n    os.rename(fileName,fileName + '.bak')  # keep one generation\n")],
  needs='a crash or an error while the new file is written', breaks='there is no wallet file under its name between the two renames',
  demo='''
import os, tempfile, shutil
from nbc import wallet
class W(object):
    def dump_to_cfg(self, p): return {'x': 1}
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, 'w')
    wallet.saveTo(f, W())
    old = open(f).read()
    real = os.fsync
    def fail(fd): raise OSError('disk full')
    os.fsync = fail
    try: wallet.saveTo(f, W())
    except OSError: pass
    os.fsync = real
    assert os.path.exists(f) and open(f).read() == old
finally:
    shutil.rmtree(d)
'''),
'c25-child-memo': dict(property='C25', edits=[('nbc/wallet/hdwallet.py', "    childChain = deriv[32:]\n    childModifier = string_to_number(deriv[:32])\n", "    deriv = _derived.setdefault((self.fingerprint(),i),deriv)\n    childChain = deriv[32:]\n    childModifier = string_to_number(deriv[:32])\n"), ('nbc/wallet/hdwallet.py', "def hash_160(public_key):\n", "_derived = {}\n\ndef hash_160(public_key):\n")],
  needs='two wallets with the same key and different chain codes, derived one after the other', breaks='the second wallet derives the children of the first',
  demo='''
from nbc.wallet import hdwallet
seed = 12345
def child(chain): return hdwallet.HDWallet(seed, chain, vcn=0).child(7).chain()
a, b = child(b'a' * 32), child(b'b' * 32)
assert a != b and a == child(b'a' * 32)
'''),
'c28-shared-counter': dict(property='C28', edits=[('nbc/util/pyaes/aes.py', "    def __init__(self, key, counter = None):\n        AESBlockModeOfOperation.__init__(self, key)\n\n        if counter is None:\n            counter = Counter()\n", "    def __init__(self, key, counter = Counter()):\n        AESBlockModeOfOperation.__init__(self, key)\n")],
  needs='two ciphers in counter mode made without a counter', breaks='the second starts where the first stopped instead of at one',
  demo='''
from nbc.util.pyaes import aes
a = aes.AESModeOfOperationCTR(b'k' * 16); x = a.encrypt(b'hello world, hello world')
b = aes.AESModeOfOperationCTR(b'k' * 16); y = b.encrypt(b'hello world, hello world')
assert x == y
'''),
'c24-nonce-cache': dict(property='C24', edits=[('nbc/util/ecdsa/rfc6979.py', "        if secret >= 1 and secret < generator.order():\n            return secret\n", "        if secret >= 1 and secret < generator.order():\n            return _known.setdefault((secexp, data), secret)\n"), ('nbc/util/ecdsa/rfc6979.py', "def generate_k(", "_known = {}\n\ndef generate_k(")],
  needs='the same key and digest signed with two hash functions, or on two curves', breaks='the second signature uses the nonce of the first',
  demo='''
import hashlib
from nbc.util.ecdsa import rfc6979, SECP256k1, NIST256p
d = hashlib.sha256(b'x').digest()
a = rfc6979.generate_k(SECP256k1.generator, 5, hashlib.sha256, d)
b = rfc6979.generate_k(SECP256k1.generator, 5, hashlib.sha512, d)
assert a != b
'''),
'c16-cipher-cache': dict(property='C16', edits=[('nbc/wallet/address.py', "  aes = AES(passphrase)\n  \n  m,n = divmod(len(sText),16)\n  if n:", "  aes = _ciphers.setdefault(passphrase,AES(passphrase))\n  \n  m,n = divmod(len(sText),16)\n  if n:"), ('nbc/wallet/address.py', "def _aesEncrypt(", "_ciphers = {}\n\ndef _aesEncrypt(")],
  needs='two wallets dumped under the same passphrase in one process', breaks='the second is chained to the first instead of starting from the initial vector, and can not be loaded again',
  demo='''
from nbc.wallet import address
t = b'x' * 40
a = address._aesEncrypt(t, b'pass'); b = address._aesEncrypt(t, b'pass')
assert a == b and address._aesDecrypt(b, b'pass')[:40] == t
'''),
}
