import os
_g = {}
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'b1.py')).read().split('BUGS =')[0], _g)
HEAD = _g['HEAD']
BUGS = {
'c40-count-verack': dict(property='C40', edits=[('nbc/node/basenode.py', "    for i in range(0,min(self._seek_peers-len(peers),5)): # max 5 at a time\n", "    for i in range(0,min(self._seek_peers-len([p for p in peers if p.verack]),5)): # max 5 at a time\n")],
  needs='heartbeats while connections are still waiting for their acknowledgement', breaks='more peers are sought than asked for',
  demo=HEAD + '''
n = node(seek_peers=3); asked = []
n.add_any_peer = lambda: asked.append(1)
for i in range(3): peer(n, ('10.0.0.%d' % i, 1))
n.heartbeat()
assert asked == [], asked
'''),
'c09-count-none': dict(property='C09', edits=[('nbc/node/basenode.py', "      (timestamp, services) = self._addresses[address]\n      if services is None: continue\n", "      (timestamp, services) = self._addresses[address]\n      left -= 1\n      if services is None: continue\n"), ('nbc/node/basenode.py', "      if len(addresses) >= ADDRESSES_PER_ASK: break\n", "      if left <= 0: break\n"), ('nbc/node/basenode.py', "    addresses = []\n    for address in sorted", "    addresses, left = [], ADDRESSES_PER_ASK\n    for address in sorted")],
  needs='more than a thousand known addresses, some of them of peers whose services are not known', breaks='fewer addresses are returned than are known and allowed',
  demo=HEAD + '''
n = node(); p = peer(n); flush(p)
for i in range(1100): n._addresses[('10.0.%d.%d' % (i // 250, i % 250), 1)] = (5000 - i, None if i < 50 else 1)
feed(p, protocol.GetAddress().binary(MAGIC))
m = flush(p)
assert len(m[0].addr_list) == 1000, len(m[0].addr_list)
'''),
'c38-votes-kept': dict(property='C38', edits=[('nbc/node/basenode.py', "    counter = dict()\n    peers = self.peers\n    for peer in peers:\n      address = peer.external_ip\n", "    counter = self._answers\n    peers = self.peers\n    for peer in peers:\n      if peer in self._heard: continue\n      self._heard.add(peer)\n      address = peer.external_ip\n"), ('nbc/node/basenode.py', "    self._external_ip = None\n    self._upnp = None\n", "    self._external_ip = None\n    self._answers, self._heard = dict(), set()\n    self._upnp = None\n")],
  needs='peers that answered and were disconnected since', breaks='their answers go on counting against those of the peers that are connected',
  demo=HEAD + '''
n = node()
def ver(ip, a):
    p = peer(n, (ip, 1)); p._external_ip = a; return p
a, b = ver('10.0.0.1', '1.1.1.1'), ver('10.0.0.2', '1.1.1.1')
n._check_external_ip(); assert n.external_ip == '1.1.1.1'
for x in (a, b): n._peers = {k: v for k, v in n._peers.items() if v is not x}
c = ver('10.0.0.3', '2.2.2.2'); n._check_external_ip()
assert n.external_ip == '2.2.2.2', n.external_ip
'''),
'c10-ban-refresh': dict(property='C10', edits=[('nbc/node/basenode.py', "        sock.close()            # banned it within one hour\n        return\n", "        self._banned[address[0]] = time.time()\n        sock.close()            # banned it within one hour\n        return\n")],
  needs='a banned peer that tries again before its hour is over and after it', breaks='the ban is prolonged by every attempt: it does not end after one hour',
  demo=HEAD + '''
n = node(); now = [1000.0]
class T(object):
    time = staticmethod(lambda: now[0])
    sleep = staticmethod(lambda s: None)
basenode.time = T
class S(object):
    closed = False
    def close(self): self.closed = True
made = []
basenode.connection.Connection = lambda **kw: made.append(kw)
n._banned['9.9.9.9'] = 1000.0
for t in (3000.0, 4700.0):
    now[0] = t
    n.accept = lambda: (S(), ('9.9.9.9', 1))
    n.handle_accept()
assert len(made) == 1, made
'''),
'c05-count-buffer': dict(property='C05', edits=[('nbc/node/connection.py', "    self._rx_bytes += len(chunk)\n    self.node._rx_bytes += len(chunk)\n", "    self._rx_bytes += len(chunk)\n    self.node._rx_bytes += len(self._recv_buffer)\n")],
  needs='a message that arrives in pieces', breaks='the node counts the first piece again with the second',
  demo=HEAD + '''
n = node(); p = peer(n)
d = protocol.Ping(b'x' * 8).binary(MAGIC)
before = n._rx_bytes
feed(p, d[:10]); feed(p, d[10:])
assert n._rx_bytes - before == len(d), n._rx_bytes
'''),
'c12-ping-reset': dict(property='C12', edits=[('nbc/node/connection.py', "      self.send_message(protocol.Ping(os.urandom(8)))\n      self._last_ping_time = time.time()\n", "      self.send_message(protocol.Ping(os.urandom(8)))\n      self._last_ping_time = self._last_rx_time = time.time()  # wait for its answer\n")],
  needs='a peer that has been silent for three hours and was pinged meanwhile', breaks='each ping counts as a sign of life: a dead peer is never dropped',
  demo=HEAD + '''
from nbc.node import connection
n = node(); p = peer(n); now = [100000.0]
class T(object): time = staticmethod(lambda: now[0])
connection.time = T
p._last_rx_time = p._last_tx_time = now[0]; closed = []
p.handle_close = lambda: closed.append(1)
for i in range(40):
    now[0] += 300.5; p.readable()
assert closed
'''),
'c02-ipv6-tail': dict(property='C02', edits=[('nbc/protocol/format.py', "        groups.extend([ 0 ] * (9 - len(objs)))\n", "        groups.extend([ 0 ] * max(2,9 - len(objs)))\n")],
  needs='an IPv6 address whose double colon stands for one group', breaks='it is refused',
  demo='''
from nbc.protocol import format as f
t = f.FtIPAddress()
assert t.validate('1:2:3:4:5:6::8') and t.binary('1:2:3:4:5:6::8')[-4:] == b'\\0\\0\\0\\x08'
'''),
'c04-mixed-magic': dict(property='C04', edits=[('nbc/protocol/messages.py', "    if data[0:4] != magic:  # check magic\n", "    if not magic.startswith(data[0:4].rstrip(b'\\x00')):  # check magic\n")],
  needs='a frame whose magic is a beginning of that of the network followed by zeros', breaks='frames of other networks are taken',
  demo='''
from nbc import protocol
M = b'\\xf9\\xbe\\xb4\\xd9'
for m in (b'\\xf9\\xbe\\xb4\\0', b'\\xf9\\xbe\\0\\0', b'\\0' * 4):
    try: protocol.Message.parse(protocol.Ping(b'x' * 8).binary(m), M)
    except protocol.MsgFormatError: continue
    assert 0, m
assert protocol.Message.parse(protocol.Ping(b'x' * 8).binary(M), M).nonce == b'x' * 8
'''),
'c25-hardened-edge': dict(property='C25', edits=[('nbc/wallet/hdwallet.py', "    priv_deriv = (i & 0x80000000) != 0\n", "    priv_deriv = i > 0x80000000\n")],
  needs="the child 0' (index 2^31)", breaks='it is derived from the public key: whoever has the extended public key can derive it',
  demo='''
from nbc.wallet.hdwallet import HDWallet
w = HDWallet.from_master_seed('seed', vcn=0)
pub = HDWallet.from_extended_key(w.to_extended_key(), vcn=0)
try: pub.child(0x80000000)
except Exception: pass
else: assert 0
'''),
'c26-pub-testnet': dict(property='C26', edits=[('nbc/wallet/hdwallet.py', "    testnet = version in (0x043587CF, 0x04358394)\n", "    testnet = version >> 8 == 0x043587\n")],
  needs='an extended private key of the test network', breaks='it is read as one of the main network',
  demo='''
from nbc.wallet.hdwallet import HDWallet
w = HDWallet.from_master_seed('seed', vcn=0, testnet=True)
for prv in (False, True):
    assert HDWallet.from_extended_key(w.to_extended_key(prv), vcn=0)._testnet, prv
'''),
'c17-hd-childnum': dict(property='C17', edits=[('nbc/wallet/hdwallet.py', "      'childnum': self._childnum,\n    }\n", "      'childnum': self._childnum & 0x7fffffff,\n    }\n")],
  needs='a wallet derived as a hardened child, dumped and loaded', breaks='it is loaded as the other child: its extended key differs',
  demo='''
from nbc.wallet.hdwallet import HDWallet
w = HDWallet.from_master_seed('seed', vcn=0).child(0x80000005)
v = HDWallet.load_from_cfg(w.dump_to_cfg())
assert v.to_extended_key(True) == w.to_extended_key(True)
'''),
'c19-prefix-high': dict(property='C19', edits=[('nbc/util/key.py', "    if ORD(prefix) != ORD(key[0]):\n", "    if ORD(prefix) & 0x7f != ORD(key[0]) & 0x7f:\n")],
  needs='a WIF text whose first octet is zero (as of an address) and that begins with 5, K or L by its length', breaks='keys under another prefix are taken',
  demo='''
from nbc.util import key
w = key.privkey_to_wif(b'k' * 32, b'\\x82')
for p in (b'\\x02', b'\\x80'):
    try: key.privkey_from_wif(w, p)
    except ValueError: continue
    assert 0, p
assert key.privkey_from_wif(key.privkey_to_wif(b'k' * 32)) == b'k' * 32
'''),
'c20-x-over-p': dict(property='C20', edits=[('nbc/util/key.py', "    if not point_is_valid(curve.generator, x, y):\n        raise ValueError('invalid public key')\n\n    if (ch", "    if not point_is_valid(curve.generator, x % _p, y):\n        raise ValueError('invalid public key')\n\n    if (ch")],
  needs='a compressed key whose x is not below p', breaks='it is taken: two encodings of one point',
  demo='''
from nbc.util import key
from nbc.util.ecdsa import SECP256k1
p = SECP256k1.curve.p()
n = 0
for x in range(p, p + 20):
    try: key.decompress_public_key(b'\\x02' + x.to_bytes(32, 'big'))
    except ValueError: continue
    n += 1
assert n == 0, n
'''),
}
