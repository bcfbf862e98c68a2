HEAD = '''
import io, struct, sys
import asyncore
from nbc.node import basenode, connection
from nbc import protocol
from nbc.coins import Newbitcoin as COIN
def node(**kw):
    return basenode.BaseNode(data_dir='/nonexistent', address=('127.0.0.1', 40000), log=io.StringIO(), bootstrap=False, **kw)
def peer(n, addr=('8.8.8.8', 1234)):
    s = asyncore.Sock()
    return connection.Connection(n, addr, sock=s)
def feed(p, data):
    p.socket.inbox.append(data); p.handle_read()
def flush(p):
    while p.writable(): p.handle_write()
    out, p.socket.out = p.socket.out, b''
    msgs = []
    while out:
        l = protocol.Message.first_msg_len(out)
        msgs.append(protocol.Message.parse(out[:l], COIN.magic)); out = out[l:]
    return msgs
MAGIC = COIN.magic
def version(addr='9.9.9.9', relay=1):
    na = protocol.NetworkAddress
    return protocol.Version(version=70000, services=1, timestamp=5, addr_recv=na(0, 1, addr, 1), addr_from=na(0, 1, '7.7.7.7', 2), nonce=b'12345678', user_agent=b'x', start_height=3, relay=relay).binary(MAGIC)
'''
BUGS = {
'c01-header-hash': dict(property='C01', edits=[('nbc/protocol/format.py', "util.sha256d(self.binary()[:80])", "util.sha256d(self.binary()[:-1])")],
  needs='a header whose transaction count needs more than one byte (253 or more transactions)', breaks='the hash of a block header covers bytes of the transaction count',
  demo='''
from nbc.protocol import format
from nbc import util
for n in (0, 1, 252, 253, 70000):
    h = format.BlockHeader(1, b'a' * 32, b'b' * 32, 7, 8, 9, n)
    assert h.hash == util.sha256d(h.binary()[:80]), n
'''),
'c02-number-limit': dict(property='C02', edits=[('nbc/protocol/format.py', "    if minValue <= obj < maxValue:", "    if minValue <= obj <= maxValue:")],
  needs='a number exactly one above the largest its field can hold', breaks='a value the field can not encode is accepted; encoding it raises later',
  demo='''
from nbc.protocol import format
for f, hi in (('H', 65536), ('I', 2 ** 32), ('q', 2 ** 63)):
    k = format.FtNumber(f)
    assert k.validate(hi) is None and k.validate(hi - 1) == hi - 1
'''),
'c04-empty-checksum': dict(property='C04', edits=[('nbc/protocol/messages.py', "    if data[20:24] != checksum:", "    if payload and data[20:24] != checksum:")],
  needs='a frame without payload whose checksum is wrong', breaks='the checksum of frames with an empty payload is not verified',
  demo='''
from nbc import protocol
m = b'\\x01\\x02\\x03\\x04'
good = protocol.VersionAck().binary(m)
protocol.Message.parse(good, m)
try: protocol.Message.parse(good[:20] + b'\\0\\0\\0\\0', m)
except protocol.MsgFormatError: pass
else: raise SystemExit('accepted a bad checksum')
'''),
'c05-bounded-buffer': dict(property='C05', edits=[('nbc/node/connection.py', "    self._recv_buffer += chunk\n", "    self._recv_buffer = (self._recv_buffer + chunk)[-8 * BLOCK_SIZE:]\n")],
  needs='a frame longer than 64 KiB, arriving over many reads', breaks='the beginning of long frames is dropped from the receive buffer',
  demo=HEAD + '''
n = node(); p = peer(n); got = []
n.command_inventory = lambda peer, inventory: got.append(len(inventory))
iv = protocol.format.InventoryVector
for count in (10, 3000):
    data = protocol.Inventory([iv(1, b'h' * 32)] * count).binary(MAGIC)
    for i in range(0, len(data), 4096): feed(p, data[i:i + 4096])
assert got == [10, 3000], got
'''),
'c06-narrow-except': dict(property='C06', edits=[('nbc/node/connection.py', "      except Exception as e:  # just print error, avoid stopping\n", "      except (ValueError, TypeError, AttributeError, LookupError, ArithmeticError) as e:  # just print error, avoid stopping\n")],
  needs='a handler (or a parsed field) that fails with some other kind of exception, such as ParameterError', breaks='exceptions of other kinds escape the read callback',
  demo=HEAD + '''
n = node(); p = peer(n); got = []
def bad(peer, nonce): raise OSError('disk full')
n.command_pong = bad
n.command_memory_pool = lambda peer: got.append(1)
feed(p, protocol.Pong(b'x' * 8).binary(MAGIC) + protocol.MemoryPool().binary(MAGIC))
assert got == [1]
'''),
'c07-late-relay': dict(property='C07', edits=[('nbc/node/connection.py', "      self._relay = message.relay\n      self._external_ip = message.addr_recv.address\n      \n      self.node.connected(self)\n", "      self._external_ip = message.addr_recv.address\n      \n      self.node.connected(self)\n      self._relay = message.relay\n")],
  needs='a node that looks at the relay flag when told that a peer is connected', breaks='the relay flag is recorded only after the node was told',
  demo=HEAD + '''
seen = []
class N(basenode.BaseNode):
    def connected(self, peer):
        seen.append((peer.version, peer.relay)); basenode.BaseNode.connected(self, peer)
n = N(data_dir='/nonexistent', address=('127.0.0.1', 40000), log=io.StringIO(), bootstrap=False)
p = peer(n); feed(p, version(relay=1))
assert seen == [(70000, 1)], seen
'''),
'c08-opt-out': dict(property='C08', edits=[('nbc/protocol/messages.py', "  command = 'merkleblock'\n  name = 'merkle_block'\n  \n  not_regist = True\n", "  command = 'merkleblock'\n  name = 'merkle_block'\n  \n  no_register = True\n")],
  needs='a merkleblock frame', breaks='a message type that opts out of registration is registered',
  demo='''
from nbc import protocol
assert 'merkleblock' not in protocol.Message.MessageTypes
assert 'tx' in protocol.Message.MessageTypes
'''),
'c09-service-zero': dict(property='C09', edits=[('nbc/node/basenode.py', "      if services is None: continue\n", "      if not services: continue\n")],
  needs='a known address whose services field is 0', breaks='addresses with services 0 are left out of the answer to getaddr',
  demo=HEAD + '''
n = node(); p = peer(n); flush(p)
n._addresses[('1.2.3.4', 5)] = (10, 0); n._addresses[('1.2.3.5', 5)] = (11, 1); n._addresses[('1.2.3.6', 5)] = (9, None)
feed(p, protocol.GetAddress().binary(MAGIC))
m = flush(p)
assert [a.address for a in m[0].addr_list] == ['1.2.3.5', '1.2.3.4'], [str(x) for x in m]
'''),
'c10-verack-over-limit': dict(property='C10', edits=[('nbc/node/basenode.py', "    if len(self._addresses) < MAX_ADDRESSES:\n", "    if len(self._addresses) <= MAX_ADDRESSES:\n")],
  needs='a full address book and a peer that acknowledges', breaks='the address book grows to 2501 entries',
  demo=HEAD + '''
n = node(); p = peer(n)
for i in range(2500): n._addresses[('10.0.%d.%d' % (i // 250, i % 250), 1)] = (1, 1)
feed(p, protocol.VersionAck().binary(MAGIC))
assert len(n._addresses) == 2500, len(n._addresses)
'''),
'c11-close-fails': dict(property='C11', edits=[('nbc/node/connection.py', "    except Exception as e:\n      pass\n    self.node.disconnected(self)\n", "      self.node.disconnected(self)\n    except Exception as e:\n      pass\n")],
  needs='a socket whose close fails', breaks='the node is not told about the closed connection and keeps its address',
  demo=HEAD + '''
n = node(); p = peer(n)
n._addresses[p.address] = (1, 1)
p.socket.fail.add('close'); p.handle_close()
assert p.address not in n._addresses
'''),
'c12-never-received': dict(property='C12', edits=[('nbc/node/connection.py', "    if self._last_rx_time and rx_ago > _SECONDS_OF_180M:\n", "    if self._last_tx_time and rx_ago > _SECONDS_OF_180M:\n")],
  needs='a connection that has sent something and not yet received anything', breaks='a fresh connection is dropped before the peer answered',
  demo=HEAD + '''
n = node(); p = peer(n); flush(p)
assert p.readable() and not p.socket.closed
'''),
'c33-merkle-odd': dict(property='C33', edits=[('nbc/util/__init__.py', "        if (len(branches) % 2) == 1:\n", "        if (len(branches) % 2) == 1 and len(branches) < 6:\n")],
  needs='seven or more hashes, odd on some level', breaks='the last transaction of a large odd level is left out of the merkle root',
  demo='''
from nbc import util
class T(object):
    def __init__(self, i): self.hash = bytes([i]) * 32
def root(l):
    while len(l) > 1:
        if len(l) % 2: l = l + l[-1:]
        l = [util.sha256d(l[i] + l[i + 1]) for i in range(0, len(l), 2)]
    return l[0]
for n in range(1, 20):
    assert util.get_merkle_root([T(i) for i in range(n)]) == root([bytes([i]) * 32 for i in range(n)]), n
'''),
'c38-needs-two': dict(property='C38', edits=[('nbc/node/basenode.py', "      self._guessed_external_ip = counter[-1][1]\n", "      if counter[-1][0] * 2 >= len(peers): self._guessed_external_ip = counter[-1][1]\n")],
  needs='three or more peers reporting different addresses, none with half of the votes', breaks='the most reported address is ignored unless it has half of the votes',
  demo=HEAD + '''
n = node()
for i, a in enumerate(['9.9.9.9', '8.8.8.8', '7.7.7.7', '1.1.1.1', '1.1.1.1']):
    p = peer(n, ('8.8.8.%d' % i, 1)); feed(p, version(a))
assert n.external_ip == '1.1.1.1', n.external_ip
'''),
}
