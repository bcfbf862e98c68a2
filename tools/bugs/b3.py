import os, runpy
HEAD = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'b1.py'))['HEAD']
BUGS = {
'c01-varint-edge': dict(property='C01', edits=[('nbc/protocol/format.py', "    elif obj <= 0xffff:\n", "    elif obj < 0xffff:\n")],
  needs='a count or string length of exactly 65535', breaks='the length is written in five bytes where the protocol has three',
  demo='''
from nbc.protocol import format
for n in (0, 252, 253, 65534, 65535, 65536, 2 ** 32 - 1, 2 ** 32):
    want = 1 if n < 253 else 3 if n < 65536 else 5 if n < 2 ** 32 else 9
    assert len(format.FtVarInteger.binary(n)) == want, n
'''),
'c02-v4-compat': dict(property='C02', edits=[('nbc/protocol/format.py', "data[10:12] == (b'\\xff\\xff'): # ipv4", "data[10:12] in (b'\\xff\\xff', b'\\x00\\x00'): # ipv4")],
  needs='an IPv6 address whose first twelve bytes are zero, such as ::1', breaks='it is read as an IPv4 address',
  demo='''
from nbc.protocol import format
f = format.FtIPAddress()
for t in ('1.2.3.4', '::1', '1::', 'fe80::1:2', '0:0:0:0:0:0:7f00:1'):
    b = f.binary(t); assert f.binary(f.parse(b)[1]) == b, t
'''),
'c03-early-end': dict(property='C03', edits=[('nbc/protocol/format.py', "  while index < count:\n    (itemLen,itemObj) = kind.parse(data[off:])\n", "  while index < count and (off < len(data) or not ret):\n    (itemLen,itemObj) = kind.parse(data[off:])\n")],
  needs='a list that ends exactly between two elements, before the declared count', breaks='a truncated list is read as a shorter one',
  demo='''
from nbc import protocol
iv = protocol.format.InventoryVector
b = protocol.Inventory([iv(1, b'h' * 32)] * 3).binary(b'')[20:]
for cut in range(1, len(b)):
    try: protocol.format.CompoundType.parse.__func__(protocol.Inventory, b[:-cut])
    except Exception: continue
    raise SystemExit('parsed with %d bytes missing' % cut)
'''),
'c03-number-pad': dict(property='C03', edits=[('nbc/protocol/format.py', "    return (length,struct.unpack(self._format,data[:length])[0])", "    return (length,struct.unpack(self._format,data[:length] if len(data) != length - 1 or length < 8 else data + b'\\x00')[0])")],
  needs='a message whose last field is a 64-bit number that lacks its last byte', breaks='the missing byte is made up',
  demo='''
from nbc.protocol import format
for f in 'bBhHiIqQ':
    k = format.FtNumber(f); n = len(k.binary(1))
    for cut in range(n):
        try: k.parse(b'\\1' * cut)
        except Exception: continue
        raise SystemExit('%s parsed from %d bytes' % (f, cut))
'''),
'c04-nul-junk': dict(property='C04', edits=[('nbc/protocol/messages.py', "data[4:16].strip(b'\\x00').decode('latin-1')", "data[4:16].partition(b'\\x00')[0].decode('latin-1')")],
  needs='a frame whose command field has bytes after the first NUL', breaks='a frame with an unknown command is accepted as another one',
  demo='''
from nbc import protocol
m = b'\\1\\2\\3\\4'; g = protocol.VersionAck().binary(m)
protocol.Message.parse(g, m)
try: protocol.Message.parse(g[:4] + b'verack\\0junk!' + g[16:], m)
except protocol.UnknownMsgError: pass
else: raise SystemExit('accepted')
'''),
'c05-signed-length': dict(property='C05', edits=[('nbc/protocol/messages.py', "    return struct.unpack('<I', data[16:20])[0] + 24", "    return struct.unpack('<i', data[16:20])[0] + 24")],
  needs='a frame that declares 2^31 or more bytes', breaks='the frame is cut with a negative length and bytes are lost or handled twice',
  demo=HEAD + '''
n = node(); p = peer(n); got = []
n.invalid_command = lambda peer, payload, e: got.append(payload)
h = MAGIC + b'ping'.ljust(12, b'\\0') + b'\\xff\\xff\\xff\\xff' + b'abcd' + b'x' * 50
feed(p, h)
assert not got and p._recv_buffer == h, got
'''),
'c05-partial-send': dict(property='C05', edits=[('nbc/node/connection.py', "      sent = self.send(self._send_buffer)\n", "      sent = self.send(self._send_buffer[:BLOCK_SIZE]) or min(BLOCK_SIZE,len(self._send_buffer))\n")],
  needs='a socket that accepts no byte of a write', breaks='bytes the socket did not accept are dropped from the queue and counted',
  demo=HEAD + '''
n = node(); p = peer(n); flush(p)
p.send_message(protocol.Ping(b'12345678')); q = p._send_buffer
tx = p.tx_bytes
p.send = lambda data: 0
p.handle_write()
assert p._send_buffer == q and p.tx_bytes == tx
'''),
'c06-report-text': dict(property='C06', edits=[('nbc/node/basenode.py', "    self.log('invalid command: %r (%s)' % (payload,exception))", "    self.log('invalid command: %s (%s)' % (payload[4:16].decode('ascii').strip('\\x00'),exception))")],
  needs='a bad frame whose command field is not ASCII', breaks='reporting the frame raises out of the read callback',
  demo=HEAD + '''
n = node(); p = peer(n)
feed(p, MAGIC + b'pingpingping' + b'\\0' * 8)
feed(p, MAGIC + b'\\xff' * 12 + b'\\0' * 8)
'''),
'c06-recv-kind': dict(property='C06', edits=[('nbc/node/connection.py', "      chunk = self.recv(BLOCK_SIZE)\n    except Exception as e:\n      chunk = ''\n", "      chunk = self.recv(BLOCK_SIZE)\n    except (OSError, AttributeError) as e:\n      chunk = ''\n")],
  needs='a socket whose recv fails with an error that is not an OSError', breaks='the error escapes the read callback and the connection stays open',
  demo=HEAD + '''
n = node(); p = peer(n)
def bad(k): raise ValueError('negative buffersize')
p.recv = bad
p.handle_read()
assert p not in n.peers
'''),
'c07-relay-sticky': dict(property='C07', edits=[('nbc/node/connection.py', "      self._relay = message.relay\n", "      self._relay = self._relay or message.relay\n")],
  needs='a second version message with another relay flag', breaks='the relay flag of the first version message sticks',
  demo=HEAD + '''
n = node(); p = peer(n); feed(p, version(relay=1)); assert p.relay == 1
feed(p, version(relay=0)); assert p.relay == 0, p.relay
'''),
'c07-empty-message': dict(property='C07', edits=[('nbc/node/connection.py', "    kwargs = dict((k,getattr(message,k)) for (k,t) in message.properties)\n", "    kwargs = dict((k,getattr(message,k)) for (k,t) in message.properties if k not in ('payload','signature') or getattr(message,k))\n")],
  needs='an alert with an empty payload or signature', breaks='the handler of the node is called without the field',
  demo=HEAD + '''
n = node(); p = peer(n); got = []
n.command_alert = lambda peer, payload=None, signature=None: got.append((payload, signature))
feed(p, protocol.Alert(b'x', b'y').binary(MAGIC)); feed(p, protocol.Alert(b'x', b'').binary(MAGIC))
assert got == [(b'x', b'y'), (b'x', b'')], got
'''),
'c08-late-name': dict(property='C08', edits=[('nbc/protocol/messages.py', "    Message.MessageTypes[msg_type.command] = msg_type", "    Message.MessageTypes.setdefault(msg_type.command or msg_type.name, msg_type)"), ('nbc/protocol/messages.py', "class NotFound(Inventory):\n  command = 'notfound'\n", "class NotFound(Inventory):\n  commands = 'notfound'\n")],
  needs='a notfound message', breaks='NotFound inherits the command of inv: it is never found and is sent as inv',
  demo='''
from nbc import protocol
T = protocol.Message.MessageTypes
assert T['notfound'] is protocol.NotFound and T['inv'] is protocol.Inventory
'''),
'c09-ping-before-ack': dict(property='C09', edits=[('nbc/node/basenode.py', "    peer.send_message(protocol.Pong(nonce))", "    if peer.verack or not peer.incoming: peer.send_message(protocol.Pong(nonce))")],
  needs='an incoming peer that pings before it acknowledged the version', breaks='the ping is not answered',
  demo=HEAD + '''
n = node(); p = peer(n); flush(p)
feed(p, protocol.Ping(b'87654321').binary(MAGIC))
m = flush(p); assert [x.nonce for x in m] == [b'87654321'], m
'''),
'c10-check-once': dict(property='C10', edits=[('nbc/node/basenode.py', "    for address in addr_list:\n      if len(self._addresses) >= MAX_ADDRESSES: return\n", "    if len(self._addresses) >= MAX_ADDRESSES: return\n    for address in addr_list[:MAX_ADDRESSES]:\n")],
  needs='an address book that is nearly full and a long address list', breaks='the address book grows beyond its limit by one list',
  demo=HEAD + '''
n = node(); p = peer(n)
na = protocol.NetworkAddress
for k in range(4): feed(p, protocol.Address([na(1, 1, '10.%d.%d.%d' % (k, i // 250, i % 250), 1) for i in range(900)]).binary(MAGIC))
assert len(n._addresses) <= 2500, len(n._addresses)
'''),
'c10-ban-port': dict(property='C10', edits=[('nbc/node/basenode.py', "      self._banned[peer.ip] = time.time()\n", "      self._banned[peer.ip if peer.incoming else peer.address] = time.time()\n")],
  needs='an outgoing connection that is banned and then connects to us', breaks='the peer is banned under its address and port, so it can come back',
  demo=HEAD + '''
n = node(); p = peer(n, ('8.8.4.4', 99)); p._incoming = False
for i in range(6): n.punish_peer(p)
assert list(n._banned) == ['8.8.4.4'], n._banned
'''),
'c11-connect-fails': dict(property='C11', edits=[('nbc/node/connection.py', "        self.connect(address)\n      except Exception as e:\n        self.handle_close()\n        raise e\n", "        self.connect(address)\n      except socket.gaierror as e:\n        self.handle_close()\n        raise e\n      except Exception as e:\n        self.del_channel(); self.socket and self.socket.close()\n        raise e\n")],
  needs='a connection attempt that fails at once', breaks='the node is not told and keeps the address of the peer',
  demo=HEAD + '''
n = node(); told = []
n.disconnected = lambda peer: told.append(peer.address)
def bad(self, a): raise OSError('unreachable')
connection.Connection.connect = bad
n.add_peer(('5.5.5.5', 5))
assert told == [('5.5.5.5', 5)], told
'''),
'c12-ping-time': dict(property='C12', edits=[('nbc/node/connection.py', "      self._last_ping_time = time.time()\n", "      self._last_ping_time = max(self._last_ping_time, self._last_tx_time)\n")],
  needs='an idle connection whose ping can not be written for some time', breaks='a ping is queued each time the loop looks at the connection',
  demo=HEAD + '''
import time
n = node(); p = peer(n); flush(p)
p._last_tx_time = p._last_rx_time = time.time() - 40 * 60
for i in range(3): p.readable()
assert len(flush(p)) == 1
'''),
'c13-reverse-dns': dict(property='C13', edits=[('nbc/node/basenode.py', "    print('Incoming connection from %s' % repr(address))\n", "    print('Incoming connection from %s (%s)' % (repr(address),socket.getfqdn(address[0])))\n")],
  needs='an incoming connection from an address with a slow name server', breaks='the event loop waits for a reverse DNS lookup',
  demo=HEAD + '''
import socket
asked = []
socket.getfqdn = lambda a='': asked.append(a) or a
socket.gethostbyaddr = lambda a: asked.append(a) or (a, [], [a])
n = node(); n.accept = lambda: (asyncore.Sock(), ('8.8.8.8', 5))
n.handle_accept(); assert not asked
'''),
'c13-height': dict(property='C13', edits=[('nbc/node/basenode.py', "    self._decay_relay()   # give a little more room for relaying\n", "    if not peers and self._seek_peers and self._bootstrap and not self.blockchain_height: self.blockchain_height = max([h for h in util.guess_block_height(self._coin).values() if h] or [0])\n    self._decay_relay()   # give a little more room for relaying\n")],
  needs='a node without peers that knows no height', breaks='the heartbeat fetches block heights over HTTP and waits for them',
  demo=HEAD + '''
from nbc import util
asked = []
util.guess_block_height = lambda *a, **k: asked.append(a) or {}
n = node(); n._bootstrap = [('127.0.0.1', 1)]; n.add_any_peer = lambda: None
n.heartbeat(); assert not asked
'''),
'c14-reject-debug': dict(property='C14', edits=[('nbc/protocol/messages.py', "    return _debug(self, [('m', self.message), ('r', self.reason)])", "    return _debug(self, [('m', self.message), ('c', self.code), ('r', self.reason)])")],
  needs='a reject message while the log level is debug', breaks='the attribute does not exist',
  demo='''
from nbc import protocol
protocol.Reject(b'tx', 1, b'dust')._debug()
'''),
'c14-error-level': dict(property='C14', edits=[('nbc/node/connection.py', "      self.node.log('--- connection refused',peer=self,level=self.node.LOG_LEVEL_INFO)", "      self.node.log('--- connection refused',peer=self,level=self.node.LOG_LEVEL_WARN)")],
  needs='a socket error reported by the event loop', breaks='handling the error fails on a missing attribute and the connection is not closed',
  demo=HEAD + '''
import socket
n = node(); p = peer(n)
try: raise socket.error('refused')
except socket.error: p.handle_error()
assert p not in n.peers
'''),
'c29-part-symbol': dict(property='C29', edits=[('nbc/coins/__init__.py', "symbol.upper() in coin.symbols:", "symbol.upper() in ' '.join(coin.symbols):")],
  needs='a part of a symbol, or no symbol at all', breaks='a coin is found by a part of its symbol and by nothing at all',
  demo='''
from nbc import coins
for a in ((None, None), ('x', None), (None, 'B'), (None, 'nb')): assert coins.get_coin(*a) is None, a
assert coins.get_coin('NewBitcoin') is coins.get_coin(symbol='nbc') is coins.Newbitcoin
'''),
'c29-bits': dict(property='C29', edits=[('nbc/coins/newbitcoin.py', "    genesis_timestamp = 1231006505\n", "    genesis_timestamp = 1231006505 + 3600 * 0x80 // 0xe1000\n")],
  needs='', breaks='', demo=''),
'c38-string-count': dict(property='C38', edits=[('nbc/node/basenode.py', "      counter.sort()\n", "      counter.sort(key=lambda c: '%d %s' % c)\n")],
  needs='ten or more peers that report the same address, and two to nine that report another', breaks='counts are compared as text, so 9 beats 10',
  demo=HEAD + '''
n = node()
for i in range(12):
    p = peer(n, ('8.8.8.%d' % i, 1)); p._external_ip = '1.1.1.1' if i < 10 else '2.2.2.2'; p._fileno = i
    n._peers[1000 + i] = p
n._check_external_ip()
assert n.external_ip == '1.1.1.1', n.external_ip
'''),
}
del BUGS['c29-bits']
