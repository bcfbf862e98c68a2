"""Scenarios on connections and nodes, and what the reference says comes of them (read by the analysis, never run).

The first part drives the classes of the package; the second part is the reference.
"""
import asyncore
from nbc.node import basenode, connection
from nbc import protocol
from spec import wire


class Handled(Exception):
    pass


class Node(basenode.BaseNode):
    """the node of the package with a socket that works and hooks that note that they were called"""

    def create_socket(self, family=2, type=1):
        self.set_socket(asyncore.Sock())

    def bind(self, address):
        pass

    def listen(self, n):
        pass

    gone = False

    def log(self, message, peer=None, level=0):
        if level >= basenode.BaseNode.LOG_LEVEL_ERROR:
            __emit__('seen', 'log')

    def invalid_command(self, peer, payload, exception):
        __emit__('seen', 'invalid', payload)

    def connected(self, peer):
        __emit__('seen', 'connected', peer.services, peer.start_height, peer.user_agent, peer.version, peer.relay, peer.external_ip)

    def disconnected(self, peer):
        if not self.gone:
            __emit__('seen', 'disconnected')
            self.gone = True
        basenode.BaseNode.disconnected(self, peer)


class Link(connection.Connection):
    """a connection whose socket gives what we say"""

    feed = None

    def recv(self, size):
        if self.feed is None:
            raise OSError('reset')
        return self.feed

    def send(self, data):
        n = self.room
        if n is None:
            raise OSError('broken pipe')
        if n > len(data):
            n = len(data)
        __emit__('seen', 'wire', data[:n])
        return n


class Plain(object):
    """a message of ours"""
    command = 'plain'
    name = 'plain'
    properties = []

    def __init__(self, data):
        self._data = data

    def binary(self, magic):
        return self._data


def a_node():
    __clock__(__sym__('start', 'int', 1000000000, 4000000000))
    return Node(data_dir='/d', address=('9.9.9.9', 7777), bootstrap=False)


def a_link(node, kind=Link):
    return kind(node, ('1.2.3.4', 8333), asyncore.Sock())


def reads(c1, c2, c3):
    n = a_node()
    c = a_link(n)
    for chunk in (c1, c2, c3):
        if not n.gone:
            c.feed = chunk
            c.handle_read()
    return (c.rx_bytes, n._rx_bytes, c.tx_bytes)


def reads_two(c1, c2, c3):
    """two connections of one node"""
    n = a_node()
    c = a_link(n)
    d = Link(n, ('5.6.7.8', 8333), asyncore.Sock())
    for one, chunk in ((c, c1), (d, c2), (c, c3)):
        one.feed = chunk
        one.handle_read()
    return (c.rx_bytes, d.rx_bytes, n._rx_bytes, c.tx_bytes, d.tx_bytes, n._tx_bytes)


def reads_two_spec(c1, c2, c3):
    kept = [b'', b'']
    for i, chunk in ((0, c1), (1, c2), (0, c3)):
        kept[i] = kept[i] + chunk
        while True:
            n = first_size(kept[i])
            if n is None or n > len(kept[i]):
                break
            __emit__('seen', 'frame', kept[i][:n])
            __emit__('seen', 'invalid', kept[i][:n])
            kept[i] = kept[i][n:]
    return (len(c1) + len(c3), len(c2), len(c1) + len(c2) + len(c3), 0, 0, 0)


def writes_two(greeting, m1, m2, r1, r2, r3):
    """two connections of one node"""
    n = a_node()
    c = a_link(n)
    d = Link(n, ('5.6.7.8', 8333), asyncore.Sock())
    c.send_message(Plain(m1))
    d.send_message(Plain(m2))
    for one, room in ((c, r1), (d, r2), (c, r3)):
        one.room = room
        one.handle_write()
    return (c.writable(), d.writable(), c.tx_bytes, d.tx_bytes, n._tx_bytes, c.rx_bytes, d.rx_bytes, n._rx_bytes)


def writes_two_spec(greeting, m1, m2, r1, r2, r3):
    a = greeting + m1
    b = greeting + m2
    n1 = min(r1, len(a))
    __emit__('seen', 'wire', a[:n1])
    a = a[n1:]
    n2 = min(r2, len(b))
    __emit__('seen', 'wire', b[:n2])
    n3 = min(r3, len(a))
    __emit__('seen', 'wire', a[:n3])
    return (len(a) > n3, len(b) > n2, n1 + n3, n2, n1 + n2 + n3, 0, 0, 0)


def first_size(data):
    if len(data) < 20:
        return None
    return 24 + int.from_bytes(data[16:20], 'little')


def reads_spec(c1, c2, c3):
    kept = b''
    total = 0
    gone = False
    for chunk in (c1, c2, c3):
        if gone:
            pass
        elif not chunk:
            __emit__('seen', 'disconnected')
            gone = True
        else:
            kept = kept + chunk
            total = total + len(chunk)
            while True:
                n = first_size(kept)
                if n is None or n > len(kept):
                    break
                __emit__('seen', 'frame', kept[:n])
                __emit__('seen', 'invalid', kept[:n])
                kept = kept[n:]
    return (total, total, 0)


def writes(greeting, m1, m2, r1, r2, r3):
    n = a_node()
    c = a_link(n)
    out = []
    c.send_message(Plain(m1))
    out.append(c.writable())
    c.room = r1
    c.handle_write()
    c.send_message(Plain(m2))
    out.append(c.writable())
    c.room = r2
    c.handle_write()
    out.append(c.writable())
    c.room = r3
    c.handle_write()
    out.append(c.writable())
    return (out, c.tx_bytes, n._tx_bytes, c.rx_bytes)


def writes_spec(greeting, m1, m2, r1, r2, r3):
    kept = greeting + m1
    total = 0
    out = []
    out.append(len(kept) > 0)
    n = min(r1, len(kept))
    __emit__('seen', 'wire', kept[:n])
    kept = kept[n:]
    total = total + n
    kept = kept + m2
    out.append(len(kept) > 0)
    n = min(r2, len(kept))
    __emit__('seen', 'wire', kept[:n])
    kept = kept[n:]
    total = total + n
    out.append(len(kept) > 0)
    n = min(r3, len(kept))
    __emit__('seen', 'wire', kept[:n])
    kept = kept[n:]
    total = total + n
    out.append(len(kept) > 0)
    return (out, total, total, 0)


# ---- nothing escapes the callbacks

def parse_any(data, magic):
    """a parser that may do anything a parser may do"""
    __emit__('seen', 'frame', data)
    k = __fresh__('frame', 'int')
    if k == 1:
        raise protocol.MsgFormatError('format')
    if k == 2:
        raise protocol.UnknownMsgError('unknown')
    if k == 3:
        raise protocol.ParameterError('field', 1)
    if k == 4:
        raise KeyError('any')
    if k == 5:
        raise UnicodeDecodeError('any')
    return Plain(b'')


class Faulty(Node):
    """a node whose handlers fail"""

    def command_plain(self, peer):
        __emit__('seen', 'handled')
        k = __fresh__('handler', 'int')
        if k == 1:
            raise KeyError('any')
        if k == 2:
            raise protocol.MsgFormatError('any')
        if k == 3:
            raise TypeError('any')
        if k == 4:
            raise OSError('any')


class Wire(Link):
    """a connection whose socket fails when it likes"""

    def recv(self, size):
        if __fresh__('reset', 'bool'):
            breaks(__fresh__('kind', 'int'))
        return self.feed

    def send(self, data):
        if __fresh__('pipe', 'bool'):
            breaks(__fresh__('kind', 'int'))
        return Link.send(self, data)


def breaks(k):
    if k == 1:
        raise ConnectionResetError('reset')
    if k == 2:
        raise TimeoutError('timed out')
    if k == 3:
        raise ValueError('closed')
    if k == 4:
        raise AttributeError('socket')
    raise OSError('reset')


class Quiet(basenode.BaseNode):
    """the node of the package with nothing but its socket replaced"""

    def create_socket(self, family=2, type=1):
        self.set_socket(asyncore.Sock())

    def bind(self, address):
        pass

    def listen(self, n):
        pass


def reports(payload, kind, level, text):
    """what the node does with a frame that could not be parsed"""
    __clock__(__sym__('start', 'int', 1000000000, 4000000000))
    n = Quiet(data_dir='/d', address=('9.9.9.9', 7777), bootstrap=False)
    n.log_level = level
    c = Link(n, ('1.2.3.4', 8333), asyncore.Sock())
    if kind == 1:
        n.invalid_command(c, payload, protocol.MsgFormatError('bad ' + text))
    elif kind == 2:
        n.invalid_command(c, payload, protocol.UnknownMsgError('command: %r (%r)' % (text, payload)))
    else:
        n.log(text, peer=c, level=kind)
    return None


def reports_spec(payload, kind, level, text):
    return None


def faulty_node():
    __clock__(__sym__('start', 'int', 1000000000, 4000000000))
    return Faulty(data_dir='/d', address=('9.9.9.9', 7777), bootstrap=False)


def faulty_reads(c1, c2):
    n = faulty_node()
    c = a_link(n, Wire)
    c.feed = c1
    c.handle_read()
    if not n.gone:
        c.feed = c2
        c.handle_read()
    return None


def faulty_reads_spec(c1, c2):
    kept = b''
    gone = False
    for chunk in (c1, c2):
        if gone:
            pass
        elif __fresh__('reset', 'bool') or not chunk:
            __emit__('seen', 'disconnected')
            gone = True
        else:
            kept = kept + chunk
            while True:
                n = first_size(kept)
                if n is None or n > len(kept):
                    break
                one = kept[:n]
                kept = kept[n:]
                __emit__('seen', 'frame', one)
                k = __fresh__('frame', 'int')
                if k == 1 or k == 2:
                    __emit__('seen', 'invalid', one)
                elif k == 3 or k == 4 or k == 5:
                    __emit__('seen', 'log')
                else:
                    __emit__('seen', 'handled')
                    h = __fresh__('handler', 'int')
                    if h == 2:
                        __emit__('seen', 'invalid', one)
                    elif h == 1 or h == 3 or h == 4:
                        __emit__('seen', 'log')
    return None


def faulty_writes(greeting, m1, r1, r2):
    n = faulty_node()
    c = a_link(n, Wire)
    c.room = r1
    c.handle_write()
    if n.gone:
        return None
    c.send_message(Plain(m1))
    c.room = r2
    c.handle_write()
    return None


def faulty_writes_spec(greeting, m1, r1, r2):
    kept = greeting
    if __fresh__('pipe', 'bool'):
        __emit__('seen', 'disconnected')
        return None
    else:
        n = min(r1, len(kept))
        __emit__('seen', 'wire', kept[:n])
        kept = kept[n:]
    kept = kept + m1
    if __fresh__('pipe', 'bool'):
        __emit__('seen', 'disconnected')
    else:
        n = min(r2, len(kept))
        __emit__('seen', 'wire', kept[:n])
    return None


# ---- messages reach their handler

def noted(name, fields, node, peer, kw):
    if len(kw) != len(fields):
        __emit__('seen', 'wrong fields')
    __emit__('seen', 'call', name, peer is node.link, peer.verack, [wire.view(kind, kw[f]) for f, kind in fields])


class Noting(Node):
    link = None

    def connected(self, peer):
        __emit__('seen', 'connected', peer.services, peer.start_height, peer.user_agent, peer.version, peer.relay, peer.external_ip)

    def command_version(self, peer, **kw):
        noted('version', wire.MESSAGES['version'][2], self, peer, kw)

    def command_version_ack(self, peer, **kw):
        noted('version_ack', [], self, peer, kw)

    def command_address(self, peer, **kw):
        noted('address', wire.MESSAGES['addr'][2], self, peer, kw)

    def command_inventory(self, peer, **kw):
        noted('inventory', wire.INV, self, peer, kw)

    def command_get_data(self, peer, **kw):
        noted('get_data', wire.INV, self, peer, kw)

    def command_not_found(self, peer, **kw):
        noted('not_found', wire.INV, self, peer, kw)

    def command_get_blocks(self, peer, **kw):
        noted('get_blocks', wire.GETBLOCKS, self, peer, kw)

    def command_get_headers(self, peer, **kw):
        noted('get_headers', wire.GETBLOCKS, self, peer, kw)

    def command_transaction(self, peer, **kw):
        noted('transaction', wire.TX, self, peer, kw)

    def command_block(self, peer, **kw):
        noted('block', wire.MESSAGES['block'][2], self, peer, kw)

    def command_headers(self, peer, **kw):
        noted('headers', wire.MESSAGES['headers'][2], self, peer, kw)

    def command_get_address(self, peer, **kw):
        noted('get_address', [], self, peer, kw)

    def command_memory_pool(self, peer, **kw):
        noted('memory_pool', [], self, peer, kw)

    def command_ping(self, peer, **kw):
        noted('ping', wire.MESSAGES['ping'][2], self, peer, kw)

    def command_pong(self, peer, **kw):
        noted('pong', wire.MESSAGES['ping'][2], self, peer, kw)

    def command_reject(self, peer, **kw):
        noted('reject', wire.MESSAGES['reject'][2], self, peer, kw)

    def command_alert(self, peer, **kw):
        noted('alert', wire.MESSAGES['alert'][2], self, peer, kw)


def given(command, payload):
    __clock__(__sym__('start', 'int', 1000000000, 4000000000))
    n = Noting(data_dir='/d', address=('9.9.9.9', 7777), bootstrap=False)
    c = a_link(n)
    n.link = c
    before = c.verack
    c.feed = wire.frame(n.coin.magic, command, payload)
    c.handle_read()
    return (before, c.verack)


def given_spec(command, payload):
    cls, name, fields = wire.MESSAGES[command]
    try:
        v = wire.read_message(command, payload)
    except ValueError:
        __emit__('seen', 'log')
        return (False, False)
    if command == 'version':
        __emit__('seen', 'connected', v[1], v[7], v[6], v[0], v[8], v[3][1 + 1])
    __emit__('seen', 'call', name, True, command == 'verack', list(v))
    return (False, command == 'verack')


class Hearing(Node):
    """a node that notes what the connection knows when a version is told"""

    def command_version(self, peer, **kw):
        __emit__('seen', 'version', peer.services, peer.start_height, peer.user_agent, peer.version, peer.relay, peer.external_ip)

    def log(self, message, peer=None, level=0):
        if level >= basenode.BaseNode.LOG_LEVEL_ERROR:
            __emit__('seen', 'log')


def given_twice(first, second):
    """two versions of one peer: the later one counts, as a whole"""
    return given_both(False, first, second)


def given_late(first, second):
    """of a peer that acknowledged us before"""
    return given_both(True, first, second)


def given_both(late, first, second):
    __clock__(__sym__('start', 'int', 1000000000, 4000000000))
    n = Hearing(data_dir='/d', address=('9.9.9.9', 7777), bootstrap=False)
    c = a_link(n)
    if late:
        c.handle_message(protocol.VersionAck())
    for services, height, agent, version, relay, ip in (first, second):
        here = protocol.NetworkAddress(1234567890, 1, ip, 8333)
        c.handle_message(protocol.Version(version=version, services=services, timestamp=1234567890, addr_recv=here, addr_from=here,
                                          nonce=b'12345678', user_agent=agent, start_height=height, relay=relay))
    return (c.services, c.start_height, c.user_agent, c.version, c.relay, c.external_ip, c.verack)


def given_twice_spec(first, second):
    for services, height, agent, version, relay, ip in (first, second):
        __emit__('seen', 'connected', services, height, agent, version, relay, ip)
        __emit__('seen', 'version', services, height, agent, version, relay, ip)
    return second + (False,)


def given_late_spec(first, second):
    return given_twice_spec(first, second)[:6] + (True,)
