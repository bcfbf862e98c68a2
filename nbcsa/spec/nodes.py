"""Scenarios on nodes and their peers, and the reference for them (read by the analysis, never run)."""
import os
import asyncore
from nbc.node import basenode, connection
from nbc import protocol, coins
from spec import wire, conn


class Told(conn.Link):
    """a connection that notes the messages it is asked to send"""

    def send_message(self, message):
        if isinstance(message, protocol.Version) and self.quiet:
            return
        __emit__('seen', 'sent', self.address[0], message.command, wire.view_message(message.command, message))

    quiet = True


class Greeter(Told):
    quiet = False


# ---- greeting, replies

def greets(port, t0, height, agent):
    __clock__(t0)
    n = conn.Node(data_dir='/d', address=('9.9.9.9', 7777), bootstrap=False)
    n.blockchain_height = height
    n.user_agent = agent
    c = Greeter(n, ('1.2.3.4', port), asyncore.Sock())
    return (c.incoming, c.ip, c.port, c.verack, c.external_ip, c.timestamp)


def greets_spec(port, t0, height, agent):
    nonce = os.urandom(8)
    __emit__('seen', 'sent', '1.2.3.4', 'version',
             (coins.Newbitcoin.protocol_version, 1, t0, (t0, 1, '1.2.3.4', port), (t0, 1, '9.9.9.9', 7777), nonce, agent, height, False))
    return (True, '1.2.3.4', port, False, None, 0)


def pinged(nonce):
    n = conn.a_node()
    c = conn.a_link(n, Told)
    n.command_ping(c, nonce=nonce)
    n.command_pong(c, nonce=nonce)
    return None


def pinged_spec(nonce):
    __emit__('seen', 'sent', '1.2.3.4', 'pong', (nonce,))
    return None


def versioned(version, services, timestamp, nonce, agent, height, relay):
    return says_version(False, version, services, timestamp, nonce, agent, height, relay)


def versioned_late(version, services, timestamp, nonce, agent, height, relay):
    """of a peer that acknowledged us before"""
    return says_version(True, version, services, timestamp, nonce, agent, height, relay)


def says_version(late, version, services, timestamp, nonce, agent, height, relay):
    n = conn.a_node()
    c = conn.a_link(n, Told)
    if late:
        c.handle_message(protocol.VersionAck())
    n.command_version(c, version=version, services=services, timestamp=timestamp, addr_recv=None, addr_from=None, nonce=nonce,
                      user_agent=agent, start_height=height, relay=relay)
    return None


def versioned_spec(version, services, timestamp, nonce, agent, height, relay):
    __emit__('seen', 'sent', '1.2.3.4', 'verack', ())
    return None


def addresses(items):
    return [protocol.NetworkAddress.parse(x)[1] for x in items]


def asked(items):
    """what a node that was told these addresses answers"""
    n = conn.a_node()
    c = conn.a_link(n, Told)
    n.command_address(c, addr_list=addresses(items))
    n.command_get_address(c)
    return None


def asked_after_unknown(items, when):
    """the same of a node whose newest address is that of a peer that never named its services"""
    n = conn.a_node()
    c = conn.a_link(n, Told)
    c.feed = wire.frame(n.coin.magic, 'verack', b'')
    __clock__(when)
    c.handle_read()
    n.command_address(c, addr_list=addresses(items))
    n.command_get_address(c)
    return None


def asked_after_unknown_spec(items, when):
    book = {('1.2.3.4', 8333): (when, None)}
    told(book, items)
    __emit__('seen', 'sent', '1.2.3.4', 'addr', (newest_first(book),))
    return None


def newest_first(book):
    out = []
    for key in sorted(book, key=lambda k: book[k][0], reverse=True):
        seen, services = book[key]
        if services is None:
            continue
        out.append((seen, services, key[0], key[1]))
        if len(out) >= 1000:
            break
    return out


def told(book, items):
    for x in items:
        if len(book) >= 2500:
            return
        seen, services, ip, port = wire.read_struct('NetworkAddress', x)[1]
        book[(ip, port)] = (seen, services)


def asked_spec(items):
    book = {}
    told(book, items)
    __emit__('seen', 'sent', '1.2.3.4', 'addr', (newest_first(book),))
    return None


def asked_often(items, times):
    """the same with more addresses than one message may carry"""
    n = conn.a_node()
    c = conn.a_link(n, Told)
    a = addresses(items)
    n.command_address(c, addr_list=a)
    n.command_get_address(c)
    return None


# ---- a peer that acknowledged us

def acknowledged(services, t1, t2, t3):
    return acknowledges(False, services, t1, t2, t3)


def acknowledged_known(services, t1, t2, t3):
    """another peer told us its address before"""
    return acknowledges(True, services, t1, t2, t3)


def acknowledges(known, services, t1, t2, t3):
    __clock__(t1)
    n = conn.Node(data_dir='/d', address=('9.9.9.9', 7777), bootstrap=False)
    c = conn.a_link(n, Told)
    if known:
        n.command_address(c, addr_list=[protocol.NetworkAddress(1000000, 5, '1.2.3.4', 8333)])
    frame = wire.frame(n.coin.magic, 'version', version_payload(services))
    c.feed = frame
    __clock__(t2)
    c.handle_read()
    c.feed = wire.frame(n.coin.magic, 'verack', b'')
    __clock__(t3)
    c.handle_read()
    d = Told(n, ('5.6.7.8', 8333), asyncore.Sock())
    n.command_get_address(d)
    return (c.verack, c.services, c.timestamp)


def version_payload(services):
    a = services.to_bytes(8, 'little') + b'\0\0\0\0\0\0\0\0\0\0\xff\xff\x09\x09\x09\x09\x20\x8d'
    return b'\x01\0\0\0' + services.to_bytes(8, 'little') + b'\0\0\0\0\0\0\0\0' + a + a + b'12345678' + b'\0' + b'\x05\0\0\0' + b'\x01'


def acknowledged_spec(services, t1, t2, t3):
    __emit__('seen', 'connected', services, 5, b'', 1, 1, '9.9.9.9')
    __emit__('seen', 'sent', '1.2.3.4', 'verack', ())
    __emit__('seen', 'sent', '5.6.7.8', 'addr', ([(t3, services, '1.2.3.4', 8333)],))
    return (True, services, t3)


# ---- the address book

def fills(a, b, c):
    """a node whose book is filled by peers"""
    n = conn.a_node()
    p = conn.a_link(n, Told)
    n.command_address(p, addr_list=addresses(a))
    n.command_address(p, addr_list=addresses(b))
    n.command_version_ack(p)
    n.command_address(p, addr_list=addresses(c))
    n.command_version_ack(p)
    return len(n._addresses)


def fills_spec(a, b, c):
    book = {}
    told(book, a)
    told(book, b)
    if len(book) < 2500:
        book[('1.2.3.4', 8333)] = 0
    told(book, c)
    if len(book) < 2500:
        book[('1.2.3.4', 8333)] = 0
    return len(book)


# ---- bans

class Accepting(conn.Node):
    visitor = None

    def accept(self):
        return self.visitor


class Guest(asyncore.Sock):
    who = ''

    def close(self):
        __emit__('seen', 'guest closed', self.who)
        asyncore.Sock.close(self)


class Visitor(Guest):
    def close(self):
        __emit__('seen', 'guest closed', self.who)


def host(listening, t):
    __clock__(t)
    if listening:
        return Accepting(data_dir='/d', address=('9.9.9.9', 7777), bootstrap=False)
    return Accepting(data_dir='/d', bootstrap=False)


def guest(n, ip, port):
    s = Visitor()
    n.visitor = (s, (ip, port))
    n.handle_accept()
    return (ip, port) in [p.address for p in n.peers]


class Dialled(Told):
    """a connection that we made"""

    def create_socket(self, family=2, type=1):
        self.set_socket(asyncore.Sock())

    def connect(self, address):
        pass


def bans(t0, offences, t1, t2, port, dialled):
    """a peer that misbehaves, its later visits, and those of another"""
    n = host(True, t0)
    bad = Dialled(n, ('1.2.3.4', 8333)) if dialled else conn.a_link(n, Told)
    for i in range(offences):
        n.punish_peer(bad)
    bound = bad in n.peers
    __clock__(t1)
    back = guest(n, '1.2.3.4', port)
    __clock__(t2)
    other = guest(n, '5.6.7.8', port)
    return (bound, back, other, bad.banscore)


def bans_spec(t0, offences, t1, t2, port, dialled):
    if offences > 5:
        __emit__('seen', 'disconnected')
        if t1 - t0 < 3600:
            __emit__('seen', 'guest closed', '')
            return (False, False, True, offences)
        return (False, True, True, offences)
    return (True, True, True, offences)


def beaten(t0, t1, t2, port):
    """a heartbeat between a ban and the next visit"""
    n = host(True, t0)
    bad = conn.a_link(n, Told)
    for i in range(6):
        n.punish_peer(bad)
    __clock__(t1)
    n.heartbeat()
    __clock__(t2)
    return guest(n, '1.2.3.4', port)


def beaten_spec(t0, t1, t2, port):
    __emit__('seen', 'disconnected')
    if t2 - t0 < 3600:
        __emit__('seen', 'guest closed', '')
        return False
    return True


def renewed(t0, t1, t2, port):
    """two peers of one IP address are banned one after the other"""
    n = host(True, t0)
    bad = conn.a_link(n, Told)
    worse = Told(n, ('1.2.3.4', 9999), asyncore.Sock())
    for i in range(6):
        n.punish_peer(bad)
    __clock__(t1)
    for i in range(6):
        n.punish_peer(worse)
    __clock__(t2)
    return (len(n.peers), guest(n, '1.2.3.4', port))


def renewed_spec(t0, t1, t2, port):
    __emit__('seen', 'disconnected')
    if t2 - t1 < 3600:
        __emit__('seen', 'guest closed', '')
        return (0, False)
    return (0, True)


def crowded(t0, most, port):
    """the limit on our own dials does not keep visitors out"""
    __clock__(t0)
    n = Accepting(data_dir='/d', address=('9.9.9.9', 7777), seek_peers=0, max_peers=most, bootstrap=False)
    conn.a_link(n, Told)
    a = guest(n, '5.6.7.8', port)
    b = guest(n, '6.7.8.9', port)
    return (a, b, len(n.peers))


def crowded_spec(t0, most, port):
    return (True, True, 3)


def expired(t0, t1, t2, port):
    """a ban is forgotten once it has run out; a new one starts anew"""
    n = host(True, t0)
    bad = conn.a_link(n, Told)
    for i in range(6):
        n.punish_peer(bad)
    __clock__(t1)
    first = guest(n, '1.2.3.4', port)
    __clock__(t2)
    second = guest(n, '1.2.3.4', port)
    return (first, second)


def expired_spec(t0, t1, t2, port):
    __emit__('seen', 'disconnected')
    first = t1 - t0 >= 3600
    second = first or t2 - t0 >= 3600
    if not first:
        __emit__('seen', 'guest closed', '')
        if not second:
            __emit__('seen', 'guest closed', '')
    return (first, second)


def forgiven(a, b):
    """a score that is reduced in between"""
    n = host(True, 2000000000)
    p = conn.a_link(n, Told)
    for i in range(a):
        n.punish_peer(p)
    p.reduce_banscore()
    p.reduce_banscore(2)
    left = p.banscore
    for i in range(b):
        n.punish_peer(p)
    return (left, p in n.peers)


def forgiven_spec(a, b):
    left = max(0, a - 3)
    if a > 5 or (b > 0 and left + b > 5):
        __emit__('seen', 'disconnected')
        return (left, False)
    return (left, True)


def deaf(t, port, ip):
    """a node that does not listen"""
    n = host(False, t)
    n.visitor = None
    n.handle_accept()
    r = guest(n, ip, port)
    return r


def deaf_spec(t, port, ip):
    __emit__('seen', 'guest closed', '')
    return False


# ---- closing

class Out(Told):
    """an outgoing connection"""

    def create_socket(self, family=2, type=1):
        asyncore._net_fail('socket')
        __emit__('seen', 'opened')
        self.set_socket(Guest())


class Reticent(conn.Link):
    """a connection that may fail to greet"""

    def send_message(self, message):
        if __fresh__('speechless', 'bool'):
            raise ValueError('no greeting')
        __emit__('seen', 'greeted')


class OutReticent(Reticent):
    def create_socket(self, family=2, type=1):
        asyncore._net_fail('socket')
        __emit__('seen', 'opened')
        self.set_socket(Guest())


class Silent(conn.Node):
    def log(self, message, peer=None, level=0):
        pass


def closes(how):
    __clock__(__sym__('start', 'int', 1000000000, 4000000000))
    n = Silent(data_dir='/d', address=('9.9.9.9', 7777), bootstrap=False)
    s = Guest()
    c = Told(n, ('1.2.3.4', 8333), s)
    d = Told(n, ('5.6.7.8', 8333), asyncore.Sock())
    n.command_version_ack(c)
    if how == 1:
        c.feed = b''
        c.handle_read()
    elif how == 2:
        c.feed = None
        c.handle_read()
    elif how == 3:
        c.room = None
        c.handle_write()
    elif how == 4:
        n.remove_peer(('1.2.3.4', 8333))
    elif how == 5:
        try:
            raise OSError('refused')
        except OSError:
            c.handle_error()
    elif how == 6:
        try:
            raise KeyError('bug')
        except KeyError:
            c.handle_error()
    else:
        c.handle_close()
    n.command_get_address(d)
    return ([p.address for p in n.peers], ('1.2.3.4', 8333) in n._addresses)


def closes_spec(how):
    __emit__('seen', 'guest closed', '')
    __emit__('seen', 'disconnected')
    __emit__('seen', 'sent', '5.6.7.8', 'addr', ([],))
    return ([('5.6.7.8', 8333)], False)


def connects(port):
    n = conn.a_node()
    try:
        OutReticent(n, ('1.2.3.4', port))
    except (OSError, ValueError) as e:
        return ('failed', [p.address for p in n.peers])
    return ('connected', [p.address for p in n.peers])


def connects_spec(port):
    if __fresh__('net_fail_socket', 'bool'):
        __emit__('seen', 'disconnected')
        return ('failed', [])
    __emit__('seen', 'opened')
    if __fresh__('net_fail_connect', 'bool'):
        __emit__('seen', 'guest closed', '')
        __emit__('seen', 'disconnected')
        return ('failed', [])
    if __fresh__('speechless', 'bool'):
        __emit__('seen', 'guest closed', '')
        __emit__('seen', 'disconnected')
        return ('failed', [])
    __emit__('seen', 'greeted')
    return ('connected', [('1.2.3.4', port)])


def accepts(port):
    n = conn.a_node()
    try:
        Reticent(n, ('1.2.3.4', port), Guest())
    except (OSError, ValueError) as e:
        return ('failed', [p.address for p in n.peers])
    return ('connected', [p.address for p in n.peers])


def accepts_spec(port):
    if __fresh__('speechless', 'bool'):
        __emit__('seen', 'guest closed', '')
        __emit__('seen', 'disconnected')
        return ('failed', [])
    __emit__('seen', 'greeted')
    return ('connected', [('1.2.3.4', port)])


# ---- idling

def idles(waits, wrote, heard, t1, t2, t3, t4, t5):
    __clock__(t1)
    n = conn.Node(data_dir='/d', address=('9.9.9.9', 7777), bootstrap=False)
    c = conn.a_link(n, Told)
    if waits:
        conn.Link.send_message(c, conn.Plain(b'waiting'))
    if wrote:
        c.room = 0
        c.handle_write()
    __clock__(t2)
    if heard:
        c.feed = b'x'
        c.handle_read()
    out = []
    for now in (t3, t4, t5):
        if not n.gone:
            __clock__(now)
            out.append(c.readable())
    return out


def idles_spec(waits, wrote, heard, t1, t2, t3, t4, t5):
    greeting = os.urandom(8)
    if wrote:
        __emit__('seen', 'wire', b'')
    out = []
    gone = False
    pinged = 0
    for now in (t3, t4, t5):
        if not gone:
            if wrote and now - t1 > 1800 and now - pinged > 300:
                __emit__('seen', 'sent', '1.2.3.4', 'ping', (os.urandom(8),))
                pinged = now
            if heard and now - t2 > 10800:
                __emit__('seen', 'disconnected')
                gone = True
            out.append(not gone)
    return out


# ---- our own address, as the peers see it

class Open(conn.Node):
    def connected(self, peer):
        basenode.BaseNode.connected(self, peer)

    def log(self, message, peer=None, level=0):
        pass


def seen_version(n, c, ip):
    a = b'\0\0\0\0\0\0\0\0' + ip + b'\x20\x8d'
    c.feed = wire.frame(n.coin.magic, 'version', b'\x01\0\0\0' + b'\0\0\0\0\0\0\0\0' + b'\0\0\0\0\0\0\0\0' + a + a + b'12345678' + b'\0' + b'\x05\0\0\0' + b'\x01')
    c.handle_read()


def elects(ips, leaves):
    """how many of the peers that stayed agree with the address the node gives for itself, after the last of them reported"""
    __clock__(__sym__('start', 'int', 1000000000, 4000000000))
    n = Open(data_dir='/d', address=('9.9.9.9', 7777), bootstrap=False)
    before = n.external_ip
    links = []
    for ip in ips:
        links.append(Told(n, ('1.2.3.%d' % len(links), 8333), asyncore.Sock()))
    for i in range(len(ips) - 1):
        seen_version(n, links[i], ips[i])
    if leaves:
        links[0].handle_close()
    seen_version(n, links[len(ips) - 1], ips[len(ips) - 1])
    mine = n.external_ip
    n.external_ip = '7.7.7.7'
    seen_version(n, links[len(ips) - 1], ips[0])
    left = ips[1:] if leaves else ips
    return (before, len([1 for ip in left if wire.ip_text(ip) == mine]), n.external_ip)


def outvotes(first, second, third):
    """many peers that agree on few addresses"""
    __clock__(__sym__('start', 'int', 1000000000, 4000000000))
    n = Open(data_dir='/d', address=('9.9.9.9', 7777), bootstrap=False)
    last = None
    for ip in first + second + third:
        last = Told(n, ('1.2.3.%d' % len(n.peers), 8333), asyncore.Sock())
        last._external_ip = ip
    n.connected(last)
    return n.external_ip


def outvotes_spec(first, second, third):
    if len(first) > len(second) and len(first) > len(third):
        return first[0]
    if len(second) > len(third):
        return second[0]
    return third[0]


def elects_spec(ips, leaves):
    for ip in ips:
        __emit__('seen', 'sent', 'verack')
    __emit__('seen', 'sent', 'verack')
    left = ips[1:] if leaves else ips
    return ('9.9.9.9', max([len([1 for j in left if j == ip]) for ip in left]), '7.7.7.7')
