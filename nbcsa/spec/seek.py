"""Scenarios on how a node looks for peers and how it is served, and the reference for them (read by the analysis, never run)."""
import asyncore
from nbc.node import basenode, connection, StopNode
from nbc import protocol
from spec import wire, conn, nodes

SEED = ('127.0.0.1', 20303)


# ---- what the network does: some addresses refuse every connection

def net_socket(channel, family=None):
    channel.set_socket(asyncore.Sock())


def net_connect(channel, address):
    channel._node.dials.append(address)
    if __app__('refuses', 'bool', address[0]):
        raise OSError('refused')


class Seeker(conn.Node):
    dials = None
    asked = 0

    def connected(self, peer):
        pass

    def log(self, message, peer=None, level=0):
        pass


class Friend(conn.Link):
    def send_message(self, message):
        if message.command == 'getaddr':
            self.node.asked = self.node.asked + 1


def seeker(seek, most, boot):
    __clock__(2000000000)
    n = Seeker(data_dir='/d', address=('9.9.9.9', 7777), seek_peers=seek, max_peers=most, bootstrap=boot)
    n.dials = []
    return n


def learn(n, known):
    """the node hears of addresses from a peer that leaves again"""
    p = Friend(n, ('3.3.3.3', 3333), asyncore.Sock())
    n.command_address(p, addr_list=[protocol.NetworkAddress(1900000000, 1, ip, port) for ip, port in known])
    p.handle_close()


def seeks(seek, most, boot, known, linked, beats):
    """heartbeats of a node that knows some addresses and has some peers"""
    n = seeker(seek, most, boot)
    learn(n, known)
    for a in linked:
        p = Friend(n, a, asyncore.Sock())
        p.add_banscore(3)
    for i in range(beats):
        n.heartbeat()
    now = [p.address for p in n.peers]
    return ([now.count(a) for a in known], [now.count(a) for a in linked], now.count(SEED), len(now), [n.dials.count(a) for a in known], n.dials.count(SEED), len(n.dials),
            n.asked, [p.banscore for p in n.peers if p.address in linked])


def refused(a):
    return __app__('refuses', 'bool', a[0])


def seeks_spec(seek, most, boot, known, linked, beats):
    """known addresses are dialled until enough are connected; one that refuses is forgotten; the seed is for a node that knows none"""
    at = [0 for a in known]          # connected
    tried = [0 for a in known]
    gone = [0 for a in known]
    seed = 0
    seeds = 0
    asked = 0
    score = 3
    for i in range(beats):
        turns = min(seek - len(linked) - sum(at) - seed, 5)
        for j in range(5):
            if j < turns:
                if sum(gone) < len(known):
                    done = False
                    for k in range(len(known)):
                        if not done and not at[k] and not gone[k] and known[k] not in linked:
                            done = True
                            tried[k] = tried[k] + 1
                            if refused(known[k]):
                                gone[k] = 1
                            else:
                                at[k] = 1
                elif boot and not seed and 1 + len(linked) + sum(at) < most:
                    seeds = seeds + 1
                    if not refused(SEED):
                        seed = 1
        score = max(0, score - 1)
        if len(linked) > 0:
            asked = asked + 1
    return ([1 if known[k] in linked else at[k] for k in range(len(known))], [1 for a in linked], seed, len(linked) + sum(at) + seed, tried, seeds, sum(tried) + seeds, asked, [score for a in linked])


def counts(r):
    """the same without saying which of the known addresses were dialled"""
    return (r[2], r[3], r[5], r[6], r[7], r[8])


def seeks_some(seek, most, boot, known, linked, beats):
    return counts(seeks(seek, most, boot, known, linked, beats))


def seeks_some_spec(seek, most, boot, known, linked, beats):
    return counts(seeks_spec(seek, most, boot, known, linked, beats))


# ---- one dial

def dials(address, force, most, linked):
    n = seeker(16, most, False)
    for a in linked:
        Friend(n, a, asyncore.Sock())
    before = n.add_peer(address, force)
    again = n.add_peer(address, force)
    return (before, again, len(n.dials), [p.address for p in n.peers].count(address))


def dials_spec(address, force, most, linked):
    if address == ('9.9.9.9', 7777):
        return (False, False, 0, 0)
    if address in linked:
        return (False, False, 0, 1)
    if not force and 1 + len(linked) >= most:
        return (False, False, 0, 0)
    if refused(address):
        return (False, False, 2, 0)
    return (True, False, 1, 1)


# ---- maintenance comes at most once in ten seconds

class Beating(conn.Node):
    beats = 0
    begun = 0

    def heartbeat(self):
        self.beats = self.beats + 1

    def begin_loop(self):
        self.begun = self.begun + 1


def beats(own, linked, t0, t1, t2, t3):
    __clock__(t0)
    n = Beating(data_dir='/d', address=('9.9.9.9', 7777), bootstrap=False)
    c = None
    if linked:
        c = conn.a_link(n)
    if not own:
        n.del_channel()
    out = []
    for now in (t1, t2, t3):
        __clock__(now)
        channels = [o for fd, o in n.items()]
        out.append((n.begun, n.beats, n in channels, c in channels, len(channels)))
    return out


def beats_spec(own, linked, t0, t1, t2, t3):
    last = 0
    beats = 0
    begun = 0
    out = []
    for now in (t1, t2, t3):
        begun = begun + 1
        if now - last > 10:
            last = now
            beats = beats + 1
        out.append((begun, beats, own, linked, (1 if own else 0) + (1 if linked else 0)))
    return out


# ---- serving

class Host(conn.Node):
    def create_socket(self, family=2, type=1):
        self.set_socket(nodes.Visitor())


def mapped(port, proto, label):
    __emit__('seen', 'mapped', port, proto)


def unmapped(port, proto):
    __emit__('seen', 'unmapped', port, proto)


def turning(timeout, use_poll, map, count):
    __emit__('seen', 'loop', map is not None)
    how = __sym__('how', 'int', 0, 5)
    if how == 1:
        raise StopNode()
    if how == 2:
        raise KeyError('bug')
    if how == 3:
        raise OSError('select')
    if how == 4:
        raise KeyboardInterrupt()
    if how == 5:
        raise SystemExit(3)


def serves(listening, port, how):
    __clock__(2000000000)
    n = Host(data_dir='/d', address=('9.9.9.9', port) if listening else None, bootstrap=False)
    c = conn.a_link(n)
    try:
        n.serve_forever()
    except (KeyError, OSError, KeyboardInterrupt, SystemExit):
        return ('failed', n in n.values())
    return ('done', n in n.values())


def serves_spec(listening, port, how):
    if listening:
        __emit__('seen', 'mapped', port, 'TCP')
    __emit__('seen', 'loop', True)
    __emit__('seen', 'guest closed', '')
    if listening:
        __emit__('seen', 'unmapped', port, 'TCP')
    return ('done' if how < 2 else 'failed', False)


# ---- the node is the map of its channels

def maps(a, b, c):
    n = conn.a_node()
    n[a] = 'x'
    n[b] = 'y'
    had = (a in n, b in n, c in n, n.get(c), n.get(c, 'none'), n[a], n[b], len(n), len(list(n.keys())), len(list(n.values())), len([k for k in n]))
    del n[b]
    return had + (a in n, b in n, len(n), n.get(a), a in n.keys(), 'x' in n.values(), len([v for k, v in n.items() if v == 'x']), a in [k for k in n], 'x' in [k for k in n], c in list(n))


def maps_spec(a, b, c):
    d = {}
    d[3] = 'node'
    d[a] = 'x'
    d[b] = 'y'
    had = (a in d, b in d, c in d, d.get(c), d.get(c, 'none'), d[a], d[b], len(d), len(d), len(d), len(d))
    del d[b]
    return had + (a in d, b in d, len(d), d.get(a), a in d, 'x' in d.values(), len([v for k, v in d.items() if v == 'x']), a in d, False, c in d)


def first(xs):
    for x in xs:
        return x
