"""Scenarios on the mapping of a port at a router, and the reference for them (read by the analysis, never run)."""
import nbc.node as node


def taken(port, proto):
    """is this external port redirected for somebody else?"""
    return __app__('taken', 'bool', port, proto)


class Router(object):
    lanaddr = '192.168.0.7'
    discoverdelay = 0

    def __init__(self, how):
        self.how = how
        self.made = []
        self.gone = []
        self.asked = 0

    def discover(self):
        self.asked = self.asked + 1
        if self.how == 7 and self.asked == 1:
            raise RuntimeError('no answer yet')
        if self.how == 1:
            raise RuntimeError('no answer')
        return 1

    def selectigd(self):
        if self.how == 2:
            raise RuntimeError('no device')

    def externalipaddress(self):
        return '8.7.6.5'

    def statusinfo(self):
        return 'Connected'

    def connectiontype(self):
        return 'IP_Routed'

    def mine(self, port, proto):
        return [m[:2] for m in self.made].count((port, proto)) > [m for m in self.gone].count((port, proto))

    def getspecificportmapping(self, port, proto):
        if port > 65535:
            return None
        if self.mine(port, proto) or taken(port, proto):
            return (self.lanaddr, port, 'somebody', True, 0)
        return None

    def addportmapping(self, port, proto, host, inner, label, remote):
        if self.how == 4:
            raise RuntimeError('lost')
        if self.how == 3 or port > 65535:
            return False
        self.made.append((port, proto, host, inner, label, remote))
        return True

    def deleteportmapping(self, port, proto):
        self.gone.append((port, proto))
        if self.how == 5:
            raise RuntimeError('lost')
        return self.how != 6


class Lib(object):
    def __init__(self, router):
        self.router = router

    def UPnP(self):
        return self.router


def free(port, proto, mine):
    p = port
    while p < 65536 and (p in mine or taken(p, proto)):
        p = p + 1
    return p


def maps(how, port, proto, label):
    """a port is mapped and released"""
    r = Router(how)
    node.miniupnpc = Lib(r)
    got = node.add_portmap(port, proto, label)
    done = list(r.made)
    node.remove_portmap(port, proto)
    return (got is not None and got is not False, done, list(r.gone))


def maps_spec(how, port, proto, label):
    p = free(port, proto, ())
    ok = how not in (1, 2, 3, 4) and p < 65536
    if not ok:
        return (False, [], [])
    return (True, [(p, proto, '192.168.0.7', port, label, '')], [(p, proto)])


def maps_two(first, second, third):
    """the same port for two protocols, and another; they are released in another order"""
    r = Router(0)
    node.miniupnpc = Lib(r)
    node.add_portmap(first, 'TCP', 'a')
    node.add_portmap(second, 'UDP', 'b')
    node.add_portmap(third, 'TCP', 'c')
    made = list(r.made)
    node.remove_portmap(second, 'UDP')
    node.remove_portmap(third, 'TCP')
    node.remove_portmap(first, 'TCP')
    node.remove_portmap(second, 'UDP')
    return (made, list(r.gone), r.asked)


def maps_two_spec(first, second, third):
    a = free(first, 'TCP', ())
    b = free(second, 'UDP', ())
    c = free(third, 'TCP', (a,))
    h = '192.168.0.7'
    return ([(a, 'TCP', h, first, 'a', ''), (b, 'UDP', h, second, 'b', ''), (c, 'TCP', h, third, 'c', '')], [(b, 'UDP'), (c, 'TCP'), (a, 'TCP')], 1)


def never(port, proto):
    """a release without a mapping, and without a router"""
    r = Router(0)
    node.miniupnpc = Lib(r)
    node.remove_portmap(port, proto)
    return (list(r.made), list(r.gone))


def never_spec(port, proto):
    return ([], [])


def alone(port, proto):
    """no library: nothing happens"""
    node.miniupnpc = None
    a = node.add_portmap(port, proto, 'x')
    b = node.remove_portmap(port, proto)
    return (not a, not b)


def alone_spec(port, proto):
    return (True, True)


def patient(port, proto):
    """the first search for a router fails; the port is asked for three times"""
    r = Router(7)
    node.miniupnpc = Lib(r)
    a = node.add_portmap(port, proto, 'x')
    b = node.add_portmap(port, proto, 'y')
    c = node.add_portmap(port, proto, 'z')
    return (not a, not b, not c, list(r.made), r.asked)


def patient_spec(port, proto):
    p = free(port, proto, ())
    h = '192.168.0.7'
    made = []
    q = p
    if p < 65536:
        made.append((p, proto, h, port, 'y', ''))
        q = free(port, proto, (p,))
        if q < 65536:
            made.append((q, proto, h, port, 'z', ''))
    return (True, p >= 65536, q >= 65536, made, 2)
