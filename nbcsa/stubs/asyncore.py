# asyncore.dispatcher as the analysis sees it (the event loop and the kernel are not part of /repo)


class Sock(object):
    """a socket of the kernel"""

    def __init__(self):
        self._fd = 3 + __count__('fd')

    def fileno(self):
        return self._fd

    def getsockname(self):
        return ('127.0.0.1', 49152)

    def setblocking(self, flag):
        __emit__('sock', 'setblocking', flag)

    def close(self):
        __emit__('sock', 'close')
        _net_fail('close')

    def getpeername(self):
        return __app__('sock_peername', 'any')

    def setsockopt(self, *a):
        pass


def _net_fail(op):
    if __fresh__('net_fail_' + op, 'bool'):
        raise OSError(op)


class dispatcher(object):

    connected = False
    accepting = False
    connecting = False
    closing = False
    addr = None

    def __init__(self, sock=None, map=None):
        self._map = map
        self._fileno = None
        if sock:
            self.connected = True
            self.set_socket(sock, map)
        else:
            self.socket = None

    def create_socket(self, family=2, type=1):
        _net_fail('socket')
        __emit__('sock', 'open')
        s = Sock()
        s.setblocking(0)
        self.set_socket(s)

    def set_socket(self, sock, map=None):
        self.socket = sock
        self._fileno = sock.fileno()
        self.add_channel(map)

    def add_channel(self, map=None):
        if map is None:
            map = self._map
        map[self._fileno] = self

    def del_channel(self, map=None):
        fd = self._fileno
        if map is None:
            map = self._map
        if fd in map:
            del map[fd]
        self._fileno = None

    def getsockname(self):
        return self.socket.getsockname()

    def set_reuse_addr(self):
        pass

    def readable(self):
        return True

    def writable(self):
        return True

    def listen(self, n):
        self.accepting = True
        _net_fail('listen')

    def bind(self, addr):
        self.addr = addr
        _net_fail('bind')

    def connect(self, address):
        self.connected = False
        self.connecting = True
        _net_fail('connect')
        self.addr = address
        __emit__('sock', 'connect', address)

    def accept(self):
        if __fresh__('no_accept', 'bool'):
            return None
        return (Sock(), __fresh__('accept_addr', 'any'))

    def send(self, data):
        _net_fail('send')
        n = __fresh__('sent', 'int')
        if n < 0 or n > len(data):
            n = 0
        __emit__('wire', data[:n])
        return n

    def recv(self, size):
        _net_fail('recv')
        data = __fresh__('received', 'bytes')[:size]
        if not data:
            self.handle_close()
            return b''
        return data

    def close(self):
        self.connected = False
        self.accepting = False
        self.connecting = False
        self.del_channel()
        if self.socket is not None:
            self.socket.close()

    def handle_read_event(self):
        self.handle_read()

    def handle_write_event(self):
        self.handle_write()

    def handle_error(self):
        self.handle_close()

    def handle_expt(self):
        pass

    def handle_read(self):
        pass

    def handle_write(self):
        pass

    def handle_connect(self):
        pass

    def handle_accept(self):
        pass

    def handle_close(self):
        self.close()


def loop(timeout=30.0, use_poll=False, map=None, count=None):
    __emit__('block', 'loop')


def close_all(map=None, ignore_all=False):
    __emit__('sock', 'close_all')
