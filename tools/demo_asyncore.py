"""Stand-in for the asyncore module (gone from this Python), with sockets that only exist in memory."""
_fd = [100]

class Sock(object):
    def __init__(self):
        _fd[0] += 1
        self.fd = _fd[0]; self.inbox = []; self.out = b''; self.room = None; self.closed = False; self.fail = set()
    def fileno(self): return self.fd
    def getsockname(self): return ('127.0.0.1', 40000)
    def setblocking(self, flag): pass
    def setsockopt(self, *a): pass
    def close(self):
        self.closed = True
        if 'close' in self.fail: raise OSError('close')
    def send(self, data):
        if 'send' in self.fail: raise OSError('send')
        n = len(data) if self.room is None else min(self.room, len(data))
        self.out += data[:n]
        return n
    def recv(self, size):
        if 'recv' in self.fail: raise OSError('recv')
        if not self.inbox: return b''
        d = self.inbox.pop(0)
        if len(d) > size: self.inbox.insert(0, d[size:]); d = d[:size]
        return d

class dispatcher(object):
    connected = accepting = connecting = closing = False
    addr = None
    fail = set()
    def __init__(self, sock=None, map=None):
        self._map = map; self._fileno = None; self.pending = []
        if sock: self.connected = True; self.set_socket(sock, map)
        else: self.socket = None
    def create_socket(self, family=2, type=1): self.set_socket(Sock())
    def set_socket(self, sock, map=None):
        self.socket = sock; self._fileno = sock.fileno(); self.add_channel(map)
    def add_channel(self, map=None): (self._map if map is None else map)[self._fileno] = self
    def del_channel(self, map=None):
        m = self._map if map is None else map
        if self._fileno in m: del m[self._fileno]
        self._fileno = None
    def getsockname(self): return self.socket.getsockname()
    def set_reuse_addr(self): pass
    def readable(self): return True
    def writable(self): return True
    def listen(self, n): self.accepting = True
    def bind(self, addr):
        if 'bind' in self.fail: raise OSError('bind')
        self.addr = addr
    def connect(self, address):
        if 'connect' in self.fail: raise OSError('connect')
        self.addr = address; self.connected = True
    def accept(self): return self.pending.pop(0) if self.pending else None
    def send(self, data): return self.socket.send(data)
    def recv(self, size):
        d = self.socket.recv(size)
        if not d: self.handle_close(); return b''
        return d
    def close(self):
        self.connected = self.accepting = self.connecting = False
        self.del_channel()
        if self.socket is not None: self.socket.close()
    def handle_read(self): pass
    def handle_write(self): pass
    def handle_close(self): self.close()

def loop(timeout=30.0, use_poll=False, map=None, count=None): pass
