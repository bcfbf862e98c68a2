"""Scenarios on what a node asks the network for at its start, and the reference for them (read by the analysis, never run)."""
from nbc import util
from nbc.util import bootstrap


class World(object):
    """threads that take a while each, and what the network answers"""

    def __init__(self):
        self.now = 1000
        self.threads = []
        self.slow = []
        self.ran = []
        self.asked = []
        self.answer = None
        self.kind = 'dict'
        self.held = 0
        self.waits = False

    def pass_to(self, when):
        if when > self.now:
            self.now = when
        for i in range(len(self.threads)):
            if not self.ran[i] and 1000 + self.slow[i] <= self.now:
                self.ran[i] = True
                self.threads[i].run()


world = World()


def begin(slow):
    global world
    world = World()
    world.slow = list(slow)
    return world


# ---- stand-ins

class Stuck(BaseException):
    """a lock that will not be released any more is waited for"""


def acquire(lock, blocking=True, timeout=-1):
    if lock._depth > 0:
        raise Stuck()
    lock._depth = 1
    world.held = world.held + 1
    return True


def release(lock):
    if lock._depth == 0:
        raise RuntimeError('release unlocked lock')
    lock._depth = 0
    world.held = world.held - 1


def slow_call():
    """others may not wait for this"""
    if world.held > 0:
        world.waits = True


def start(thread):
    world.threads.append(thread)
    world.ran.append(False)
    world.pass_to(world.now)


def join(thread, timeout=None):
    for i in range(len(world.threads)):
        if world.threads[i] is thread and not world.ran[i]:
            end = 1000 + world.slow[i]
            if timeout is not None and world.now + timeout < end:
                end = world.now + timeout
            world.pass_to(end)


def clock():
    return world.now


class Request(object):
    def __init__(self, url, data=None, headers=None):
        self.url = url
        self.headers = headers


class Page(object):
    def __init__(self, body):
        self.body = body

    def read(self, n=None):
        return self.body

    def __enter__(self):
        return self

    def __exit__(self, a, b, c):
        pass

    def close(self):
        pass


def urlopen(request, data=None, timeout=None):
    slow_call()
    world.asked.append((request.url, request.headers['User-Agent']))
    if world.answer is None:
        raise OSError('no route')
    return Page(world.answer)


def resolve(host, port):
    """what a name stands for: some addresses, or a failure"""
    (name, n) = host
    if n < 0:
        raise OSError('unknown name')
    return [(2, 1, 6, '', (__app__('address', 'str', name, i), port)) for i in range(n)]


def getaddrinfo(host, port, family=0, type=0, proto=0, flags=0):
    slow_call()
    return resolve(host, port)


# ---- heights

class Coin(object):
    block_height_guess = []


def source(ok, value):
    def ask():
        slow_call()
        if not ok:
            raise OSError('no route')
        return value
    return ask


def heights(names, slow, good, values, timeout):
    begin(slow)
    coin = Coin()
    coin.block_height_guess = [(names[i], source(good[i], values[i])) for i in range(len(names))]
    if timeout is None:
        r = util.guess_block_height(coin)
    else:
        r = util.guess_block_height(coin, timeout)
    end = world.now
    first = [r.get(n) for n in names]
    world.pass_to(9999)
    return (end, first, [r.get(n) for n in names], len(r), world.waits, world.held)


def heights_spec(names, slow, good, values, timeout):
    last = 0
    for s in slow:
        if s > last:
            last = s
    limit = 5.0 if timeout is None else timeout
    if limit < last:
        last = limit
    out = []
    n = 0
    for i in range(len(names)):
        if slow[i] <= last and good[i]:
            out.append(values[i])
            n = n + 1
        else:
            out.append(None)
    return (1000 + last, out, list(out), n, False, 0)


# ---- seeds

def seeds(hosts, slow, when):
    """addresses found by some moment, and when all names were answered; each is drawn once"""
    begin(slow)
    s = bootstrap.DNSSeeder([(hosts[i], 1000 + i) for i in range(len(hosts))])
    world.pass_to(1000 + when)
    early = len(s)
    world.pass_to(9999)
    n = len(s)
    out = []
    for i in range(n):
        out.append(s.pop())
    left = len(s)
    empty = False
    try:
        s.pop()
    except (IndexError, ValueError):
        empty = True
    return (early, n, out, left, empty, len(s), world.waits, world.held)


def seeds_spec(hosts, slow, when):
    early = 0
    out = []
    for late in (False, True):
        for i in range(len(hosts)):
            if (slow[i] > when) == late:
                (name, n) = hosts[i]
                for k in range(n):
                    out.append((__app__('address', 'str', name, k), 1000 + i))
                    if not late:
                        early = early + 1
    return (early, len(out), out, 0, True, 0, False, 0)


# ---- pages

def page(answer, url):
    w = begin(())
    w.answer = answer
    r = util.fetch_url_int(url)()
    return (r, list(w.asked))


def page_spec(answer, url):
    r = None
    try:
        r = int(answer)
    except Exception:
        r = None
    return (r, [(url, 'pycoind')])


def field(answer, url, path, kind='dict'):
    w = begin(())
    w.answer = answer
    w.kind = kind
    f = util.fetch_url_json_path_int(url, path)
    before = len(w.asked)
    return (f(), before, list(w.asked))


def walk(data, parts):
    for p in parts:
        if isinstance(data, dict):
            data = data[p]
        elif isinstance(data, (list, tuple)):
            data = data[int(p)]
        else:
            return None
    return int(data)


def field_spec(answer, url, parts, kind='dict'):
    if answer is None:
        raise OSError('no route')
    try:
        r = walk(document(answer, kind), parts)
    except Exception:
        r = None
    return (r, 0, [(url, 'pycoind')])


def document(text, kind):
    """the data that a page stands for"""
    if __app__('broken', 'bool', text):
        raise ValueError('no data')
    n = __app__('height', 'int', text)
    if kind == 'dict':
        return {'blocks': n, 'chain': [{'height': n + 1, 'name': 'x'}, {'height': n + 2}], 'text': 'y', 'none': None, 'quoted': '17', '7': {'height': n + 3, '0': n + 4}, '': n + 5, 'zero': 0, 'list': [[n + 6, n + 7], n + 8], 'true': True}
    if kind == 'list':
        return [n, {'height': n + 1, '1': n + 2}, [n + 3]]
    if kind == 'number':
        return n
    if kind == 'text':
        return 'word'
    return None


def loads(text):
    return document(text, world.kind)
