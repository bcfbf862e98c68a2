import os
_g = {}
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'b1.py')).read().split('BUGS =')[0], _g)
HEAD = _g['HEAD']
BUGS = {
'c18-early-check': dict(property='C18', edits=[('nbc/wallet/__init__.py', "  sCfg = json.dumps(cfg)\n", "  sCfg = json.dumps(cfg)\n  open(fileName,'w').close()   # fail early when it can not be written\n")],
  needs='a failure to write after the file was found writable', breaks='the wallet that was there is truncated before the new one is written',
  demo='''
import os, tempfile, shutil
d = tempfile.mkdtemp()
try:
    import nbc.wallet as w
    class Wallet(object):
        def __init__(self, n): self.n = n
        def dump_to_cfg(self, passphrase=''): return {'type': 'default', 'n': self.n}
    f = os.path.join(d, 'wallet')
    w.saveTo(f, Wallet(1))
    before = open(f).read()
    class Os(object):
        def __getattr__(self, n): return getattr(os, n)
        def fsync(self, fd): raise OSError('disk full')
    w.os = Os()
    try: w.saveTo(f, Wallet(2))
    except OSError: pass
    assert open(f).read() == before, open(f).read()
finally:
    shutil.rmtree(d)
'''),
'c47-wait-each': dict(property='C47', edits=[('nbc/util/__init__.py', "    threads = []\n    for (name, func) in coin.block_height_guess:\n", "    threads = []\n    t0 = time.time()\n    for (name, func) in coin.block_height_guess:\n"), ('nbc/util/__init__.py', "    t0 = time.time()\n    for thread in threads:\n        wait_time = timeout - (time.time() - t0)\n        if wait_time < 0: break\n        thread.join(wait_time)\n", "    for thread in threads:\n        thread.join(max(0, timeout - (time.time() - t0)) or timeout)\n")],
  needs='more than one source that does not answer in time', breaks='the call waits for the whole time again for sources after the first that is late',
  demo='''
import time, threading
from nbc import util
stop = threading.Event()
class C(object): block_height_guess = [(n, lambda: stop.wait(20)) for n in 'abc']
t = time.time(); util.guess_block_height(C, 0.5); t = time.time() - t; stop.set()
assert t < 0.95, t
'''),
'c47-zero-height': dict(property='C47', edits=[('nbc/util/__init__.py', "            block_height = func()\n            with lock:\n                result[name] = block_height\n", "            block_height = func()\n            with lock:\n                result[name] = block_height or None\n")],
  needs='a source of a chain with no block yet', breaks='a height of 0 is given as no answer',
  demo='''
from nbc import util
class C(object): block_height_guess = [('a', lambda: 0), ('b', lambda: 7)]
r = util.guess_block_height(C)
assert r == {'a': 0, 'b': 7}, r
'''),
'c47-seed-serial': dict(property='C47', edits=[('nbc/util/bootstrap.py', "        for address in self._dns_seeds:\n            thread = threading.Thread(target = try_address, args = (address, ))\n            thread.daemon = True\n            thread.start()\n", "        def try_all():\n            for address in self._dns_seeds: try_address(address)\n\n        thread = threading.Thread(target = try_all)\n        thread.daemon = True\n        thread.start()\n")],
  needs='a seed whose name takes long to resolve, before another one', breaks='the addresses of the seeds after it are not there until it is resolved',
  demo='''
import socket, threading, time
from nbc.util import bootstrap
stop = threading.Event()
def resolve(host, port, *a):
    if host == 'slow': stop.wait(20)
    return [(2, 1, 6, '', ('1.2.3.4', port))]
socket.getaddrinfo = resolve
s = bootstrap.DNSSeeder([('slow', 1), ('fast', 2)])
t = time.time()
while not len(s) and time.time() - t < 3: time.sleep(0.05)
n = len(s); stop.set()
assert n == 1, n
'''),
'c47-path-number': dict(property='C47', edits=[('nbc/util/__init__.py', "                if isinstance(data, dict):\n                    data = data[component]\n", "                if component.lstrip('-').isdigit():\n                    data = data[int(component)]\n                elif isinstance(data, dict):\n                    data = data[component]\n")],
  needs='a path whose key is a number, in a dictionary', breaks='the key is looked up as a number, not as a text, and nothing is found',
  demo='''
import io
from nbc import util
util.urllib2.urlopen = lambda r: io.BytesIO(b'{"chains": {"1": {"height": 5}}}')
assert util.fetch_url_json_path_int('http://x', 'chains/1/height')() == 5
'''),
'c44-counter-hex': dict(property='C44', edits=[('nbc/util/ecdsa/util.py', '"prng-%d-%s" % (counter', '"prng-%x-%s" % (counter')],
  needs='more than 320 octets of one seed', breaks='the generator yields other octets than its definition from there on',
  demo='''
from nbc.util.ecdsa import util
from hashlib import sha256
want = b''.join(sha256(('prng-%d-s' % n).encode()).digest() for n in range(12))
assert util.PRNG('s')(384) == want
'''),
}
