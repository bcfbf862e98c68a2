"""no callback of the event loop can reach a call that waits"""
import ast, re
from ..check import Check
from .. import flow

ROOT = re.compile(r'^(handle_\w+|readable|writable|items|keys|values|get|command_\w+|begin_loop|heartbeat|connected|disconnected|invalid_command|log|add_peer|remove_peer|add_any_peer|punish_peer|send_message|'
                  r'__len__|__getitem__|__setitem__|__delitem__|__iter__|__contains__|__nonzero__|__bool__|__hash__|__eq__|__str__)$')
WAITS = [
    (r'time\.sleep|sched\..*|signal\.(pause|sigwait.*)', 'sleeps'),
    (r'input|raw_input|six\.moves\.input|getpass\.getpass|sys\.stdin\.(read|readline|readlines|__next__)|code\.interact|pdb\..*', 'waits for the user'),
    (r'(urllib2|urllib\.request|six\.moves\.urllib\.request)\.(urlopen|urlretrieve|build_opener|install_opener)(\(\)\.\w+)?|http\.client\..*|httplib\..*|requests\..*|ftplib\..*|smtplib\..*|telnetlib\..*|xmlrpc\..*', 'fetches something from the network'),
    (r'socket\.(getaddrinfo|gethostbyname|gethostbyname_ex|gethostbyaddr|getfqdn|getnameinfo|create_connection)', 'resolves a name'),
    (r'threading\.Thread\(\)\.join|threading\.Timer\(\)\.join|multiprocessing\.\w+\(\)\.(join|get|recv|wait)', 'joins a thread'),
    (r'threading\.(Lock|RLock|Semaphore|BoundedSemaphore|Condition)\(\)\.(acquire|__enter__|wait|wait_for)|threading\.(Event|Barrier)\(\)\.wait|_thread\.allocate_lock\(\)\..*', 'waits for a lock'),
    (r'(queue|Queue|multiprocessing)\.\w*Queue\(\)\.(get|put|join)', 'waits for a queue'),
    (r'subprocess\.(call|check_call|check_output|run|getoutput|getstatusoutput)|subprocess\.Popen\(\)\.(wait|communicate)|os\.(system|popen|wait|waitpid|wait3|wait4)', 'waits for a process'),
    (r'select\.(select|poll\(\)\.poll|epoll\(\)\.poll)|asyncore\.(loop|poll|poll2|poll3)', 'runs an event loop of its own'),
    (r'miniupnpc\..*', 'asks the router'),
]
WAITS = [(re.compile('^(?:%s)$' % r), w) for r, w in WAITS]

def const(node, default=None):
    return (True, node.value) if isinstance(node, ast.Constant) else (False, None)
def waits(k, node):
    m = k[0] == 'ext' and re.match(r'(?:asyncore\.dispatcher\w*\(\)\.(?:socket|accept\(\)\S*)|socket\.socket\(\))\.(\w+)$', k[1])
    if m: k = ('unk', m.group(1))
    if k[0] == 'unk':        # an object nothing is known of: only names that nothing but a waiting operation has
        n = k[1]; a = node.args; kw = {x.arg: x.value for x in node.keywords}
        if n in ('sendall', 'makefile', 'gethostbyname', 'getaddrinfo', 'urlopen', 'communicate', 'recv', 'recvfrom', 'recv_into'): return 'a call of %s waits' % n
        if n in ('join', 'wait') and not a and not kw: return 'a call of %s() waits' % n
        if n == 'acquire' and not a and not kw: return 'a call of acquire() waits for a lock'
        if n == 'setblocking' and a and const(a[0]) != (True, False) and const(a[0]) != (True, 0): return 'the socket is made to wait (setblocking)'
        if n == 'settimeout' and a and not (const(a[0])[0] and const(a[0])[1] == 0 and const(a[0])[1] is not None): return 'the socket is made to wait (settimeout)'
        return None
    if k[0] != 'ext': return None
    p = k[1]
    for r, w in WAITS:
        if r.match(p):
            if p.endswith('.acquire') and isinstance(node, ast.Call):
                a = node.args[0] if node.args else next((x.value for x in node.keywords if x.arg in ('blocking', 'block')), None)
                if isinstance(a, ast.Constant) and not a.value: return None
            if re.search(r'Queue\(\)\.(get|put)$', p) and isinstance(node, ast.Call):
                a = next((x.value for x in node.keywords if x.arg == 'block'), None)
                if isinstance(a, ast.Constant) and not a.value: return None
            return '%s %s' % (p, w)
    return None

def dispatchers(p):
    return [c for c in p.classes.values() if any('asyncore.dispatcher' in d.extbases or 'asyncore.dispatcher_with_send' in d.extbases for d in c.mro())]

def build():
    c = Check('C13', 'Call graph of the package (points-to analysis of functions, classes and objects): nothing reachable from a method the event loop calls, except through the start of a thread, is a call that '
                     'sleeps, prompts, fetches, resolves, joins, takes a lock or runs a loop of its own.')
    c.needs = ['nbc.coins']
    p = flow.program()
    ds = dispatchers(p)
    if not any(x.name == 'BaseNode' for x in ds) or not any(x.name == 'Connection' for x in ds):
        from ..interp import Broken
        def gone(I): raise Broken('BaseNode and Connection are not dispatchers any more')
        c.add('the event loop has its callbacks', gone)
    for cl in sorted(ds, key=lambda x: x.qual):
        for name in sorted(cl.attrs):
            if not ROOT.match(name): continue
            fs = [k[1] for k in cl.attrs[name] if k[0] == 'fn']
            if not fs: continue
            def go(I, fs=fs, cl=cl):
                seen = {f: None for f in fs}; todo = list(fs); out = []; calls = 0
                while todo:
                    f = todo.pop(0)
                    for node, k in f.calls:
                        calls += 1
                        w = waits(k, node)
                        if w:
                            path = []; g = f
                            while g is not None: path.append(g.qual); g = seen[g]
                            out.append('%s:%d: %s, on the path %s' % (f.mod.path.replace(p.root + '/', ''), node.lineno, w, ' -> '.join(reversed(path))))
                        if k[0] == 'fn' and k[1] not in seen: seen[k[1]] = f; todo.append(k[1])
                I.stats['functions'] = {f.qual for f in seen}
                return sorted(set(out)), calls
            c.require('%s.%s never waits' % (cl.qual, name), go)
    def numeric(I):
        from .. import terms as t
        out = []; n = 0
        cs = I.member('nbc.coins.Coins')
        for cl in t.parts(I.seq_of(cs)) if hasattr(t, 'parts') else I.seq_of(cs).a:
            seeds = I.seq_of(I.getattr_(cl, 'dns_seeds'))
            for s in seeds.a:
                host = s.a[0] if s.op == 'tup' else I.seq_of(s).a[0]
                n += 1
                if t.isc(host):
                    import socket
                    ok = False
                    for fam in (socket.AF_INET, socket.AF_INET6):
                        try: socket.inet_pton(fam, t.cv(host)); ok = True
                        except OSError: pass
                    if not ok: out.append('connecting to the seed %r of %s has to resolve its name' % (t.cv(host), I.reify(I.getattr_(cl, 'name'))))
        return out, n
    c.require('the addresses a node starts from are numeric', numeric)
    return c
