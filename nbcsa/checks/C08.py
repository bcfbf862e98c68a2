from .. import terms as t
from ..terms import K, isc, cv
from ..check import Check
from ..interp import Cls, Func, Unsup
from . import wire

HANDLERS = ['version', 'verack', 'ping', 'pong', 'getaddr', 'addr']

def classes(I, mod, base):
    b = I.member(base).a[0]
    out = []
    for h in (I.base, I.st.h):
        for (o, name), v in list(h.items()):
            if o is I.mods[mod] and v.op == 'ref' and isinstance(v.a[0], Cls) and b in v.a[0].mro and v.a[0] is not b and v.a[0] not in out: out.append(v.a[0])
    return out
def command(I, c):
    v = I.getattr_(c.ref, 'command')
    if not isc(v): raise Unsup('command of %s is not constant' % c.name)
    return cv(v)
def opted_out(I, c):
    v = I.getattr_(c.ref, 'not_regist')
    if not isc(v): raise Unsup('not_regist of %s is not constant' % c.name)
    return bool(cv(v))
def registered(I, name):
    """the class a frame of this command is read as, None if there is none"""
    v = I.simpv(I.call(I.getattr_(I.getattr_(I.member('nbc.protocol.messages.Message'), 'MessageTypes'), 'get'), [K(name)], {}))
    if v is t.NONE: return None
    if v.op == 'ref' and isinstance(v.a[0], Cls): return v.a[0]
    raise Unsup('registry entry of %r' % (name,))

def build():
    c = Check('C08', 'The registry the class statements of the package leave behind (their metaclass included) is compared with the message types: '
                     'each type that does not opt out under its own command, none that does, commands ASCII and short; types of our own defined on top of the package as well; '
                     'each handler the node must have accepts the connection and exactly the fields of its message.')
    mod = 'nbc.protocol.messages'
    def registry(I):
        bad = []; n = 0; seen = {}
        for k in classes(I, mod, mod + '.Message'):
            n += 1
            cmd = command(I, k)
            if not isinstance(cmd, str) or not cmd or len(cmd) > 12 or any(ord(x) > 126 or ord(x) < 33 for x in cmd): bad.append('%s: command %r is no valid command' % (k.name, cmd)); continue
            r = registered(I, cmd)
            if opted_out(I, k):
                if r is k: bad.append('%s opts out, but is registered as %r' % (k.name, cmd))
            else:
                if r is None: bad.append('%s is not registered as %r' % (k.name, cmd))
                elif r is not k: bad.append('%r is read as %s, not as %s' % (cmd, r.name, k.name))
                if cmd in seen: bad.append('%s and %s share the command %r' % (seen[cmd], k.name, cmd))
                seen[cmd] = k.name
        return bad, n
    c.require('types of the package', registry)
    def reference(I):
        bad = []; n = 0
        for cmd, (cls, name, fields) in wire.W.MESSAGES.items():
            n += 1
            k = registered(I, cmd)
            if k is None: bad.append('no message is read for %r' % cmd); continue
            got = I.getattr_(k.ref, 'command')
            if got is not K(cmd): bad.append('%r is read as %s whose command is %s' % (cmd, k.name, t.show(got)))
        for cmd in ('filterload', 'filteradd', 'filterclear', 'merkleblock'):
            n += 1
            if registered(I, cmd) is not None: bad.append('%r, which opts out, is read as %s' % (cmd, registered(I, cmd).name))
        return bad, n
    c.require('commands of the protocol', reference)
    def own(I):
        bad = []; n = 0
        I.load('spec.kinds')
        for name, out in (('Fresh', False), ('Quiet', True), ('FreshPing', False), ('QuietPing', True), ('LoudAgain', False), ('QuietAck', True)):
            n += 1
            k = I.member('spec.kinds.' + name).a[0]
            r = registered(I, command(I, k))
            if out and r is not None: bad.append('a new type that opts out (%s) is registered' % name)
            if not out and r is not k: bad.append('a new type (%s) is not registered under its command' % name)
        return bad, n
    c.require('types made on top of the package', own)
    def handlers(I):
        bad = []; n = 0
        node = I.member('nbc.node.basenode.BaseNode').a[0]
        for cmd in HANDLERS:
            cls, name, fields = wire.W.MESSAGES[cmd]
            k = registered(I, cmd)
            if k is None: bad.append('no message is read for %r' % cmd); continue
            n += 1
            m = I.cls_attr(node, 'command_' + name)
            if m is None: bad.append('the node has no command_%s' % name); continue
            if m.op != 'ref' or not isinstance(m.a[0], Func): raise Unsup('command_%s' % name)
            a = m.a[0].node.args
            pos = [x.arg for x in a.posonlyargs + a.args]; kwo = [x.arg for x in a.kwonlyargs]
            want = [f for f, _ in fields]
            if len(pos) < 2 and not a.vararg: bad.append('command_%s takes no connection' % name); continue
            have = pos[2:] + kwo
            for f in want:
                if f not in have and not a.kwarg: bad.append('command_%s does not take the field %s' % (name, f))
            nd = len(a.defaults)
            for x in pos[2:len(pos) - nd if nd else len(pos)] + [x for x, dflt in zip(kwo, a.kw_defaults) if dflt is None]:
                if x not in want: bad.append('command_%s needs %s, which the message does not have' % (name, x))
            # the fields of the message itself
            props = I.seq_of(I.getattr_(k.ref, 'properties'))
            names = [cv(t.seqget(t.seqget(props, K(i)), K(0))) for i in range(cv(t.length(props)))]
            if names != want: bad.append('%s has the fields %s, not %s' % (k.name, names, want))
        return bad, n
    c.require('handlers of the node', handlers)
    return c
