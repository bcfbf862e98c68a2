from .. import terms as t
from ..terms import K
from ..check import Check
from ..compare import Obs
from . import wire
W = wire.W

ERRORS = ['MsgFormatError', 'UnknownMsgError', 'Exception']

def near(r):
    """a command close to one of the protocol"""
    c = r.choice(sorted(W.MESSAGES)); k = r.randrange(8)
    if k == 0: c = c + '\0' + r.choice(('x', 'junk', ' ', c))
    elif k == 1: c = r.choice(('x', ' ', 'a\0', '\0a', '/')) + c
    elif k == 2: c = c + r.choice((' ', 's', '\n', '\t', '\x01', '\xff', '1'))
    elif k == 3: c = c.upper() if r.random() < .5 else c.capitalize()
    elif k == 4: c = c[:r.randrange(len(c))]
    elif k == 5: i = r.randrange(len(c)); c = c[:i] + r.choice(('\0', ' ', 'q', '_')) + c[i + 1:]
    elif k == 6: i = r.randrange(1, len(c)); c = c[:i] + r.choice(('\0', ' ', '_')) + c[i:]
    else: i = r.randrange(len(c)); c = c[:i] + chr(r.randrange(256)) + c[i + 1:]
    return c[:12]

def with_frame(v, cmd):
    """a frame of a valuation: a right one, or one with a single fault"""
    if getattr(v, 'frame', None) is not None: return v
    r = v.rng
    given = cmd
    if cmd is None and r.random() < .6:
        while cmd is None or cmd in W.MESSAGES: cmd = near(r)
    elif cmd is None: cmd = r.choice(['filterload', 'filteradd', 'filterclear', 'merkleblock', 'nothing', '', 'Ping', 'pin', 'ping2', 'ping\xe9', 'a' * 12, 'pi\0ng', ' ping'])
    out = bytearray()
    for _, k in (W.MESSAGES[cmd][2] if cmd in W.MESSAGES else []): wire.gen(k, r, [], out)
    if r.random() < .2: out = out[:r.randrange(len(out) + 1)]
    if r.random() < .2 or not out and r.random() < .5: out += bytes(r.getrandbits(8) for _ in range(r.choice((1, 2, 30))))
    pay = bytes(out)
    def dh(p): return v.digest('sha256', v.digest('sha256', p))
    name = cmd.encode('latin-1')
    name = name + b'\0' * (12 - len(name))
    f = bytearray(v.genbytes(4, r) + name + len(pay).to_bytes(4, 'little') + dh(pay)[:4] + pay)
    c = r.random()
    if c < .35: pass
    elif c < .5: f[20 + r.randrange(4)] ^= 1 << r.randrange(8)
    elif c < .6: f = f[:max(16, r.choice((0, 3, 4, 12, 16, 19, 20, 22, 23, 24, max(len(f) - 1, 0), r.randrange(len(f) + 1))))] if given else f[:r.choice((0, 3, 4, 12, 16, 19, 20, 22, 23, 24))]
    elif c < .65: f[16 + r.randrange(4)] ^= 1 << r.randrange(8)
    elif c < .8:
        n = r.choice((len(pay) + 1, max(len(pay) - 1, 0), 0, 2 ** 32 - 1)); f[16:20] = n.to_bytes(4, 'little')
        if r.random() < .8: f[20:24] = dh(bytes(f[24:24 + n]))[:4]
    elif c < .9 and pay: f[24 + r.randrange(len(pay))] ^= 1 << r.randrange(8)
    else: f += bytes(r.getrandbits(8) for _ in range(r.choice((1, 5, 24))))
    v.frame = bytes(f)
    return v

def build():
    c = Check('C04', 'Reading any bytes as a frame, and writing a message as one, denote the same function as the reference frame: outcome, kind of error, '
                     'for three interpretations of the hash function.')
    msg = 'nbc.protocol.messages.Message'
    d = t.sym('data', 'bytes'); magic = t.sym('magic', 'bytes', None, None, 4)
    def view(I, f, magic):
        m = I.call(I.member(msg + '.parse'), [f, magic], {})
        return t.tup([I.getattr_(m, 'command'), I.getattr_(m, 'magic')])
    # frames of one command: 4 bytes, the padded command, anything
    four = t.sym('four', 'bytes', None, None, 4); rest = t.sym('rest', 'bytes')
    for cmd in wire.COMMANDS:
        if cmd == 'block': continue
        pad = K(cmd.encode() + b'\0' * (12 - len(cmd)))
        g = {'four': lambda v, x: v.frame[:4], 'rest': lambda v, x: v.frame[16:], 'magic': lambda v, x: v.frame[:4] if v.rng.random() < .9 else v.genbytes(4, v.rng)}
        g = dict((k, (lambda f, cmd: lambda v, x: f(with_frame(v, cmd), x))(f, cmd)) for k, f in g.items())
        c.agree('frames of ' + cmd, lambda I, a: view(I, t.cat([a[0], a[1], a[2]]), a[3]), 'spec.wire.read_frame_of', [four, pad, rest, magic], cats=ERRORS,
                overrides=wire.VARINT, spec_overrides=wire.VARINT, modes=(0, 0, 1, 2), gens=g, samples=4000 if c.thorough else 600, where=msg + '.parse')
    def unknown(I, a):
        name = I.call(I.member('spec.wire.frame_name'), [a[0]], {})
        p = t.TRUE
        for k in wire.W.MESSAGES: p = t.and_(p, t.not_(t.eq(name, K(k))))
        return p
    # a frame of no command must not reach any parser of payloads: reading one as a message is an outcome of its own
    refused = lambda I, f, args, kw: I.throw('KeyError')
    c.agree('frames of no command', lambda I, a: view(I, a[0], a[1]), 'spec.wire.read_frame', [d, magic], cats=ERRORS, pre=unknown,
            overrides=dict(wire.VARINT, **{'nbc.protocol.format.CompoundType.parse': refused}), spec_overrides=wire.VARINT, modes=(0, 0, 1, 2), gens={'data': lambda v, x: bytes(with_frame(v, None).frame), 'magic': lambda v, x: with_frame(v, None).frame[:4] if v.rng.random() < .9 else v.genbytes(4, v.rng)},
            samples=1200, where=msg + '.parse')
    # the header alone decides, whatever the payload is: no payload, or one that is all of it
    c.agree('length of the first frame', msg + '.first_msg_len', 'spec.wire.frame_size', [d], where=msg + '.first_msg_len')
    # writing
    for m in wire.COMMANDS:
        F = W.MESSAGES[m][2]
        def write(I, a, m=m):
            return I.call(I.getattr_(I.call(I.member(msg + '.parse'), [wire.spec(I, 'frame', a[1], m, a[0]), a[1]], {}), 'binary'), [a[2]], {})
        c.agree('frame written for ' + m, write, lambda I, a, m=m: wire.spec(I, 'rewrite_message', m, a[0], a[2]),
                lambda I: wire.payload(I) + [t.sym('other', 'bytes', None, None, 4)], pre=wire.short, overrides=wire.VARINT, spec_overrides=wire.VARINT,
                modes=(0, 1, 2), gens={'payload': wire.gen_fields(F)}, where=msg + '.binary') if m not in ('block', 'tx', 'headers') else None
    other = t.sym('other', 'bytes', None, None, 4)
    for m in ('ping', 'inv', 'version'):
        def make(I, a, m=m): return I.call(I.member(msg + '.parse'), [wire.spec(I, 'frame', a[1], m, a[0]), a[1]], {})
        def fields(I, o, a): return t.tup([I.getattr_(o, 'magic'), I.getattr_(o, 'command')])
        c.again('message ' + m, make, {'frame': lambda I, o, a: I.call(I.getattr_(o, 'binary'), [a[2]], {}), 'magic': fields}, [t.sym('payload', 'bytes'), magic, other], pre=wire.short, overrides=wire.VARINT, spec_overrides=wire.VARINT,
                gens={'payload': wire.gen_fields(W.MESSAGES[m][2])}, samples=200, where=msg + '.binary')
    return c
