"""Idioms, each a function of typed arguments: i* int, n* non-negative int, b* bytes, s* ascii str, l* list of ints, o* int or None, f* bool."""
import struct, binascii, hashlib, functools, itertools, operator, math, collections, io, os, re


def a01(b1): return bytes(reversed(b1))
def a02(b1): return b1[::-1]
def a03(b1): return b''.join([b1[i:i + 1] for i in range(len(b1) - 1, -1, -1)])
def a04(b1): return bytes(bytearray(x ^ 0x5c for x in b1))
def a05(b1): return bytes([x & 15 for x in b1])
def a06(b1, b2): return bytes(x ^ y for x, y in zip(b1, b2))
def a07(b1): return sum(b1)
def a08(b1): return max(b1) if b1 else -1
def a09(b1): return [x for x in b1 if x > 10]
def a10(b1): return b1.hex()
def a11(b1): return binascii.hexlify(b1).decode('ascii')
def a12(b1): return int.from_bytes(b1, 'big')
def a13(b1): return int(b1.hex() or '0', 16)
def a14(n1): return n1.to_bytes(8, 'little')
def a15(n1): return struct.pack('<Q', n1)
def a16(n1): return struct.pack('>I', n1)
def a17(b1): return struct.unpack('<I', b1[:4])[0]
def a18(b1):
    try: return struct.unpack('<I', b1[:4])[0]
    except struct.error: return None
def a19(b1): return struct.unpack_from('<H', b1, 1)
def a20(b1): return b1[0] if b1 else None
def a21(b1): return b1.rstrip(b'\x00')
def a22(b1): return b1.lstrip(b'\x00')
def a23(b1): return b1.strip(b'\x00')
def a24(b1): return b1.ljust(6, b'\x00')
def a25(b1): return b1.rjust(6, b'\x00')
def a26(b1, n1): return b1 + b'\x00' * (5 - len(b1))
def a27(b1): return b1.startswith(b'\x01')
def a28(b1): return b1.find(b'\x00')
def a29(b1): return b1.split(b'\x00')
def a30(b1): return b1.partition(b'\x00')
def a31(b1): return hashlib.sha256(hashlib.sha256(b1).digest()).digest()[:4]
def a32(b1):
    h = hashlib.sha256(); h.update(b1); h.update(b'x'); return h.hexdigest()
def a33(b1, i1): return b1[i1]
def a34(b1, i1): return b1[i1:]
def a35(b1, i1, i2): return b1[i1:i2]
def a36(b1): return tuple(b1)
def a37(b1): return list(map(int, b1))
def a38(b1): return b1 in (b'', b'a')
def a39(b1): return 0 in b1
def a40(b1): return any(x == 0 for x in b1)
def a41(b1): return all(b1)
def a42(b1): return len(set(b1))
def a43(b1): return sorted(b1)
def a44(b1):
    out = bytearray()
    for x in b1: out.append(x)
    return bytes(out)
def a45(b1):
    out = bytearray(len(b1))
    for i, x in enumerate(b1): out[i] = 255 - x
    return bytes(out)
def a46(b1):
    out = bytearray()
    out.extend(b1); out += b'z'
    return bytes(out)
def a47(b1): return memoryview(b1)[1:].tobytes()
def a48(b1): return io.BytesIO(b1).read(2)
def a49(b1): return functools.reduce(lambda x, y: x * 256 + y, b1, 0)
def a50(b1):
    r = 0
    for x in b1: r = (r << 8) | x
    return r
def b01(i1, i2): return i1 // i2
def b02(i1, i2): return divmod(i1, i2)
def b03(i1, i2): return i1 % i2 if i2 else None
def b04(i1): return i1 >> 3
def b05(i1): return -i1 & 0xff
def b06(i1): return ~i1
def b07(n1): return n1.bit_length()
def b08(n1): return bin(n1)
def b09(n1): return '%x' % n1
def b10(n1): return '{:08x}'.format(n1)
def b11(n1): return f'{n1:04x}'
def b12(n1): return hex(n1)[2:]
def b13(n1):
    out = []
    while n1: n1, r = divmod(n1, 58); out.insert(0, r)
    return out
def b14(n1):
    out = []
    while n1 > 0:
        out.append(n1 & 1); n1 >>= 1
    return out[::-1]
def b15(n1): return [int(c) for c in str(n1)]
def b16(i1): return 'neg' if i1 < 0 else 'zero' if i1 == 0 else 'pos'
def b17(i1): return 0 <= i1 < 10
def b18(i1, i2): return min(i1, i2), max(i1, i2, 0)
def b19(i1): return abs(i1)
def b20(i1): return i1 if i1 in range(5) else None
def b21(i1): return i1 in {1, 2, 3}
def b22(i1): return {1: 'a', 2: 'b'}.get(i1, 'c')
def b23(i1): return {1: 'a', 2: 'b'}[i1]
def b24(i1):
    try: return {1: 'a', 2: 'b'}[i1]
    except KeyError: return 'k'
def b25(i1):
    try: return 10 // i1
    except ZeroDivisionError: return None
    finally: pass
def b26(i1): return i1 or 7
def b27(i1): return not i1
def b28(i1): return bool(i1) + 1
def b29(i1): return int(i1 > 3)
def b30(n1): return sum(range(n1 % 20))
def b31(n1): return [i * i for i in range(n1 % 7)]
def b32(n1):
    for i in range(n1 % 10):
        if i == 5: return 'five'
    else: return 'none'
def b33(n1):
    r = 1
    for i in range(1, n1 % 9): r *= i
    return r
def b34(n1):
    i = 0
    while True:
        if i * i > n1 % 1000: break
        i += 1
    return i
def b35(n1): return pow(3, n1, 101)
def b36(n1): return 2 ** (n1 % 40)
def b37(i1): return i1.__class__ is int
def b38(i1): return isinstance(i1, (int, float))
def b39(i1): return str(i1)
def b40(i1): return repr(i1)
def b41(i1): return '%d/%s' % (i1, i1)
def b42(i1): return 'v=%(v)d' % {'v': i1}
def b43(i1): return f'<{i1}>'
def b44(i1): return round(i1 / 2)
def b45(i1): return int(i1 / 2)
def b46(n1): return math.floor(n1 / 3)
def b47(n1): return n1 ** 2 - 1
def b48(i1): return (i1 + (1 << 32)) % (1 << 32)
def b49(i1): return i1 == True
def b50(i1): return (lambda x, *y, **z: (x, y, z))(i1, 2, k=3)
def c01(s1): return s1.upper().lower()
def c02(s1): return s1.encode('utf-8')
def c03(s1): return s1.split(',')
def c04(s1): return ','.join(reversed(s1))
def c05(s1): return int(s1)
def c06(s1):
    try: return int(s1)
    except ValueError: return -1
def c07(s1): return s1.strip()
def c08(s1): return s1.replace('a', 'bb')
def c09(s1): return s1.isdigit()
def c10(s1): return s1[0] == '1'
def c11(s1): return s1[:1] == '1'
def c12(s1): return s1.startswith(('a', '1'))
def c13(s1): return 'abc'.find(s1)
def c14(s1): return 'abc1'.index(s1)
def c15(s1): return [ord(c) for c in s1]
def c16(s1): return ''.join(chr(ord(c) + 1) for c in s1)
def c17(s1): return s1.count('1')
def c18(s1): return s1 + 1
def c19(s1): return s1 * 2
def c20(s1): return s1 == b'a'
def c21(s1): return len(s1) - len(s1.lstrip('1'))
def c22(s1): return dict(enumerate(s1))
def c23(s1): return s1.partition(',')[0]
def c24(s1): return s1.removeprefix('a')
def c25(s1): return s1.zfill(5)
def c26(s1): return sorted(s1, reverse=True)
def c27(s1): return {c: s1.count(c) for c in s1}
def c28(s1): return s1 and s1[-1]
def c29(s1): return s1.ljust(4, '.')
def c30(s1): return bytes(s1, 'ascii')
def c31(s1): return bool(re.match('^[0-9]+$', s1))
def c32(s1): return s1 < 'b'
def c33(s1): return isinstance(s1, str) and s1 != ''
def d01(l1): return l1[0]
def d02(l1): return l1[-1] if l1 else 0
def d03(l1): l1.append(3); return l1
def d04(l1): return l1.pop()
def d05(l1): return l1.pop(0)
def d06(l1): return sum(l1)
def d07(l1): return sorted(l1)
def d08(l1): return [x for x in l1 if x % 2]
def d09(l1): return list(filter(None, l1))
def d10(l1): return list(map(lambda x: x + 1, l1))
def d11(l1): return max(l1)
def d12(l1): return max(l1, default=0)
def d13(l1): return len(l1)
def d14(l1): return l1 == []
def d15(l1): return not l1
def d16(l1): del l1[0]; return l1
def d17(l1): del l1[:2]; return l1
def d18(l1): l1[:] = [1]; return l1
def d19(l1): l1.insert(0, 9); return l1
def d20(l1): l1.extend([1, 2]); return l1
def d21(l1): l1 += [1]; return l1
def d22(l1): return l1 + [1]
def d23(l1): return l1 * 2
def d24(l1): return l1[::-1]
def d25(l1): l1.reverse(); return l1
def d26(l1): l1.sort(); return l1
def d27(l1): return 3 in l1
def d28(l1): return l1.index(3)
def d29(l1): l1.remove(3); return l1
def d30(l1): return l1.count(3)
def d31(l1): return tuple(l1)
def d32(l1): return set(l1) == {1}
def d33(l1): return dict.fromkeys(l1, 0)
def d34(l1): return {x: x + 1 for x in l1}
def d35(l1): return list(enumerate(l1, 1))
def d36(l1): return list(zip(l1, l1[1:]))
def d37(l1): return next((x for x in l1 if x > 3), None)
def d38(l1): return [y for x in l1 for y in (x, x)]
def d39(l1): return any(x > 3 for x in l1)
def d40(l1):
    for i, x in enumerate(l1):
        if x == 3: return i
    return -1
def d41(l1):
    r = 0
    for x in l1:
        if x < 0: continue
        r += x
    return r
def d42(l1):
    r = []
    for x in l1:
        if x == 0: break
        r.append(x)
    else: r.append(-1)
    return r
def d43(l1):
    a, *b = l1
    return a, b
def d44(l1):
    a, b = l1
    return a - b
def d45(l1):
    it = iter(l1); return next(it, None)
def d46(l1): return functools.reduce(operator.mul, l1, 1)
def d47(l1): return list(itertools.chain(l1, [1]))
def d48(l1): return min(l1, key=abs) if l1 else None
def d49(l1): return sorted(l1, key=lambda x: -x)
def d50(l1): return sum(1 for x in l1 if x)
def d51(l1):
    q = collections.deque(l1); q.append(1); return list(q)
def d52(l1):
    d = collections.OrderedDict()
    for x in l1: d[x] = 1
    return list(d)
def d53(l1):
    d = collections.defaultdict(int)
    for x in l1: d[x] += 1
    return dict(d)
def d54(l1):
    d = {}
    for x in l1: d.setdefault(x, []).append(1)
    return d
def d55(l1):
    s = set()
    for x in l1: s.add(x)
    return len(s)
def d56(l1):
    l2 = l1
    l2.append(1)
    return l1
def d57(l1):
    l2 = list(l1); l2.append(1)
    return l1, l2
def d58(l1):
    while l1 and l1[0] == 0: l1.pop(0)
    return l1
def d59(l1):
    while l1 and l1[0] == 0: l1 = l1[1:]
    return l1
def d60(l1): return [l1[i:i + 2] for i in range(0, len(l1), 2)]
def e01(o1): return o1 is None
def e02(o1): return o1 if o1 is not None else 5
def e03(o1): return o1 + 1
def e04(o1):
    if not o1: return 'falsy'
    return o1
def e05(o1):
    try: return o1 + 1
    except TypeError: return None
def e06(o1, f1): return o1 if f1 else None
def e07(f1): return f1 and 3
def e08(f1): return 1 if f1 else 2
def e09(f1, f2): return f1 ^ f2
def e10(f1, f2): return f1 != f2
def e11(f1): return int(f1)
def e12(f1): return [1, 2][f1]
class Box(object):
    kind = 'box'
    def __init__(self, v, w=2): self.v = v; self._w = w
    @property
    def w(self): return self._w
    @w.setter
    def w(self, x): self._w = x
    @classmethod
    def make(cls, v): return cls(v, 3)
    @staticmethod
    def twice(x): return 2 * x
    def __eq__(self, o): return isinstance(o, Box) and self.v == o.v
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(self.v)
    def __add__(self, o): return Box(self.v + o.v)
    def __len__(self): return 3
    def __bool__(self): return self.v != 0
    def __getitem__(self, i): return self.v + i
    def __contains__(self, i): return i == self.v
    def __iter__(self): yield self.v; yield self._w
    def __call__(self, x): return self.v * x
    def __enter__(self): return self
    def __exit__(self, *a): self.v = 0
    def __lt__(self, o): return self.v < o.v
    def __str__(self): return 'Box %d' % self.v
class Sub(Box):
    kind = 'sub'
    def __init__(self, v): super(Sub, self).__init__(v); self.extra = v
    def __str__(self): return super().__str__() + '!'
def g01(i1): return Box(i1).v
def g02(i1): b = Box(i1); b.w = 9; return b.w + b.v
def g03(i1): return Box.make(i1).w
def g04(i1): return Box.twice(i1)
def g05(i1, i2): return Box(i1) == Box(i2)
def g06(i1, i2): return Box(i1) != Box(i2)
def g07(i1, i2): return (Box(i1) + Box(i2)).v
def g08(i1): return len(Box(i1))
def g09(i1): return bool(Box(i1))
def g10(i1): return Box(i1)[2]
def g11(i1): return 3 in Box(i1)
def g12(i1): return list(Box(i1))
def g13(i1): return Box(i1)(2)
def g14(i1):
    with Box(i1) as b: x = b.v
    return x, b.v
def g15(i1, i2): return Box(i1) < Box(i2)
def g16(i1): return str(Box(i1))
def g17(i1): return str(Sub(i1))
def g18(i1): return Sub(i1).kind, Sub(i1).extra
def g19(i1): return getattr(Box(i1), 'nope', i1)
def g20(i1): return hasattr(Box(i1), 'v')
def g21(i1): b = Box(i1); setattr(b, 'z', 4); return b.z
def g22(i1): return isinstance(Sub(i1), Box)
def g23(i1): return type(Sub(i1)) is Sub
def g24(i1): return Box(i1).nope
def g25(i1, i2): return sorted([Box(i1), Box(i2)])[0].v
def g26(i1, i2): return Box(i1) in [Box(i2)]
def g27(i1): return Box(v=i1, w=5).w
def g28(i1): return Box(i1, 2, 3)
def g29(i1): b = Box(i1); c = b; c.v += 1; return b.v
def g30(i1): return vars(Box(i1))['v']
def h01(i1):
    try:
        if i1 > 0: raise ValueError('x')
        return 1
    except ValueError as e: return str(e)
def h02(i1):
    r = []
    try:
        try:
            if i1 > 0: raise KeyError(i1)
        finally: r.append(1)
    except KeyError: r.append(2)
    return r
def h03(i1):
    try: return 1 // i1
    except: return None
def h04(i1):
    try: x = 1 // i1
    except ZeroDivisionError: return 'z'
    else: return x
def h05(i1):
    assert i1 > 0, 'bad'
    return i1
def h06(i1):
    def gen():
        for i in range(3): yield i + i1
    return list(gen())
def h07(i1):
    x = i1
    def f():
        nonlocal x
        x += 1
        return x
    f(); return f()
def h08(i1):
    fs = [lambda i=i: i + i1 for i in range(3)]
    return [f() for f in fs]
def h09(i1):
    a, b = i1, 2
    a, b = b, a
    return a, b
def h10(i1): return (i1, 2) + (3,)
def h11(i1): return (i1, 2) == (2, 2)
def h12(i1): return (i1, 'a') < (3, 'b')
def h13(i1): return [1, i1][1:]
def h14(i1):
    d = {'a': i1}; d.update(b=2); return d
def h15(i1):
    d = {'a': i1}; d.pop('a', None); return d
def h16(i1): return {'a': i1, **{'b': 1}}
def h17(i1): return [*[1, 2], i1]
def h18(i1): return list({'a': i1}.items())
def h19(i1): return max([1, i1, 3])
def h20(i1):
    if (y := i1 + 1) > 3: return y
    return 0
def h21(i1): return functools.partial(lambda a, b: a - b, i1)(2)
def h22(i1): return i1.bit_length() if i1 >= 0 else -1
def h23(i1):
    del i1
    return i1
def h24(i1):
    match = {0: 'x'}
    return match.get(i1)
def h25(i1): return operator.add(i1, 2)
def h26(i1): return operator.itemgetter(1)([i1, i1 + 1])
def h27(i1):
    import struct as st
    return st.calcsize('<IQ') + i1
def h28(n1): return struct.pack('<IH', n1 & 0xffffffff, n1 % 5)
def h29(n1): return struct.pack('>%dI' % 2, n1 & 0xffff, 1)
def h30(b1): return struct.unpack('<%dB' % len(b1), b1)
def h31(b1): return struct.unpack('4s', b1)
def h32(b1): return binascii.unhexlify(binascii.hexlify(b1))
def h33(s1): return binascii.unhexlify(s1)
def h34(s1): return bytes.fromhex(s1)
def h35(b1): return b1.decode('ascii')
def h36(b1): return b1.decode('latin-1')
def h37(b1): return b1.decode('utf-8', 'replace') if b1 else ''
def h38(b1): return ''.join('%02x' % x for x in b1)
def h39(b1): return ''.join(map(chr, b1))
def h40(b1): return b1 == 'a'
def h41(b1): return '%s' % b1
def h42(b1): return b'%s' % b1
def h43(b1): return b1 + 'a'
def h44(b1): return b1.zfill(4)
def h45(b1): return b1 < b'\x05'
def h46(b1): return b1 * 2
def h47(b1): return b1.count(b'\x00')
def h48(b1): return b1.replace(b'\x00', b'')
def h49(b1): return b1.endswith((b'\x00', b'\x01'))
def h50(b1): return len(b1) and b1[-1]
