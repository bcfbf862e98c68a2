"""Rewritings of the kind found in refactorings."""
import struct, functools, operator, itertools


def a01(b1):
    out = bytearray()
    for i, x in enumerate(b1):
        if i % 2: out.append(x)
        else: out += bytes([x ^ 1])
    return bytes(out)
def a02(b1):
    out = bytearray(4)
    for i in range(4): out[i] = i
    out[1] ^= 5
    return bytes(out) + b1
def a03(b1):
    buf = bytearray(b1); del buf[:2]; buf.extend(b'zz')
    return bytes(buf)
def a04(n1):
    out = bytearray()
    while n1: out.append(n1 & 0xff); n1 >>= 8
    out.reverse()
    return bytes(out)
def a05(b1): return b1.partition(b'\x00')
def a06(s1): return s1.partition(',')
def a07(s1): return s1.removeprefix('a'), s1.removesuffix('b')
def a08(l1):
    a, *b = l1
    return a, b
def a09(l1):
    a, *b, c = l1
    return a, b, c
def a10(l1): return next((x for x in l1 if x > 3), None)
def a11(l1): return next(x for x in l1 if x > 3)
def a12(l1): return functools.reduce(operator.mul, l1, 1)
def a13(l1): return list(itertools.chain(l1, [1]))
def a14(l1): return list(map(operator.itemgetter(0), [(x, 1) for x in l1]))
def a15(i1): return functools.partial(lambda a, b: a - b, i1)(2)
def a16(s1): return ''.join(reversed(s1))
def a17(s1): return ''.join(sorted(s1))
def a18(l1): return max(l1, default=0)
def a19(i1): return repr(i1)
def a20(i1):
    try: raise ValueError('a%d' % i1)
    except ValueError as e: return str(e), e.args
def a21(s1): return bytes.fromhex(s1)
def a22(b1): return b1.decode('utf-8', 'replace')
def a23(b1): return b1.decode('ascii', errors='ignore')
def a24(n1):
    if n1 < 0xfd: return struct.pack('<B', n1)
    if n1 <= 0xffff: return b'\xfd' + struct.pack('<H', n1)
    if n1 <= 0xffffffff: return b'\xfe' + struct.pack('<I', n1)
    return b'\xff' + struct.pack('<Q', n1)
def a25(n1):
    for limit, prefix, code in ((0xfd, b'', '<B'), (0x10000, b'\xfd', '<H'), (1 << 32, b'\xfe', '<I')):
        if n1 < limit: return prefix + struct.pack(code, n1)
    return b'\xff' + struct.pack('<Q', n1)
def a26(b1):
    def take(n, at): return b1[at:at + n], at + n
    x, at = take(2, 0)
    y, at = take(1, at)
    return x, y, at
def a27(b1):
    pos = [0]
    def take(n):
        r = b1[pos[0]:pos[0] + n]; pos[0] += n
        if len(r) != n: raise ValueError('short')
        return r
    return take(1), take(2)
def a28(b1):
    out = []
    while b1: out.append(b1[:2]); b1 = b1[2:]
    return out
def a29(b1): return [b1[i:i + 2] for i in range(0, len(b1), 2)]
def a30(b1):
    r = []
    i = 0
    while i < len(b1):
        n = b1[i]; i += 1
        r.append(b1[i:i + n]); i += n
    return r
def a31(l1):
    seen = []
    for x in l1:
        if x not in seen: seen.append(x)
    return seen
def a32(l1):
    d = dict((x, i) for i, x in enumerate(l1))
    return sorted(d)
def a33(l1): return [x for i, x in enumerate(l1) if x not in l1[:i]]
def a34(l1):
    try: return l1.index(3)
    except ValueError: return -1
def a35(l1):
    for x in list(l1):
        if x == 3: l1.remove(x)
    return l1
def a36(l1): return l1.pop() if l1 else None
def a37(l1):
    total = 0
    it = 0
    while it < len(l1): total += l1[it]; it += 1
    return total
def a38(i1, i2):
    if i1 > i2: i1, i2 = i2, i1
    return i1, i2
def a39(i1):
    table = {0: lambda: 'zero', 1: lambda: 'one'}
    return table.get(i1, lambda: 'many')()
def a40(i1):
    result = None
    for k, v in (('a', 1), ('b', 2)):
        if v == i1:
            result = k
            break
    return result
def a41(f1, f2):
    if not f1: return 0
    if not f2: return 1
    return 2
def a42(f1, f2): return (f1 and not f2) or (f2 and not f1)
def a43(o1): return 0 if o1 is None else o1
def a44(o1): return o1 == None, o1 != 5
def a45(i1): return ('low', 'high')[i1 > 3]
def a46(i1): return not (i1 < 0 or i1 > 5)
def a47(b1): return b1[-4:], b1[:-4]
def a48(b1): return b1[len(b1) - 1:] == b'\x00'
def a49(b1):
    n = len(b1)
    if n > 4: raise ValueError()
    return (b1 + bytes(4))[:4]
def a50(b1): return any(b1[i] == 0 for i in range(len(b1)))
def a51(b1): return b''.join(struct.pack('B', x) for x in b1)
def a52(b1): return struct.pack('%ds' % len(b1), b1)
def a53(b1): return struct.pack('6s', b1)
def a54(n1): return n1.to_bytes((n1.bit_length() + 7) // 8 or 1, 'big')
def a55(n1):
    h = '%x' % n1
    return bytes.fromhex(h if len(h) % 2 == 0 else '0' + h)
def a56(n1): return bytes((n1 >> s) & 0xff for s in (24, 16, 8, 0))
def a57(b1):
    n = 0
    for i, x in enumerate(reversed(b1)): n += x * 256 ** i
    return n
def a58(s1):
    n = 0
    for c in s1:
        k = 'ab1'.find(c)
        if k == -1: raise ValueError('bad %r' % c)
        n = n * 3 + k
    return n
def a59(s1): return all(c in 'ab' for c in s1)
def a60(s1): return len(s1) - len(s1.lstrip('1')) if s1 else 0
def a61(s1):
    count = 0
    for c in s1:
        if c != '1': break
        count += 1
    return count
def a62(s1): return sum(1 for c in itertools.takewhile(lambda c: c == '1', s1))
def a63(i1):
    class Local(object):
        pass
    x = Local(); x.a = i1
    return x.a
def a64(i1): return [f(i1) for f in (str, abs, lambda x: x + 1)]
def a65(i1, i2): return (i1 > 0) + (i2 > 0)
def a66(i1): return sum([i1] * 3)
def a67(i1):
    if i1 > 3: pass
    elif i1 > 1: return 'mid'
    else: return 'low'
    return 'high'
def a68(i1):
    while i1 > 100: i1 //= 2
    return i1
def a69(n1):
    bits = []
    for i in range(8): bits.append((n1 >> i) & 1)
    return bits
def a70(i1): return dict(a=i1)['a'], 'a' in dict(b=1)
def a71(l1): return {k: v for k, v in zip('abc', l1)}
def a72(l1):
    d = {}
    for x in l1: d[x] = d.get(x, 0) + 1
    return d
def a73(l1): return sum(l1[1:], 0) if len(l1) > 1 else None
def a74(l1): return [a + b for a, b in zip(l1, l1[1:])]
def a75(l1): return not any(l1)
def a76(l1): return tuple(x for x in l1 if x) or (0,)
def a77(l1):
    l1 = sorted(l1); l1.reverse()
    return l1
def a78(l1): return [x for x in l1 if 0 < x < 4][:2]
def a79(l1):
    r = []
    for x in l1: r = r + [x]
    return r
def a80(l1):
    r = []
    for i in range(len(l1) - 1, -1, -1): r.append(l1[i])
    return r
