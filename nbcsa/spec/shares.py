"""Reference definitions: key shares and partial key-sets (read by the analysis, never run)."""
import base64
from spec.keys import P, A, N, number, num32, secret_main, wif_main, of_word, to_word, dhash


def combine(words):
    total = 0
    for w in words:
        total = total + number(secret_main(w))
    return wif_main(num32(total % N))


def rejoined(word, n):
    """what the shares of a key combine to, how many they are, whether each is a key"""
    k = secret_main(word)
    return (wif_main(num32(number(k) % N)), n, True)


def rejoin(words, again):
    ok = True
    for w in words:
        if len(secret_main(w)) != 32:
            ok = False
    return (again(words), len(words), ok)


def part(index, required, check, share):
    return to_word(b'\x10\x01' + bytes([index]) + bytes([required]) + check + share)


def fields(word):
    """(index, required, checksum, share) of a part"""
    p = of_word(word)
    return (p[2], p[3], p[4:8], p[8:], p[:2])


def partial_view(groups, total):
    """what the sets contain: how many, the headers in each, the sums by index"""
    sums = [0] * total
    heads = []
    for g in groups:
        hs = []
        for w in g:
            i, r, c, s, tag = fields(w)
            sums[i] = (sums[i] + number(s)) % N
            hs.append((i, r, c, tag, len(s)))
        heads.append(sorted(hs))
    return (len(groups), heads, sums)


def partial_expected(word, required, total):
    if required > total:
        raise ValueError()
    k = secret_main(word)
    c = dhash(k)[:4]
    heads = []
    for i in range(total):
        heads.append(sorted([((i + j) % total, required, c, b'\x10\x01', 32) for j in range(required)]))
    return (total, heads, [number(k) % N] * total)


def read_part(word):
    p = of_word(word)
    if not p or p[:2] != b'\x10\x01' or len(p) < 4:
        raise ValueError()
    return p


def recover(words, ignore):
    """the key of the first complete index; None when there is none"""
    required = None
    check = None
    order = []
    found = {}
    for w in words:
        p = read_part(w)
        if required is None:
            required = p[3]
        if p[3] != required:
            if ignore:
                continue
            raise ValueError()
        if check is None:
            check = p[4:8]
        if p[4:8] != check:
            if ignore:
                continue
            raise ValueError()
        i = p[2]
        if i not in found:
            found[i] = []
            order.append(i)
        if p[8:] not in found[i]:
            found[i].append(p[8:])
    for i in order:
        if len(found[i]) == required:
            total = 0
            for s in found[i]:
                if not s:
                    raise ValueError()
                total = total + number(s)
            k = num32(total % N)
            if dhash(k)[:4] != check:
                raise ValueError()
            return wif_main(k)
    return None


def qr_bytes(words):
    """the text of a QR code"""
    required = None
    check = None
    rows = []
    for w in words:
        p = read_part(w)
        if required is None:
            required = p[3]
            check = p[4:8]
        if p[3] != required or p[4:8] != check:
            raise ValueError()
        rows.append((p[2], p[8:]))
    rows.sort()
    missing = len(rows)
    for i in range(len(rows)):
        if rows[i][0] != i:
            missing = i
            break
    body = b'\x84\x7c\x20' + bytes([missing]) + bytes([required]) + check
    for r in rows:
        body = body + r[1]
    return base64.b32encode(body).strip(b'=')


def qr_words(text):
    raw = base64.b32decode(text + b'=' * (-len(text) % 8))
    if raw[:3] != b'\x84\x7c\x20':
        raise ValueError()
    missing = raw[3]
    out = []
    for i in range((len(raw) - 9) // 32):
        index = i if i < missing else i + 1
        out.append(part(index, raw[4], raw[5:9], raw[9 + 32 * i:41 + 32 * i]))
    return set(out)
