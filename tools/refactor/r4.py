ED = 'C14 C15 C20 C21 C22 C23 C24 C32 C34 C36'
PW = 'C14 C15 C23 C27 C31'
AE = 'C14 C15 C16 C28'
U = 'nbc/util/ecdsa/util.py'; D = 'nbc/util/ecdsa/der.py'; R = 'nbc/util/ecdsa/rfc6979.py'
L = 'nbc/util/ecdsa/ellipticcurve.py'; Q = 'nbc/util/ecdsa/ecdsa.py'; KY = 'nbc/util/ecdsa/keys.py'
N = 'nbc/util/ecdsa/numbertheory.py'; CU = 'nbc/util/ecdsa/curves.py'
W = 'nbc/util/piecewise.py'; AS = 'nbc/util/pyaes/aes.py'; BF = 'nbc/util/pyaes/blockfeeder.py'; AU = 'nbc/util/pyaes/util.py'
EDITS = [
(0, ED, [(U, """    l = orderlen(order)
    fmt_str = "%0" + str(2*l) + "x"
    string = binascii.unhexlify((fmt_str % num).encode())
    assert len(string) == l, (len(string), l)
    return string
""", """    l = orderlen(order)
    digits = "%x" % num
    string = binascii.unhexlify(digits.zfill(2*l).encode())
    assert len(string) == l, (len(string), l)
    return string
"""), (U, """    bytes = orderlen(order)
    dont_try_forever = 10000 # gives about 2**-60 failures for worst case
    while dont_try_forever > 0:
        dont_try_forever -= 1
        candidate = string_to_number(entropy(bytes)) + 1
        if 1 <= candidate < order:
            return candidate
        continue
    raise""", """    size = orderlen(order)
    for _ in range(10000): # gives about 2**-60 failures for worst case
        candidate = string_to_number(entropy(size))
        if candidate < order - 1:
            return candidate + 1
    raise"""), (U, """    if s > order // 2:
        s = order - s
    return sigencode_der(r, s, order)
""", """    return sigencode_der(r, _low(s, order), order)

def _low(s, order):
    return order - s if s > order // 2 else s
""")]),
(0, ED, [(U, """def string_to_number(string):
    return int(binascii.hexlify(string), 16)
""", """def string_to_number(string):
    if not len(string):
        raise ValueError("empty string")
    return int.from_bytes(string, 'big')
""")]),
(0, ED, [(D, """    h = ("%x" % r).encode()
    if len(h) % 2:
        h = b("0") + h
    s = binascii.unhexlify(h)
    num = s[0] if isinstance(s[0], integer_types) else ord(s[0])
    if num <= 0x7f:
        return b("\\x02") + int2byte(len(s)) + s
    else:
        # DER integers are two's complement, so if the first byte is
        # 0x80-0xff then we need an extra 0x00 byte to prevent it from
        # looking negative.
        return b("\\x02") + int2byte(len(s)+1) + b("\\x00") + s
""", """    s = _magnitude(r)
    num = s[0] if isinstance(s[0], integer_types) else ord(s[0])
    if num >= 0x80:
        # would look negative
        s = b("\\x00") + s
    return b("\\x02") + int2byte(len(s)) + s

def _magnitude(value):
    digits = ("%x" % value).encode()
    if len(digits) % 2 != 0:
        digits = b("0") + digits
    return binascii.unhexlify(digits)
"""), (D, """    assert l >= 0
    if l < 0x80:
        return int2byte(l)
    s = ("%x" % l).encode()
    if len(s)%2:
        s = b("0")+s
    s = binascii.unhexlify(s)
    llen = len(s)
    return int2byte(0x80|llen) + s
""", """    assert l >= 0
    if l > 0x7f:
        s = _magnitude(l)
        return int2byte(0x80 + len(s)) + s
    return int2byte(l)
"""), (D, """    b128_digits = []
    while n:
        b128_digits.insert(0, (n & 0x7f) | 0x80)
        n = n >> 7
    if not b128_digits:
        b128_digits.append(0)
    b128_digits[-1] &= 0x7f
    return b('').join([int2byte(d) for d in b128_digits])
""", """    out = int2byte(n & 0x7f)
    n >>= 7
    while n > 0:
        out = int2byte((n & 0x7f) | 0x80) + out
        n >>= 7
    return out
"""), (D, """    number = 0
    llen = 0
    # base-128 big endian, with b7 set in all but the last byte
    while True:
        if llen >= len(string):
            raise UnexpectedDER("ran out of length bytes")
        number = number << 7
        d = string[llen] if isinstance(string[llen], integer_types) else ord(string[llen])
        number += (d & 0x7f)
        llen += 1
        if not d & 0x80:
            break
    return number, llen
""", """    number = 0
    # base-128 big endian, with b7 set in all but the last byte
    for index, d in enumerate(bytearray(string)):
        number = number * 128 + d % 128
        if d < 128:
            return number, index + 1
    raise UnexpectedDER("ran out of length bytes")
""")]),
(0, ED, [(D, """    length, llen = read_length(string[1:])
    body = string[1+llen:1+llen+length]
    rest = string[1+llen+length:]
    return body, rest

def remove_object""", """    return _split(string)

def _split(string):
    length, llen = read_length(string[1:])
    start = 1 + llen
    stop = start + length
    return string[start:stop], string[stop:]

def remove_object"""), (D, """    numbers = []
    while body:
        n, ll = read_number(body)
        numbers.append(n)
        body = body[ll:]
    n0 = numbers.pop(0)
    first = n0//40
    second = n0-(40*first)
    numbers.insert(0, first)
    numbers.insert(1, second)
    return tuple(numbers), rest
""", """    numbers = []
    while len(body) > 0:
        n, ll = read_number(body)
        numbers.append(n)
        body = body[ll:]
    first, second = divmod(numbers[0], 40)
    return (first, second) + tuple(numbers[1:]), rest
""")]),
(0, ED, [(R, """    # Step D

    k = hmac.new(k, v+b('\\x00')+bx, hash_func).digest()

    # Step E
    v = hmac.new(k, v, hash_func).digest()

    # Step F
    k = hmac.new(k, v+b('\\x01')+bx, hash_func).digest()

    # Step G
    v = hmac.new(k, v, hash_func).digest()
""", """    def step(k, v, tail):
        k = hmac.new(k, v + tail, hash_func).digest()
        return k, hmac.new(k, v, hash_func).digest()

    # Steps D, E, F and G
    for mark in (b('\\x00'), b('\\x01')):
        k, v = step(k, v, mark + bx)
"""), (R, """        if secret >= 1 and secret < generator.order():
            return secret

        k = hmac.new(k, v+b('\\x00'), hash_func).digest()
        v = hmac.new(k, v, hash_func).digest()
""", """        if 0 < secret < generator.order():
            return secret

        k, v = step(k, v, b('\\x00'))
"""), (R, """    x = int(hexlify(data), 16)
    l = len(data) * 8

    if l > qlen:
        return x >> (l-qlen)
    return x
""", """    excess = len(data) * 8 - qlen
    x = int(hexlify(data), 16)
    return x >> excess if excess > 0 else x
"""), (R, """    z1 = bits2int(data, bit_length(order))
    z2 = z1 - order

    if z2 < 0:
        z2 = z1

    return number_to_string_crop(z2, order)
""", """    z = bits2int(data, order.bit_length())
    if z >= order:
        z -= order
    return number_to_string_crop(z, order)
""")]),
(0, ED, [(L, """    if other == INFINITY: return self
    if self == INFINITY: return other
    assert self.__curve == other.__curve
    if self.__x == other.__x:
      if ( self.__y + other.__y ) % self.__curve.p() == 0:
        return INFINITY
      else:
        return self.double()

    p = self.__curve.p()

    l = ( ( other.__y - self.__y ) * \\
          numbertheory.inverse_mod( other.__x - self.__x, p ) ) % p

    x3 = ( l * l - self.__x - other.__x ) % p
    y3 = ( l * ( self.__x - x3 ) - self.__y ) % p

    return Point( self.__curve, x3, y3 )
""", """    if other == INFINITY: return self
    if self == INFINITY: return other
    assert self.__curve == other.__curve
    p = self.__curve.p()
    if self.__x == other.__x:
      opposite = ( self.__y + other.__y ) % p == 0
      return INFINITY if opposite else self.double()
    slope = ( other.__y - self.__y ) * numbertheory.inverse_mod( other.__x - self.__x, p )
    return self.__third( slope % p, other.__x )

  def __third( self, l, x2 ):
    p = self.__curve.p()
    x3 = ( l * l - self.__x - x2 ) % p
    y3 = ( l * ( self.__x - x3 ) - self.__y ) % p
    return Point( self.__curve, x3, y3 )
"""), (L, """    l = ( ( 3 * self.__x * self.__x + a ) * \\
          numbertheory.inverse_mod( 2 * self.__y, p ) ) % p

    x3 = ( l * l - 2 * self.__x ) % p
    y3 = ( l * ( self.__x - x3 ) - self.__y ) % p

    return Point( self.__curve, x3, y3 )
""", """    l = ( ( 3 * self.__x ** 2 + a ) * numbertheory.inverse_mod( 2 * self.__y, p ) ) % p
    return self.__third( l, self.__x )
"""), (L, """    if self.__curve == other.__curve \\
       and self.__x == other.__x \\
       and self.__y == other.__y:
      return True
    else:
      return False
""", """    return ( self.__curve, self.__x, self.__y ) == ( other.__curve, other.__x, other.__y )
""")]),
(0, ED, [(L, """    i = leftmost_bit( e3 ) // 2
    result = self
    # print_("Multiplying %s by %d (e3 = %d):" % ( self, other, e3 ))
    while i > 1:
      result = result.double()
      if ( e3 & i ) != 0 and ( e & i ) == 0: result = result + self
      if ( e3 & i ) == 0 and ( e & i ) != 0: result = result + negative_self
      # print_(". . . i = %d, result = %s" % ( i, result ))
      i = i // 2

    return result
""", """    i = leftmost_bit( e3 ) >> 1
    result = self
    while i > 1:
      result = result.double()
      plus = ( e3 & i ) != 0
      minus = ( e & i ) != 0
      if plus != minus:
        result = result + ( self if plus else negative_self )
      i >>= 1

    return result
""")]),
(0, ED, [(L, """    e3 = 3 * e
    negative_self = Point( self.__curve, self.__x, -self.__y, self.__order )
    i = leftmost_bit( e3 ) // 2
    result = self
    # print_("Multiplying %s by %d (e3 = %d):" % ( self, other, e3 ))
    while i > 1:
      result = result.double()
      if ( e3 & i ) != 0 and ( e & i ) == 0: result = result + self
      if ( e3 & i ) == 0 and ( e & i ) != 0: result = result + negative_self
      # print_(". . . i = %d, result = %s" % ( i, result ))
      i = i // 2

    return result
""", """    i = leftmost_bit( e )
    result = INFINITY
    while i > 0:
      result = result.double()
      if e & i: result = result + self
      i //= 2

    return result
""")]),
(0, ED, [(Q, """    if r < 1 or r > n-1: return False
    if s < 1 or s > n-1: return False
    c = numbertheory.inverse_mod( s, n )
    u1 = ( hash * c ) % n
    u2 = ( r * c ) % n
    xy = u1 * G + u2 * self.point
    if xy == ellipticcurve.INFINITY: return False
    v = xy.x() % n
    return v == r
""", """    if not ( 0 < r < n and 0 < s < n ): return False
    w = numbertheory.inverse_mod( s, n )
    xy = G * ( hash * w % n ) + self.point * ( w * r % n )
    if xy == ellipticcurve.INFINITY: return False
    return xy.x() % n == r
"""), (Q, """    n = G.order()
    k = random_k % n
    p1 = k * G
    r = p1.x() % n
    if r == 0: raise RuntimeError("amazingly unlucky random number r")
    s = ( numbertheory.inverse_mod( k, n ) * \\
          ( hash + ( self.secret_multiplier * r ) % n ) ) % n
    if s == 0: raise RuntimeError("amazingly unlucky random number s")
    return Signature( r, s )
""", """    n = G.order()
    k = random_k % n
    r = ( G * k ).x() % n
    if not r: raise RuntimeError("amazingly unlucky random number r")
    product = self.secret_multiplier * r
    s = numbertheory.inverse_mod( k, n ) * ( product + hash ) % n
    if not s: raise RuntimeError("amazingly unlucky random number s")
    return Signature( r, s )
"""), (KY, """        if k is not None:
            _k = k
        else:
            _k = randrange(order, entropy)

        assert 1 <= _k < order
        sig = self.privkey.sign(number, _k)
        return sig.r, sig.s
""", """        if k is None:
            k = randrange(order, entropy)

        assert 0 < k < order
        signature = self.privkey.sign(number, k)
        return (signature.r, signature.s)
"""), (KY, """        number = string_to_number(digest)
        r, s = sigdecode(signature, self.pubkey.order)
        sig = ecdsa.Signature(r, s)
        if self.pubkey.verifies(number, sig):
            return True
        raise BadSignatureError
""", """        pair = sigdecode(signature, self.pubkey.order)
        if not self.pubkey.verifies(string_to_number(digest), ecdsa.Signature(*pair)):
            raise BadSignatureError()
        return True
""")]),
(0, ED, [(N, """  c, d = a, m
  uc, vc, ud, vd = 1, 0, 0, 1
  while c != 0:
    q, c, d = divmod( d, c ) + ( c, )
    uc, vc, ud, vd = ud - q*uc, vd - q*vc, uc, vc

  # At this point, d is the GCD, and ud*a+vd*m = d.
  # If d == 1, this means that ud is a inverse.

  assert d == 1
  if ud > 0: return ud
  else: return ud + m
""", """  old, new = m, a
  x, y = 0, 1
  while new:
    q = old // new
    old, new = new, old - q * new
    x, y = y, x - q * y
  assert old == 1
  return x if x > 0 else x + m
"""), (N, """  while a:
    a, b = b%a, a
  return b
""", """  if not a:
    return b
  return gcd2( b % a, a )
"""), (N, """  if p % 4 == 3: return modular_exp( a, (p+1)//4, p )

  if p % 8 == 5:
    d = modular_exp( a, (p-1)//4, p )
    if d == 1: return modular_exp( a, (p+3)//8, p )
    if d == p-1: return ( 2 * a * modular_exp( 4*a, (p-5)//8, p ) ) % p
    raise RuntimeError("Shouldn't get here.")
""", """  kind = p & 7
  if kind in ( 3, 7 ): return pow( a, (p+1) >> 2, p )

  if kind == 5:
    d = pow( a, (p-1) >> 2, p )
    if d not in ( 1, p-1 ): raise RuntimeError("Shouldn't get here.")
    if d == 1: return pow( a, (p+3) >> 3, p )
    return 2 * a * pow( 4*a, (p-5) >> 3, p ) % p
""")]),
(0, ED, [(CU, """    for c in curves:
        if c.oid == oid_curve:
            return c
    raise UnknownCurveError""", """    known = {c.oid: c for c in curves}
    if oid_curve in known:
        return known[oid_curve]
    raise UnknownCurveError"""), (CU, """    return (1+len("%x"%order))//2 # bytes
""", """    digits = len("%x" % order)
    return digits // 2 + digits % 2 # bytes
"""), (KY, """        order = self.pubkey.order
        x_str = number_to_string(self.pubkey.point.x(), order)
        y_str = number_to_string(self.pubkey.point.y(), order)
        point_str = b("\\x00\\x04") + x_str + y_str
        return der""", """        point_str = b("\\x00\\x04") + self.to_string()
        return der"""), (KY, """        if len(privkey_str) < curve.baselen:
            privkey_str = b("\\x00")*(curve.baselen-len(privkey_str)) + privkey_str
        return""", """        privkey_str = privkey_str.rjust(curve.baselen, b("\\x00"))
        return""")]),
(0, PW, [(W, """    secexps = [randrange(curve.order) for i in xrange(count - 1)]

    # compute the missing secret exponent that will sum to the given key
    secexp_missing = (secexp - sum(secexps)) % curve.order
    secexps.append(secexp_missing)

    # convert to wif encoded private keys
    private_keys = [number_to_string(s, curve.order) for s in secexps]
    return [privkey_to_wif(k) for k in private_keys]
""", """    result = []
    left = secexp
    for i in xrange(count - 1):
        share = randrange(curve.order)
        left = (left - share) % curve.order
        result.append(_to_wif(share))

    # the missing secret exponent that will sum to the given key
    result.append(_to_wif(left % curve.order))
    return result

def _to_wif(secexp):
    return privkey_to_wif(number_to_string(secexp, curve.order))
"""), (W, """    private_keys = [privkey_from_wif(k) for k in private_keys]

    # decode the secret exponents
    secexps = [string_to_number(k) for k in private_keys]

    # add_mod them together
    combined = sum(secexps) % curve.order
""", """    combined = 0
    for k in private_keys:
        combined = (combined + string_to_number(privkey_from_wif(k))) % curve.order
""")]),
(0, PW, [(W, """    groups = []
    for i in xrange(0, total):
        group = []
        for j in xrange(0, required):
            group.append(keys[(i + j) % total][j])
        groups.append(frozenset(group))

    return tuple(groups)
""", """    return tuple(
        frozenset(keys[(i + j) % total][j] for j in xrange(required))
        for i in xrange(total))
"""), (W, """        index = ORD(private_key[2])
        if index not in parts: parts[index] = set()
        parts[index].add(private_key[8:])
""", """        parts.setdefault(ORD(private_key[2]), set()).add(private_key[8:])
"""), (W, """    binary.sort()
    missing = len(binary)
    for i in xrange(0, len(binary)):
        if binary[i][0] != i:
            missing = i
            break
    qr = b'\\x84\\x7c\\x20' + CHR(missing) + CHR(required) + checksum
    for private_key in binary:
        qr += private_key[1]
""", """    binary = sorted(binary)
    missing = 0
    while missing < len(binary) and binary[missing][0] == missing:
        missing += 1
    qr = b''.join([b'\\x84\\x7c\\x20', CHR(missing), CHR(required), checksum] + [part for (_, part) in binary])
""")]),
(0, PW, [(W, """    x = string_to_number(public_key[1:1 + curve.baselen])
    y = string_to_number(public_key[1 + curve.baselen:])
    public_point = ellipticcurve.Point(curve.curve, x, y, curve.order)

    # the private key's public key's elliptic curve point
    private_key = privkey_from_wif(private_key)
    secexp = string_to_number(private_key)
    private_point = curve.generator * secexp

    # add them together
    combined = public_point + private_point

    # compute the new public key
    x = number_to_string(combined.x(), curve.order)
    y = number_to_string(combined.y(), curve.order)
    key_combined = b'\\x04' + x + y
""", """    public_point = ellipticcurve.Point(curve.curve, string_to_number(public_key[1:33]),
        string_to_number(public_key[33:65]), curve.order)
    private_point = curve.generator * string_to_number(privkey_from_wif(private_key))
    total = public_point + private_point
    key_combined = b'\\x04' + b''.join(number_to_string(c, curve.order) for c in (total.x(), total.y()))
""")]),
(0, AE, [(AS, """        # Convert ciphertext to (ints ^ key)
        t = [(_compact_word(ciphertext[4 * i:4 * i + 4]) ^ self._Kd[0][i]) for i in xrange(0, 4)]

        # Apply round transforms
        for r in xrange(1, rounds):
            for i in xrange(0, 4):
                a[i] = (self.T5[(t[ i          ] >> 24) & 0xFF] ^
                        self.T6[(t[(i + s1) % 4] >> 16) & 0xFF] ^
                        self.T7[(t[(i + s2) % 4] >>  8) & 0xFF] ^
                        self.T8[ t[(i + s3) % 4]        & 0xFF] ^
                        self._Kd[r][i])
            t = copy.copy(a)
""", """        # Convert ciphertext to (ints ^ key)
        t = []
        for i in xrange(4):
            t.append(_compact_word(ciphertext[4 * i:4 * i + 4]) ^ self._Kd[0][i])

        # Apply round transforms
        for keys in self._Kd[1:rounds]:
            t = [self.T5[(t[i] >> 24) & 0xFF] ^ self.T6[(t[(i + 3) & 3] >> 16) & 0xFF] ^
                 self.T7[(t[(i + 2) & 3] >> 8) & 0xFF] ^ self.T8[t[(i + 1) & 3] & 0xFF] ^ keys[i]
                 for i in xrange(4)]
"""), (AS, """        precipherblock = [ (ord(p) ^ l) for (p, l) in zip(plaintext, self._last_cipherblock) ]
        self._last_cipherblock = self._aes.encrypt(precipherblock)

        return _bytes_to_string(self._last_cipherblock)
""", """        mixed = []
        for i in xrange(16):
            mixed.append(ord(plaintext[i]) ^ self._last_cipherblock[i])
        block = self._aes.encrypt(mixed)
        self._last_cipherblock = block
        return _bytes_to_string(block)
"""), (AS, """        plaintext = _bytes_to_string([p^l for (p, l) in zip(self._aes.decrypt(cipherblock), self._last_cipherblock)])
        self._last_cipherblock = cipherblock

        return plaintext
""", """        before, self._last_cipherblock = self._last_cipherblock, cipherblock
        return _bytes_to_string([p^l for (p, l) in zip(self._aes.decrypt(cipherblock), before)])
""")]),
(0, AE, [(AS, """        encrypted = [ ]
        for c in plaintext:
            if len(self._remaining_block) == 0:
                self._remaining_block = self._aes.encrypt(self._last_precipherblock)
                self._last_precipherblock = [ ]
            precipherbyte = self._remaining_block.pop(0)
            self._last_precipherblock.append(precipherbyte)
            cipherbyte = ord(c) ^ precipherbyte
            encrypted.append(cipherbyte)

        return _bytes_to_string(encrypted)
""", """        encrypted = [ ]
        for c in plaintext:
            if not self._remaining_block:
                block = self._aes.encrypt(self._last_precipherblock)
                self._remaining_block = list(block)
                self._last_precipherblock = block
            encrypted.append(ord(c) ^ self._remaining_block[0])
            self._remaining_block = self._remaining_block[1:]

        return _bytes_to_string(encrypted)
"""), (AS, """        for i in xrange(len(self._counter) - 1, -1, -1):
            self._counter[i] += 1

            if self._counter[i] < 256: break

            # Carry the one
            self._counter[i] = 0

        # Overflow
        else:
            self._counter = [ 0 ] * len(self._counter)
""", """        i = len(self._counter) - 1
        while i >= 0:
            self._counter[i] = (self._counter[i] + 1) % 256
            if self._counter[i]: break
            i -= 1
"""), (BF, """        result = b''
        while len(self._buffer) > 16:
            can_consume = self._mode._can_consume(len(self._buffer) - 16)
            if can_consume == 0: break
            result += self._feed(self._buffer[:can_consume])
            self._buffer = self._buffer[can_consume:]

        return result
""", """        parts = []
        while len(self._buffer) > 16:
            size = self._mode._can_consume(len(self._buffer) - 16)
            if not size: break
            head, self._buffer = self._buffer[:size], self._buffer[size:]
            parts.append(self._feed(head))

        return b''.join(parts)
"""), (AU, """    if pad < 1 or pad > 16:
        raise ValueError("invalid padding byte")
    if data[-pad:] != pad * CHR(pad):
        raise ValueError("invalid padding")

    return data[:-pad]""", """    if not 1 <= pad <= 16:
        raise ValueError("invalid padding byte")
    body, tail = data[:len(data)-pad], data[len(data)-pad:]
    if any(octet != pad for octet in tail):
        raise ValueError("invalid padding")

    return body""")]),
]
