U='nbc/util/ecdsa/util.py'; K='nbc/util/ecdsa/keys.py'; D='nbc/util/ecdsa/der.py'; KEY='nbc/util/key.py'; A='nbc/wallet/address.py'; E='nbc/util/ecc.py'; N='nbc/node/__init__.py'
EDITS = [
(0,'C44',[(U,"        a = [next(self.generator) for i in range(numbytes)]\n\n        if PY3:\n            return bytes(a)\n        else:\n            return \"\".join(a)\n","        from itertools import islice\n        taken = islice(self.generator, numbytes)\n        return bytes(taken) if PY3 else \"\".join(taken)\n")]),
(0,'C44',[(U,"        a = [next(self.generator) for i in range(numbytes)]\n\n        if PY3:\n            return bytes(a)\n        else:\n            return \"\".join(a)\n","        out = bytearray()\n        while len(out) < numbytes:\n            out.append(next(self.generator))\n        return bytes(out)\n")]),
(0,'C44',[(U,"        counter = 0\n        while True:\n            for byte in sha256((\"prng-%d-%s\" % (counter, seed)).encode()).digest():\n                yield byte\n            counter += 1\n","        import itertools\n        for counter in itertools.count():\n            block = sha256((\"prng-{0}-{1}\".format(counter, seed)).encode()).digest()\n            for byte in block:\n                yield byte\n")]),
(0,'C44',[(U,"        self.generator = self.block_generator(seed)\n","        self.seed = seed\n        self.counter = 0\n        self.left = b(\"\")\n"),(U,"        a = [next(self.generator) for i in range(numbytes)]\n\n        if PY3:\n            return bytes(a)\n        else:\n            return \"\".join(a)\n","        while len(self.left) < numbytes:\n            self.left += sha256((\"prng-%d-%s\" % (self.counter, self.seed)).encode()).digest()\n            self.counter += 1\n        out, self.left = self.left[:numbytes], self.left[numbytes:]\n        return out\n")]),
(0,'C44',[(U,"    base = PRNG(seed)(2*orderlen(order))\n    number = (int(binascii.hexlify(base), 16) % (order-1)) + 1\n    assert 1 <= number < order, (1, number, order)\n    return number\n","    generate = PRNG(seed)\n    size = orderlen(order)\n    base = string_to_number(generate(2*size))\n    number = 1 + base % (order-1)\n    assert number in range(1, order), (1, number, order)\n    return number\n")]),
(0,'C44',[(U,"    base = hashmod(seed).digest()[:maxbytes]\n    base = b(\"\\x00\")*(maxbytes-len(base)) + base\n    topbits = 8*maxbytes - bits\n","    digest = hashmod(seed).digest()\n    base = digest[:maxbytes].rjust(maxbytes, b(\"\\x00\"))\n    topbits = -bits % 8\n")]),
(0,'C44',[(U,"    while True:\n        extrabyte = b(\"\")\n        if extrabits:\n            extrabyte = int2byte(ord(generate(1)) & lsb_of_ones(extrabits))\n        guess = string_to_number(extrabyte + generate(bytes)) + 1\n        if 1 <= guess < order:\n            return guess\n","    def candidate():\n        if not extrabits:\n            return string_to_number(generate(bytes)) + 1\n        top = ord(generate(1)) & lsb_of_ones(extrabits)\n        return string_to_number(int2byte(top) + generate(bytes)) + 1\n    guess = candidate()\n    while not 1 <= guess < order:\n        guess = candidate()\n    return guess\n")]),
(0,'C44 C23',[(U,"def lsb_of_ones(numbits):\n    return (1 << numbits) - 1\n","def lsb_of_ones(numbits):\n    return 2**numbits - 1\n"),(U,"    bits = int(math.log(order-1, 2)+1)\n    bytes = bits // 8\n    extrabits = bits % 8\n    return bits, bytes, extrabits\n","    bits = int(math.log(order-1, 2)+1)\n    return (bits,) + divmod(bits, 8)\n")]),
(0,'C45',[(N,"    eport = port\n    r = u.getspecificportmapping(eport,proto)\n    while r != None and eport < 65536:\n      eport = eport + 1\n      r = u.getspecificportmapping(eport,proto)\n","    eport = port\n    while u.getspecificportmapping(eport,proto) is not None:\n      if eport >= 65536: break\n      eport += 1\n")]),
(0,'C45',[(N,"    eport = port\n    r = u.getspecificportmapping(eport,proto)\n    while r != None and eport < 65536:\n      eport = eport + 1\n      r = u.getspecificportmapping(eport,proto)\n    b = u.addportmapping(eport,proto,u.lanaddr,port,label,'')\n","    eport = _free_port(u,port,proto)\n    b = u.addportmapping(eport,proto,u.lanaddr,port,label,'')\n"),(N,"def add_portmap(","def _free_port(u, port, proto):\n  for eport in range(port,65536):\n    if u.getspecificportmapping(eport,proto) is None:\n      return eport\n  return 65536\n\ndef add_portmap(")]),
(0,'C45 C41',[(N,"  global _upnp\n  if _upnp: return _upnp\n  if miniupnpc is None: return None\n  \n  u = miniupnpc.UPnP()\n  u.discoverdelay = 200\n  try:\n    print('discovering... delay = %ums' % u.discoverdelay)\n    devices = u.discover()\n    print('%u device(s) detected' % devices)\n    _upnp = u\n  except Exception as e:\n    print('!! meet Exception: %s' % e)\n  return _upnp\n","  global _upnp\n  if _upnp is None and miniupnpc is not None:\n    router = miniupnpc.UPnP()\n    router.discoverdelay = 200\n    try:\n      print('discovering... delay = {}ms'.format(router.discoverdelay))\n      print('{} device(s) detected'.format(router.discover()))\n    except Exception as e:\n      print('!! meet Exception: %s' % e)\n    else:\n      _upnp = router\n  return _upnp\n")]),
(0,'C45',[(N,"    if b:\n      _mapped[(port,proto)] = eport\n      print('success! now waiting for %s request on %s:%u' % (proto,extAddr,eport))\n      return u\n    else:\n      print('!! failed')\n  except Exception as e:\n    print('!! meet Exception: %s' % e)\n","    if not b:\n      print('!! failed')\n      return None\n  except Exception as e:\n    print('!! meet Exception: %s' % e)\n    return None\n  _mapped[(port,proto)] = eport\n  print('success! now waiting for %s request on %s:%u' % (proto,extAddr,eport))\n  return u\n")]),
(0,'C46',[('nbc/util/ecdsa/ecdsa.py',"  if x == 0: return b('\\0')\n  result = []\n  while x:\n    ordinal = x & 0xFF\n    result.append(int2byte(ordinal))\n    x >>= 8\n\n  result.reverse()\n  return b('').join(result)\n","  result = int2byte(x % 256)\n  x //= 256\n  while x > 0:\n    x, low = divmod(x, 256)\n    result = int2byte(low) + result\n  return result\n")]),
(0,'C46',[('nbc/util/ecdsa/ecdsa.py',"  result = 0\n  for c in s:\n    if not isinstance(c, int): c = ord( c )\n    result = 256 * result + c\n  return result\n","  from functools import reduce\n  return reduce(lambda total, c: (total << 8) | (c if isinstance(c, int) else ord(c)), s, 0)\n")]),
(0,'C46',[(E,"    if (val & (1 << (bits - 1))):\n        val = val - (1 << bits)\n    return val\n","    sign = (val >> (bits - 1)) & 1\n    return val - (sign << bits)\n")]),
(0,'C46 C33',[('nbc/util/__init__.py',"    return DifficultyOneTarget / ((bits & 0x7fffff) * 2 ** (8 * ((bits >> 24) - 3)))\n","    exponent = 8 * ((bits >> 24) - 3)\n    mantissa = bits & 0x7fffff\n    return DifficultyOneTarget / (mantissa * 2 ** exponent)\n"),('nbc/util/__init__.py',"    return \"{:,d}\".format(value)\n","    return format(value, ',d')\n")]),
(0,'C46 C33 C01',[('nbc/util/__init__.py',"    return os.path.expanduser('~/.newbitcoin/data')\n","    return os.path.join(os.path.expanduser('~'), '.newbitcoin', 'data')\n")]),
(0,'C32',[(D,"    h = (\"%x\" % r).encode()\n    if len(h) % 2:\n        h = b(\"0\") + h\n    s = binascii.unhexlify(h)\n    num = s[0] if isinstance(s[0], integer_types) else ord(s[0])\n    if num <= 0x7f:\n        return b(\"\\x02\") + int2byte(len(s)) + s\n    else:\n","    size = r.bit_length() // 8 + 1\n    s = binascii.unhexlify(((\"%%0%dx\" % (2*size)) % r).encode())\n    if True:\n        return b(\"\\x02\") + int2byte(size) + s\n    else:\n")]),
(0,'C32',[(D,"    b128_digits = []\n    while n:\n        b128_digits.insert(0, (n & 0x7f) | 0x80)\n        n = n >> 7\n    if not b128_digits:\n        b128_digits.append(0)\n    b128_digits[-1] &= 0x7f\n    return b('').join([int2byte(d) for d in b128_digits])\n","    out = int2byte(n & 0x7f)\n    n >>= 7\n    while n:\n        out = int2byte((n & 0x7f) | 0x80) + out\n        n >>= 7\n    return out\n")]),
(0,'C32',[(D,"    n0 = numbers.pop(0)\n    first = n0//40\n    second = n0-(40*first)\n    numbers.insert(0, first)\n    numbers.insert(1, second)\n    return tuple(numbers), rest\n","    n0 = numbers[0]\n    return divmod(n0, 40) + tuple(numbers[1:]), rest\n")]),
(0,'C32',[(D,"    length, llen = read_length(string[1:])\n    body = string[1+llen:1+llen+length]\n    rest = string[1+llen+length:]\n    return tag, body, rest\n","    body, rest = _split(string)\n    return tag, body, rest\n\ndef _split(string):\n    length, llen = read_length(string[1:])\n    start = 1+llen\n    return string[start:start+length], string[start+length:]\n"),(D,"    length, lengthlength = read_length(string[1:])\n    endseq = 1+lengthlength+length\n    return string[1+lengthlength:endseq], string[endseq:]\n","    return _split(string)\n")]),
(0,'C32 C21',[(K,"        s1,empty = der.remove_sequence(string)\n        if empty != b(\"\"):\n            raise der.UnexpectedDER(\"trailing junk after DER pubkey: %s\" %\n                                    binascii.hexlify(empty))\n        s2,point_str_bitstring = der.remove_sequence(s1)\n","        def nothing(rest, where):\n            if rest:\n                raise der.UnexpectedDER(\"trailing junk after DER %s: %s\" % (where, binascii.hexlify(rest)))\n        s1,rest = der.remove_sequence(string)\n        nothing(rest, \"pubkey\")\n        s2,point_str_bitstring = der.remove_sequence(s1)\n"),(K,"        if empty != b(\"\"):\n            raise der.UnexpectedDER(\"trailing junk after DER pubkey objects: %s\" %\n                                    binascii.hexlify(empty))\n","        nothing(empty, \"pubkey objects\")\n")]),
(0,'C32 C21 C20',[(K,"        x_str = number_to_string(self.pubkey.point.x(), order)\n        y_str = number_to_string(self.pubkey.point.y(), order)\n        point_str = b(\"\\x00\\x04\") + x_str + y_str\n        return der","        point_str = b(\"\\x00\\x04\") + self.to_string()\n        return der")]),
(0,'C32',[(K,"        if len(privkey_str) < curve.baselen:\n            privkey_str = b(\"\\x00\")*(curve.baselen-len(privkey_str)) + privkey_str\n","        privkey_str = privkey_str.rjust(curve.baselen, b(\"\\x00\"))\n")]),
(0,'C21 C23',[(K,"        if k is not None:\n            _k = k\n        else:\n            _k = randrange(order, entropy)\n\n        assert 1 <= _k < order\n        sig = self.privkey.sign(number, _k)\n        return sig.r, sig.s\n","        nonce = randrange(order, entropy) if k is None else k\n        assert nonce >= 1 and nonce < order\n        sig = self.privkey.sign(number, nonce)\n        r, s = sig.r, sig.s\n        return (r, s)\n")]),
(0,'C21 C24',[(K,"        if len(digest) > self.curve.baselen:\n            raise BadDigestError(\"this curve (%s) is too short \"\n                                 \"for your digest (%d)\" % (self.curve.name,\n                                                           8*len(digest)))\n        number = string_to_number(digest)\n        r, s = sigdecode","        self._fits(digest)\n        number = string_to_number(digest)\n        r, s = sigdecode"),(K,"    def verify_digest(","    def _fits(self, digest):\n        size = len(digest)\n        if not size <= self.curve.baselen:\n            raise BadDigestError(\"this curve (%s) is too short for your digest (%d)\" % (self.curve.name, 8*size))\n\n    def verify_digest(")]),
(0,'C19 C20 C27 C25 C31 C17',[(KEY,"    key = base58.decode_check(privkey)\n    if not key:\n        raise ValueError('invalid wif private key')\n    if ORD(prefix) != ORD(key[0]):\n        raise ValueError('wif private key has does not match prefix')\n    if len(key) == 33:\n        ch = ORD(privkey[0])\n        if ch != 53:  # 53 is '5'\n            raise ValueError('uncompressed wif private key does not begin with 5')\n        return key[1:]\n    elif len(key) == 34:\n        if ORD(key[-1]) != 1:  # not 0x01\n            raise ValueError('compressed wif private key missing compression bit')\n        ch = ORD(privkey[0])\n        if ch != 76 and ch != 75:  # 76 is 'L', 75 is 'K'\n            raise ValueError('uncompressed wif private key does not begin with 5')\n        return key[1:-1]\n    raise ValueError('invalid wif private key')\n","    key = base58.decode_check(privkey)\n    if not key or len(key) not in (33, 34):\n        raise ValueError('invalid wif private key')\n    if ORD(prefix) != ORD(key[0]):\n        raise ValueError('wif private key has does not match prefix')\n    first = ORD(privkey[0])\n    compressed = len(key) == 34\n    if compressed and ORD(key[-1]) != 1:\n        raise ValueError('compressed wif private key missing compression bit')\n    if first not in ((76, 75) if compressed else (53,)):\n        raise ValueError('unexpected first character of the wif private key')\n    return key[1:33]\n")]),
(0,'C20 C21 C27 C31',[(KEY,"    ch = ORD(public_key[0])\n    if ch == 4 and len(public_key) == 65:\n        x = string_to_number(public_key[1:33])\n        y = string_to_number(public_key[33:65])\n        if not point_is_valid(curve.generator, x, y):\n            raise ValueError('invalid public key')\n        return public_key\n\n    if (ch != 2 and ch != 3) or len(public_key) != 33:\n        raise ValueError('invalid compressed public key')\n","    kind = (ORD(public_key[0]), len(public_key))\n    ch = kind[0]\n    if kind == (4, 65):\n        if not point_is_valid(curve.generator, *map(string_to_number, (public_key[1:33], public_key[33:]))):\n            raise ValueError('invalid public key')\n        return public_key\n\n    if kind not in ((2, 33), (3, 33)):\n        raise ValueError('invalid compressed public key')\n")]),
(0,'C20 C27',[(KEY,"    if (ch & 0x01) != (y & 0x01):\n        y = _p - y\n","    y = y if (ch ^ y) & 1 == 0 else _p - y\n")]),
(0,'C27 C17 C25',[(KEY,"    pubHash = hashlib.sha512(publickey).digest()\n    s1 = hashlib.new('ripemd160',pubHash[:32]).digest()\n    s2 = hashlib.new('ripemd160',pubHash[32:]).digest()\n    return pubkeyhash_to_address(hashlib.sha256(s1+s2).digest(),vcn,version)\n","    pubHash = hashlib.sha512(publickey).digest()\n    both = hashlib.sha256()\n    for half in (pubHash[:32], pubHash[32:]):\n        both.update(hashlib.new('ripemd160',half).digest())\n    return pubkeyhash_to_address(both.digest(),vcn,version)\n")]),
(0,'C16 C17',[(A,"  m,n = divmod(len(sText),16)\n  if n:\n    sText = sText + b'\\x00' * (16 - n)  # align to 16 * N\n    m += 1\n  \n  sEncoded = b''; iFrom = 0\n  for i in range(m):\n    sEncoded += aes.encrypt(sText[iFrom:iFrom+16])\n    iFrom += 16\n  return sEncoded\n","  sText += b'\\x00' * (-len(sText) % 16)  # align to 16 * N\n  return b''.join([aes.encrypt(sText[i:i+16]) for i in range(0,len(sText),16)])\n")]),
(0,'C16 C17',[(A,"  sDecoded = b''; iFrom = 0\n  for i in range(m):\n    sDecoded += aes.decrypt(sText[iFrom:iFrom+16])\n    iFrom += 16\n  return sDecoded\n","  blocks = (sText[i*16:i*16+16] for i in range(m))\n  return b''.join(map(aes.decrypt,blocks))\n"),(A,"  while not passphrase:\n    passphrase = getpass.getpass('Passphrase:').strip()\n","  while True:\n    if passphrase: break\n    passphrase = getpass.getpass('Passphrase:').strip()\n")]),
(0,'C16 C17 C15',[(A,"    cfg = { 'encrypted': False, 'type': 'default',\n      'vcn': self._vcn,\n      'testnet': self._testnet,\n      'prvkey': None, 'pubkey': None,\n    }\n    \n    privKey = self._privKey; pubKey = self._pubKey\n    if privKey:\n      assert(len(privKey) <= 255)\n      privKey = (b'%02x' % len(privKey)) + privKey\n      \n      if passphrase:\n        privKey = _aesEncrypt(privKey,passphrase)\n        cfg['encrypted'] = True\n      \n      cfg['prvkey'] = hexlify(privKey).decode('latin-1')\n    elif pubKey:\n      cfg['pubkey'] = hexlify(self.publicKey()).decode('latin-1')\n    return cfg\n","    cfg = dict(encrypted=False, type='default', vcn=self._vcn, testnet=self._testnet, prvkey=None, pubkey=None)\n    if self._privKey:\n      cfg['prvkey'], cfg['encrypted'] = self._sealed(passphrase)\n    elif self._pubKey:\n      cfg.update(pubkey=hexlify(self.publicKey()).decode('latin-1'))\n    return cfg\n  \n  def _sealed(self, passphrase):\n    key = self._privKey\n    assert len(key) <= 255\n    text = (b'%02x' % len(key)) + key\n    sealed = bool(passphrase)\n    if sealed:\n      text = _aesEncrypt(text,passphrase)\n    return hexlify(text).decode('latin-1'), sealed\n")]),
(0,'C16 C17',[(A,"      try:\n        orgLen = int(prvKey[:2],16); nowLen = len(prvKey)\n        if nowLen < 2 + orgLen or nowLen > orgLen + 17:   # 17 is 2 + padding(15)\n          raise ValueError('out of range')\n        prvKey = prvKey[2:2+orgLen]  # first 2 bytes is original length\n      except:\n        raise ValueError('invalid private key')\n","      try:\n        size = int(prvKey[:2],16)\n      except ValueError:\n        raise ValueError('invalid private key')\n      padding = len(prvKey) - 2 - size\n      if not 0 <= padding <= 15:\n        raise ValueError('invalid private key')\n      prvKey = prvKey[2:size+2]\n")]),
(0,'C20 C27 C17 C21',[(A,"      ch = ORD(pubKey[0])\n      if ch == 4:  # prefix with 0x04 means decompressed\n        if len(pubKey) != 65:\n          raise ValueError('invalid uncomprssed public key')\n        util.key.decompress_public_key(pubKey)  # raises ValueError if not on the curve\n      elif ch == 2 or ch == 3:\n        pubKey = util.key.decompress_public_key(pubKey)\n        self._compressed = True\n      else:\n        raise ValueError('invalid public key')\n      self._pubKey = pubKey\n","      if ORD(pubKey[0]) not in (2,3,4):\n        raise ValueError('invalid public key')\n      whole = util.key.decompress_public_key(pubKey)\n      if whole != pubKey:\n        self._compressed = True\n      self._pubKey = whole\n")]),
(0,'C21',[(E,"    try:\n        public_key = decompress_public_key(public_key)\n    except ValueError:\n        return False\n\n    key = ecdsa.VerifyingKey.from_string(public_key[1:], ecdsa.SECP256k1)\n    try:\n        return key.verify_digest(signature, sha256d(data), sigdecode = sigdecode_der)\n    except (ecdsa.BadSignatureError, der.UnexpectedDER, ValueError, IndexError):\n        return False\n","    refusals = (ecdsa.BadSignatureError, der.UnexpectedDER, ValueError, IndexError)\n    digest = sha256d(data)\n    try:\n        whole = decompress_public_key(public_key)\n    except ValueError:\n        return False\n    try:\n        key = ecdsa.VerifyingKey.from_string(whole[1:], ecdsa.SECP256k1)\n        ok = key.verify_digest(signature, digest, sigdecode_der)\n    except refusals:\n        ok = False\n    return ok\n")]),
(0,'C17 C27',[(A,"    if vcn is None:\n      self._vcn = randint(0,0xffff)\n    else: self._vcn = int(vcn) & 0xFFFF\n","    self._vcn = randint(0,0xffff) if vcn is None else int(vcn) % 65536\n"),(A,"    ver = b'\\x6f' if self._testnet else b'\\x00'\n","    ver = (b'\\x00',b'\\x6f')[bool(self._testnet)]\n")]),
]
