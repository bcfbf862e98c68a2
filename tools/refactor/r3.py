P = 'C14 C15 C16 C17 C18 C19 C20 C21 C23 C25 C26 C27 C35'
K = 'nbc/util/key.py'; B = 'nbc/util/base58.py'; E = 'nbc/util/ecc.py'
A = 'nbc/wallet/address.py'; H = 'nbc/wallet/hdwallet.py'
EDITS = [
(0, P, [(K, """    if ORD(public_key[0]) != 4 or len(public_key) != 65:    # public_key[0] != '\\x04'
        raise ValueError('invalid uncompressed public key')
    y_parity = string_to_number(public_key[33:65])
    return CHR(0x02 + (y_parity & 0x01)) + public_key[1:33]
""", """    if not (ORD(public_key[0]) == 4 and len(public_key) == 65):
        raise ValueError('invalid uncompressed public key')
    odd = ORD(public_key[64]) % 2
    prefix = b'\\x03' if odd else b'\\x02'
    return prefix + public_key[1:33]
"""), (K, """    ch = ORD(public_key[0])
    if ch == 4 and len(public_key) == 65:
        x = string_to_number(public_key[1:33])
        y = string_to_number(public_key[33:65])
        if not point_is_valid(curve.generator, x, y):
            raise ValueError('invalid public key')
        return public_key

    if (ch != 2 and ch != 3) or len(public_key) != 33:
        raise ValueError('invalid compressed public key')

    x = string_to_number(public_key[1:])
    try:
        y = square_root_mod_prime((x ** 3 + _a * x + _b) % _p, _p)
    except SquareRootError:
        raise ValueError('invalid public key')
    if not point_is_valid(curve.generator, x, y):
        raise ValueError('invalid public key')

    if (ch & 0x01) != (y & 0x01):
        y = _p - y

    return b'\\x04' + public_key[1:] + number_to_string(y, _n)
""", """    ch = ORD(public_key[0])
    if ch == 4 and len(public_key) == 65:
        _require_valid(string_to_number(public_key[1:33]), string_to_number(public_key[33:]))
        return public_key

    if ch not in (2, 3) or len(public_key) != 33:
        raise ValueError('invalid compressed public key')

    x = string_to_number(public_key[1:33])
    try:
        root = square_root_mod_prime((pow(x, 3, _p) + _a * x + _b) % _p, _p)
    except SquareRootError:
        raise ValueError('invalid public key')
    _require_valid(x, root)

    y = root if (root - ch) % 2 == 0 else _p - root
    return b''.join([b'\\x04', public_key[1:], number_to_string(y, _n)])

def _require_valid(x, y):
    if not point_is_valid(curve.generator, x, y):
        raise ValueError('invalid public key')
""")]),
(0, P, [(K, """    if len(key) == 33:
        ch = ORD(privkey[0])
        if ch != 53:  # 53 is '5'
            raise ValueError('uncompressed wif private key does not begin with 5')
        return key[1:]
    elif len(key) == 34:
        if ORD(key[-1]) != 1:  # not 0x01
            raise ValueError('compressed wif private key missing compression bit')
        ch = ORD(privkey[0])
        if ch != 76 and ch != 75:  # 76 is 'L', 75 is 'K'
            raise ValueError('uncompressed wif private key does not begin with 5')
        return key[1:-1]
    raise ValueError('invalid wif private key')
""", """    size = len(key)
    if size != 33 and size != 34:
        raise ValueError('invalid wif private key')
    compressed = size == 34
    if compressed and key[-1:] != b'\\x01':
        raise ValueError('compressed wif private key missing compression bit')
    first = privkey[0:1]
    if isinstance(first, str):
        first = first.encode('ascii')
    allowed = b'KL' if compressed else b'5'
    if first not in allowed:
        raise ValueError('wif private key does not begin with the right character')
    return key[1:33]
""")]),
(0, P, [(K, """    pubHash = hashlib.sha512(publickey).digest()
    s1 = hashlib.new('ripemd160',pubHash[:32]).digest()
    s2 = hashlib.new('ripemd160',pubHash[32:]).digest()
    return pubkeyhash_to_address(hashlib.sha256(s1+s2).digest(),vcn,version)
""", """    h = hashlib.sha512()
    h.update(publickey)
    pubHash = h.digest()
    outer = hashlib.sha256()
    for half in (pubHash[:32], pubHash[32:]):
        outer.update(hashlib.new('ripemd160', half).digest())
    return pubkeyhash_to_address(outer.digest(), vcn, version)
"""), (K, """    return base58.encode_check(version + (b'%04x' % (vcn & 0xFFFF)) + publickey_hash)
""", """    text = ('%04x' % (vcn % 65536)).encode('ascii')
    return base58.encode_check(b''.join((version, text, publickey_hash)))
""")]),
(0, P, [(B, """  nPad = len(v)
  v = v.lstrip(b'\\x00')
  nPad -= len(v)
  
  p,acc = 1,0
  for c in iseq(reversed(v)):
    acc += p * c
    p = p << 8
  
  ret = b58encode_int(acc,default_one=False)
  return (alphabet[0:1] * nPad + ret)
""", """  stripped = v.lstrip(b'\\x00')
  nPad = len(v) - len(stripped)
  acc = 0
  for c in stripped:
    acc = acc * 256 + c
  return alphabet[0:1] * nPad + b58encode_int(acc,default_one=False)
""")]),
(0, P, [(B, """  acc = b58decode_int(v)
  
  ret = []
  while acc > 0:
    acc, mod = divmod(acc, 256)
    ret.append(mod)
  
  return (b'\\0' * (origlen - newlen) + bseq(reversed(ret)))
""", """  acc = b58decode_int(v)
  
  ret = bytearray()
  while acc:
    ret.append(acc & 0xff)
    acc >>= 8
  ret.reverse()
  return bytes(origlen - newlen) + bytes(ret)
""")]),
(0, P, [(B, """  acc = b58decode_int(v)
  
  ret = []
  while acc > 0:
    acc, mod = divmod(acc, 256)
    ret.append(mod)
  
  return (b'\\0' * (origlen - newlen) + bseq(reversed(ret)))
""", """  acc = b58decode_int(v)
  body = acc.to_bytes((acc.bit_length() + 7) // 8, 'big')
  return b'\\0' * (origlen - newlen) + body
"""), (B, """  digest = sha256(sha256(ret).digest()).digest()
  
  if digest[:4] == check:
    return ret
  else: return None""", """  if _checksum(ret) != check:
    return None
  return ret

def _checksum(v):
  return sha256(sha256(v).digest()).digest()[:4]"""), (B, """  digest = sha256(sha256(v).digest()).digest()
  return b58encode(v + digest[:4])
""", """  return b58encode(v + _checksum(v))
""")]),
(0, P, [(E, """    length, llen = der.read_length(string[1:])
    numberbytes = string[1+llen:1+llen+length]
    rest = string[1+llen+length:]
    #nbytes""", """    length, llen = der.read_length(string[1:])
    start = 1 + llen
    end = start + length
    numberbytes, rest = string[start:end], string[end:]
    #nbytes"""), (E, """    try:
        public_key = decompress_public_key(public_key)
    except ValueError:
        return False

    key = ecdsa.VerifyingKey.from_string(public_key[1:], ecdsa.SECP256k1)
    try:
        return key""", """    try:
        full = decompress_public_key(public_key)
    except ValueError:
        return False

    key = ecdsa.VerifyingKey.from_string(full[1:], ecdsa.SECP256k1)
    try:
        return key""")]),
(0, P, [(A, """  aes = AES(passphrase)
  
  m,n = divmod(len(sText),16)
  if n:
    sText = sText + b'\\x00' * (16 - n)  # align to 16 * N
    m += 1
  
  sEncoded = b''; iFrom = 0
  for i in range(m):
    sEncoded += aes.encrypt(sText[iFrom:iFrom+16])
    iFrom += 16
  return sEncoded
""", """  aes = AES(passphrase)
  sText = sText + b'\\x00' * (-len(sText) % 16)  # align to 16 * N
  return b''.join([aes.encrypt(sText[i:i+16]) for i in range(0, len(sText), 16)])
"""), (A, """  sDecoded = b''; iFrom = 0
  for i in range(m):
    sDecoded += aes.decrypt(sText[iFrom:iFrom+16])
    iFrom += 16
  return sDecoded
""", """  blocks = []
  while sText:
    blocks.append(aes.decrypt(sText[:16]))
    sText = sText[16:]
  return b''.join(blocks)
""")]),
(0, P, [(A, """      ch = ORD(privKey[0])
      if ch == 76 or ch == 75:  # 76 is 'L', 75 is 'K'
        self._compressed = True
      elif ch != 53:            # 53 is '5'
        raise ValueError('unknown private key type: %r' % privKey[0])
      
      secexp = string_to_number(util.key.privkey_from_wif(self._privKey))
      point = curve.generator * secexp
      pubKey = _keyFromPoint(point,False)
    else: self._privKey = None
""", """      first = privKey[:1]
      if first not in (b'5', b'K', b'L'):
        raise ValueError('unknown private key type: %r' % privKey[0])
      self._compressed = first != b'5'
      pubKey = self._derive(self._privKey)
    else: self._privKey = None
"""), (A, """  def publicKey(self):
    'The public""", """  @staticmethod
  def _derive(wif):
    secexp = string_to_number(util.key.privkey_from_wif(wif))
    return _keyFromPoint(curve.generator * secexp,False)
  
  def publicKey(self):
    'The public"""), (A, """      ch = ORD(pubKey[0])
      if ch == 4:  # prefix with 0x04 means decompressed
        if len(pubKey) != 65:
          raise ValueError('invalid uncomprssed public key')
        util.key.decompress_public_key(pubKey)  # raises ValueError if not on the curve
      elif ch == 2 or ch == 3:
        pubKey = util.key.decompress_public_key(pubKey)
        self._compressed = True
      else:
        raise ValueError('invalid public key')
      self._pubKey = pubKey
""", """      ch = ORD(pubKey[0])
      if ch not in (2,3,4):
        raise ValueError('invalid public key')
      full = util.key.decompress_public_key(pubKey)  # raises ValueError if not on the curve
      if ch != 4:
        self._compressed = True
      self._pubKey = full
""")]),
(0, P, [(A, """    cfg = { 'encrypted': False, 'type': 'default',
      'vcn': self._vcn,
      'testnet': self._testnet,
      'prvkey': None, 'pubkey': None,
    }
    
    privKey = self._privKey; pubKey = self._pubKey
    if privKey:
      assert(len(privKey) <= 255)
      privKey = (b'%02x' % len(privKey)) + privKey
      
      if passphrase:
        privKey = _aesEncrypt(privKey,passphrase)
        cfg['encrypted'] = True
      
      cfg['prvkey'] = hexlify(privKey).decode('latin-1')
    elif pubKey:
      cfg['pubkey'] = hexlify(self.publicKey()).decode('latin-1')
    return cfg
""", """    secret = public = None
    locked = False
    if self._privKey:
      assert(len(self._privKey) <= 255)
      body = (b'%02x' % len(self._privKey)) + self._privKey
      locked = bool(passphrase)
      if locked:
        body = _aesEncrypt(body,passphrase)
      secret = body.hex()
    elif self._pubKey:
      public = self.publicKey().hex()
    return dict(encrypted=locked, type='default', vcn=self._vcn,
      testnet=self._testnet, prvkey=secret, pubkey=public)
"""), (A, """      try:
        orgLen = int(prvKey[:2],16); nowLen = len(prvKey)
        if nowLen < 2 + orgLen or nowLen > orgLen + 17:   # 17 is 2 + padding(15)
          raise ValueError('out of range')
        prvKey = prvKey[2:2+orgLen]  # first 2 bytes is original length
      except:
        raise ValueError('invalid private key')
""", """      try:
        orgLen = int(prvKey[:2],16)
      except ValueError:
        raise ValueError('invalid private key')
      extra = len(prvKey) - 2 - orgLen
      if not (0 <= extra <= 15):
        raise ValueError('invalid private key')
      prvKey = prvKey[2:len(prvKey)-extra]
""")]),
(0, P, [(H, """    if priv_deriv:
      str_k = number_to_string(self._prvkey,curve.order)
      deriv = hmac.new(key=self._chain, msg=b'\\x00' + str_k + str_i, digestmod=hashlib.sha512).digest()
    else:
      str_K = point_compress(self.point())
      deriv = hmac.new(key=self._chain, msg=str_K + str_i, digestmod=hashlib.sha512).digest()
    
    childChain = deriv[32:]
    childModifier = string_to_number(deriv[:32])
    
    if childModifier >= curve.order:
      raise Exception('This is higly unprovable IL >= n, but it did happen')
    
    if self._prvkey:
      childPrvkey = (self._prvkey + childModifier) % curve.order 
      if childPrvkey == 0:
        raise Exception('This is higly unprovable ki = 0, but it did happen')
      
      childKey = childPrvkey
    else: 
      childPubkey = self.point() + curve.generator * childModifier
      if childPubkey == ellipticcurve.INFINITY:
        raise Exception('This is higly unprovable Ki = INFINITY, but it did happen')
      
      childKey = childPubkey
""", """    if priv_deriv:
      head = b'\\x00' + number_to_string(self._prvkey,curve.order)
    else:
      head = point_compress(self.point())
    mac = hmac.new(self._chain, head, hashlib.sha512)
    mac.update(str_i)
    deriv = mac.digest()
    childModifier, childChain = string_to_number(deriv[:32]), deriv[32:]
    if not childModifier < curve.order:
      raise Exception('This is higly unprovable IL >= n, but it did happen')
    childKey = self._derive_key(childModifier)
"""), (H, """  def to_extended_key(self, include_prv=False):
    if not self._testnet:
      version = 0x0488B21E if not include_prv else 0x0488ADE4  # 0x0488B21E for BIP-32 extended public key (xpub)
    else:
      version = 0x043587CF if not include_prv else 0x04358394
    
    version  = number_to_string(version,2**32-1)
""", """  def _derive_key(self, modifier):
    if self._prvkey:
      key = (modifier + self._prvkey) % curve.order
      if not key:
        raise Exception('This is higly unprovable ki = 0, but it did happen')
      return key
    key = curve.generator * modifier + self.point()
    if key == ellipticcurve.INFINITY:
      raise Exception('This is higly unprovable Ki = INFINITY, but it did happen')
    return key
  
  def to_extended_key(self, include_prv=False):
    versions = {
      (False, False): 0x0488B21E, (False, True): 0x0488ADE4,
      (True, False): 0x043587CF, (True, True): 0x04358394,
    }
    version = versions[bool(self._testnet), bool(include_prv)]
    version  = number_to_string(version,2**32-1)
""")]),
(0, P, [(H, """    version = string_to_number(ekdata[0:0+4])
    depth   = string_to_number(ekdata[4:4+1])
    parentfp = ekdata[5:5+4]
    childnum = string_to_number(ekdata[9:9+4])
    chaincode = ekdata[13:13+32]
    data = ekdata[45:45+33]
    
    testnet = version in (0x043587CF, 0x04358394)
    
    if version in (0x0488B21E, 0x043587CF): # data contains pubkey
      assert(ORD(data[0]) in (2,3))
      key = point_decompress(curve.curve,data)
    elif version in (0x0488ADE4, 0x04358394): # data contains privkey
      assert(ORD(data[0]) == 0)
      key = string_to_number(data[1:])
    else:
      raise Exception('unknown version')
""", """    import struct
    version, depth, parentfp, childnum, chaincode, data = struct.unpack('>IB4sI32s33s', ekdata)
    testnet = version == 0x043587CF or version == 0x04358394
    is_public = version == 0x0488B21E or version == 0x043587CF
    if not is_public and version not in (0x0488ADE4, 0x04358394):
      raise Exception('unknown version')
    if is_public:
      assert(data[:1] in (b'\\x02',b'\\x03'))
      key = point_decompress(curve.curve,data)
    else:
      assert(ORD(data[0]) == 0)
      key = string_to_number(data[1:])
""")]),
(0, P, [(H, """    deriv = hmac.new(key=b'Bitcoin seed', msg=master_seed, digestmod=hashlib.sha512).digest()
    master_key = string_to_number(deriv[:32])
    if not (0 < master_key < curve.order): raise ValueError('invalid master key, try another seed')
    master_chain = deriv[32:]
    return HDWallet(master_key, master_chain, vcn=vcn, testnet=testnet)
""", """    digest = hmac.new(b'Bitcoin seed', master_seed, 'sha512').digest()
    secret, chain = digest[:32], digest[32:]
    master_key = string_to_number(secret)
    if master_key == 0 or master_key >= curve.order:
      raise ValueError('invalid master key, try another seed')
    return HDWallet(master_key, chain, vcn=vcn, testnet=testnet)
"""), (H, """    cfg = { 'encrypted': False, 'type': 'HD',
      'chain': hexlify(self._chain).decode('latin-1'),
      'vcn': self.vcn,
      'testnet': self._testnet,
      'depth': self._depth,
      'parentfp': hexlify(self.parentfp()).decode('latin-1'),
      'childnum': self._childnum,
    }
    
    if self._prvkey:   # int or long, can not be 0
      sPrv = number_to_string(self._prvkey,curve.order)
      assert(len(sPrv) <= 255)
      sPrv = (b'%02x' % len(sPrv)) + sPrv
      
      if passphrase:
        sPrv = _aesEncrypt(sPrv,passphrase)
        cfg['encrypted'] = True
      
      cfg['prvkey'] = hexlify(sPrv).decode('latin-1')
      cfg['pubkey'] = None
    elif self._pubkey:
      cfg['prvkey'] = None
      cfg['pubkey'] = hexlify(point_compress(self._pubkey)).decode('latin-1')
    return cfg
""", """    cfg = { 'encrypted': False, 'type': 'HD',
      'chain': hexlify(self._chain).decode('latin-1'),
      'vcn': self.vcn,
      'testnet': self._testnet,
      'depth': self._depth,
      'parentfp': hexlify(self.parentfp()).decode('latin-1'),
      'childnum': self._childnum,
      'prvkey': None, 'pubkey': None,
    }
    if self._prvkey:   # int or long, can not be 0
      cfg['prvkey'] = self._secret_text(passphrase)
      if passphrase: cfg['encrypted'] = True
    elif self._pubkey:
      cfg['pubkey'] = hexlify(point_compress(self._pubkey)).decode('latin-1')
    return cfg
  
  def _secret_text(self, passphrase):
    raw = number_to_string(self._prvkey,curve.order)
    framed = (b'%02x' % len(raw)) + raw
    if passphrase:
      framed = _aesEncrypt(framed,passphrase)
    return hexlify(framed).decode('latin-1')
""")]),
]
