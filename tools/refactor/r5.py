WA = 'C14 C15 C16 C17 C18'; UT = 'C14 C15 C21 C23 C29 C30 C33'
W = 'nbc/wallet/__init__.py'; CO = 'nbc/coins/__init__.py'; UI = 'nbc/util/__init__.py'; BS = 'nbc/util/bootstrap.py'
HS = 'nbc/util/hash.py'; C = 'nbc/coins/coin.py'; NB = 'nbc/coins/newbitcoin.py'
SAVE = """  tmpName = fileName + '.tmp'
  with open(tmpName,'w') as f:
    f.write(sCfg)
    f.flush()
    os.fsync(f.fileno())
  if os.name == 'nt' and os.path.exists(fileName):
    os.remove(fileName)   # rename can not overwrite
  os.rename(tmpName,fileName)
"""
LOAD = """  with open(fileName,'r') as f:
    cfg = json.loads(f.read())
    tp = cfg.get('type')
    if tp == 'HD':
      return HDWallet.load_from_cfg(cfg,passphrase)
    elif tp == 'default':
      return Address.load_from_cfg(cfg,passphrase)
    else: raise RuntimeError('unknown config')
"""
EDITS = [
(0, WA, [(W, SAVE, """  tmpName = fileName + '.tmp'
  _writeSynced(tmpName,sCfg)
  os.replace(tmpName,fileName)

def _writeSynced(name, text):
  f = open(name,'w')
  try:
    f.write(text)
    f.flush()
    os.fsync(f.fileno())
  finally:
    f.close()
"""), (W, LOAD, """  with open(fileName) as f:
    cfg = json.load(f)
  loaders = { 'HD': HDWallet.load_from_cfg, 'default': Address.load_from_cfg }
  kind = cfg.get('type')
  if kind not in loaders:
    raise RuntimeError('unknown config')
  return loaders[kind](cfg,passphrase)
""")]),
(0, WA, [(W, SAVE, """  tmpName = '%s.tmp' % (fileName,)
  with open(tmpName,'w') as f:
    f.write(sCfg)
    f.flush()
    os.fsync(f.fileno())
  os.replace(tmpName,fileName)
"""), (W, LOAD, """  with open(fileName,'r') as f:
    text = f.read()
  cfg = json.loads(text)
  tp = cfg.get('type')
  if tp == 'HD':
    klass = HDWallet
  elif tp == 'default':
    klass = Address
  else: raise RuntimeError('unknown config')
  return klass.load_from_cfg(cfg,passphrase)
""")]),
(0, WA, [(W, """  cfg = wallet.dump_to_cfg(passphrase)
  sCfg = json.dumps(cfg)
""" , """  sCfg = json.dumps(wallet.dump_to_cfg(passphrase))
"""), (W, SAVE, """  tmpName = fileName + '.tmp'
  fd = os.open(tmpName, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
  with os.fdopen(fd,'w') as f:
    f.write(sCfg)
    f.flush()
    os.fsync(fd)
  os.replace(tmpName,fileName)
""")]),
(0, WA, [(W, SAVE, """  tmpName = fileName + '.tmp'
  try:
    with open(tmpName,'wb') as f:
      f.write(sCfg.encode('ascii'))
      f.flush()
      os.fsync(f.fileno())
    os.replace(tmpName,fileName)
  except BaseException:
    if os.path.exists(tmpName):
      os.remove(tmpName)
    raise
""")]),
(0, UT, [(CO, """    if name is None: name = ''
    if symbol is None: symbol = ''
    
    for coin in Coins:
        if name and name.lower() == coin.name or symbol.upper() in coin.symbols:
            return coin
    
    return None
""", """    wanted_name = (name or '').lower()
    wanted_symbol = (symbol or '').upper()
    return next((coin for coin in Coins if _matches(coin, wanted_name, wanted_symbol)), None)

def _matches(coin, name, symbol):
    if name and coin.name == name:
        return True
    return symbol in coin.symbols
"""), (C, """        return sha256d(block_header)
""", """        digest = sha256d(block_header)
        return digest
"""), (NB, """def decodeHex(s):  # avoid using 'ff'.decode('hex') that not supported in python3
  return _decodeHex(s)[0]
""", """def decodeHex(s):
  import binascii
  return binascii.unhexlify(s)
"""), (HS, """def sha256d(data):
    return sha256(sha256(data))
""", """def sha256d(data):
    first = hashlib.sha256()
    first.update(data)
    return hashlib.sha256(first.digest()).digest()
""")]),
(0, UT, [(UI, """    return struct.pack('<I32s32sIII', version, prev_block, merkle_root, timestamp, bits, nonce)
""", """    head = struct.pack('<I32s32s', version, prev_block, merkle_root)
    return head + struct.pack('<3I', timestamp, bits, nonce)
"""), (UI, """    target = ((bits & 0x7fffff) * 2 ** (8 * ((bits >> 24) - 3)))
    return binascii.unhexlify(("%064x" % target).encode('ascii'))
""", """    exponent, mantissa = bits >> 24, bits & 0x7fffff
    target = mantissa * 256 ** (exponent - 3)
    return binascii.unhexlify(("%x" % target).zfill(64).encode('ascii'))
"""), (UI, """    while len(branches) > 1:
        if (len(branches) % 2) == 1:
            branches.append(branches[-1])

        branches = [sha256d(a + b) for (a, b) in zip(branches[0::2], branches[1::2])]

    return branches[0]
""", """    while len(branches) != 1:
        if len(branches) & 1:
            branches = branches + [branches[-1]]
        parents = []
        for i in range(0, len(branches), 2):
            parents.append(sha256d(branches[i] + branches[i + 1]))
        branches = parents

    return branches[0]
"""), (UI, """     major = version // 1000000
     minor = (version // 10000) % 100
     revision = (version // 100) % 100
     build = version % 100
     return (major, minor, revision, build)
""", """     rest, build = divmod(version, 100)
     rest, revision = divmod(rest, 100)
     major, minor = divmod(rest, 100)
     return (major, minor, revision, build)
"""), (UI, """    if not ((0 <= minor < 100) and (0 <= revision < 100) and (0 <= build < 100)):
        raise ValueError('minor, revision and build must be in the range [0, 99]')
    return (major * 1000000) + (minor * 10000) + (revision * 100) + build
""", """    version = major
    for part in (minor, revision, build):
        if part < 0 or part > 99:
            raise ValueError('minor, revision and build must be in the range [0, 99]')
        version = version * 100 + part
    return version
"""), (UI, """    pow = coin.proof_of_work(binary_header)[::-1]
    return pow <= get_target(block_header.bits)
""", """    work = int.from_bytes(coin.proof_of_work(binary_header), 'little')
    return not work > int.from_bytes(get_target(block_header.bits), 'big')
"""), (UI, """    return binascii.unhexlify(data)[::-1]
""", """    octets = bytearray(binascii.unhexlify(data))
    octets.reverse()
    return bytes(octets)
""")]),
(0, UT, [(BS, """        with self._lock:
            address = random.choice(self._found)
            self._found.remove(address)
            return address
""", """        self._lock.acquire()
        try:
            address = random.choice(self._found)
            self._found.remove(address)
        finally:
            self._lock.release()
        return address
"""), (BS, """                for info in socket.getaddrinfo(ip_address, port, socket.AF_INET, socket.SOCK_STREAM, socket.IPPROTO_TCP):
                    try:
                        with self._lock:
                            self._found.append((info[4][0], info[4][1]))
                    except Exception as e:
                        pass
""", """                found = socket.getaddrinfo(ip_address, port, socket.AF_INET, socket.SOCK_STREAM, socket.IPPROTO_TCP)
                for (_, _, _, _, sockaddr) in found:
                    self._add(sockaddr[0], sockaddr[1])
"""), (BS, """    def _start(self):""", """    def _add(self, ip_address, port):
        with self._lock:
            self._found.append((ip_address, port))

    def _start(self):"""), (UI, """    def get_block_height(name, func):
        try:
            block_height = func()
            with lock:
                result[name] = block_height
        except Exception as e:
            print(e)
""", """    def get_block_height(name, func):
        try:
            block_height = func()
        except Exception as e:
            print(e)
            return
        lock.acquire()
        try:
            result[name] = block_height
        finally:
            lock.release()
"""), (UI, """    with lock:
        return result.copy()
""", """    with lock:
        answer = dict(result)
    return answer
""")]),
]
