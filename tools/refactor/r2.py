P = 'C01 C02 C03 C04 C06 C07 C08 C14 C15'
F = 'nbc/protocol/format.py'; M = 'nbc/protocol/messages.py'
EDITS = [
(0, P, [(F, """  (off, count) = FtVarInteger.parse(data)
  ret = []; index = 0
  while index < count:
    (itemLen,itemObj) = kind.parse(data[off:])
    ret.append(itemObj)
    index += 1
    off += itemLen
  return (off,ret)
""", """  (offset, count) = FtVarInteger.parse(data)
  items = []
  for _ in range(count):
    consumed, item = kind.parse(data[offset:])
    offset = offset + consumed
    items.append(item)
  return (offset, items)
"""), (F, """    keys = [k for (k, t) in self.properties] # self.properties defines all args and kw
    
    # convert the positional arguments into kw
    params = dict(zip(keys,args))
    for k in kw:
      if k in params:    # can not redefine
        raise TypeError('got multiple values for keyword argument %r' % k)
    keys = set(keys)
    for k in kw:
      if k not in keys:  # unknown keywords
        raise TypeError('got an unexpected keyword argument %r' % k)
    
    params.update(kw)    # add keyword arguments
    
    if len(params) != len(keys):  # check number of properties
      suffix = '' if len(keys) <= 1 else 's'
      raise TypeError('takes exactly %d argument%s (%d given)' % (len(keys),suffix,len(params)))
    
    # verify all properties and convert to immutable types.
    for (key, vt) in self.properties:
      value = vt.validate(params[key])
      if value is None:
        raise ParameterError(key,params[key])
      params[key] = value
    
    self._properties = params
  
  def binary(self):
    return b''.join(vt.binary(self._properties[key]) for (key,vt) in self.properties)
""", """    params = self._collect(args, kw)
    # verify all properties and convert to immutable types.
    checked = {}
    for (key, vt) in self.properties:
      value = vt.validate(params[key])
      if value is None:
        raise ParameterError(key,params[key])
      checked[key] = value
    self._properties = checked
  
  @classmethod
  def _collect(cls, args, kw):
    '''Merges positional and keyword arguments.'''
    names = [name for name, _ in cls.properties]
    params = dict(zip(names, args))
    for name, value in kw.items():
      if name in params:
        raise TypeError('got multiple values for keyword argument %r' % name)
      if name not in names:
        raise TypeError('got an unexpected keyword argument %r' % name)
    for name, value in kw.items():
      params[name] = value
    if len(params) != len(set(names)):
      raise TypeError('takes exactly %d argument(s) (%d given)' % (len(names), len(params)))
    return params
  
  def binary(self):
    out = b''
    for (key, vt) in self.properties:
      out += vt.binary(self._properties[key])
    return out
"""), (F, """    kw = dict()
    offset = 0
    for (key, vt) in cls.properties:
      try:
        (length,kw[key]) = vt.parse(data[offset:])
        offset += length
      except Exception as e:
        raise ParameterError(key,data[offset:],vt)
    
    # create without __init__ (would unnecessarily verify the parameters)
    self = cls.__new__(cls)
    self._properties = kw
    return (offset,self)
""", """    # create without __init__ (would unnecessarily verify the parameters)
    self = cls.__new__(cls)
    self._properties = {}
    rest = data
    for (key, vt) in cls.properties:
      try:
        length, value = vt.parse(rest)
      except Exception:
        raise ParameterError(key, rest, vt)
      self._properties[key] = value
      rest = rest[length:]
    return (len(data) - len(rest), self)
""")]) if False else
(0, P, [(F, """  (off, count) = FtVarInteger.parse(data)
  ret = []; index = 0
  while index < count:
    (itemLen,itemObj) = kind.parse(data[off:])
    ret.append(itemObj)
    index += 1
    off += itemLen
  return (off,ret)
""", """  (offset, count) = FtVarInteger.parse(data)
  items = []
  for _ in range(count):
    consumed, item = kind.parse(data[offset:])
    offset = offset + consumed
    items.append(item)
  return (offset, items)
"""), (F, """    keys = [k for (k, t) in self.properties] # self.properties defines all args and kw
    
    # convert the positional arguments into kw
    params = dict(zip(keys,args))
    for k in kw:
      if k in params:    # can not redefine
        raise TypeError('got multiple values for keyword argument %r' % k)
    keys = set(keys)
    for k in kw:
      if k not in keys:  # unknown keywords
        raise TypeError('got an unexpected keyword argument %r' % k)
    
    params.update(kw)    # add keyword arguments
    
    if len(params) != len(keys):  # check number of properties
      suffix = '' if len(keys) <= 1 else 's'
      raise TypeError('takes exactly %d argument%s (%d given)' % (len(keys),suffix,len(params)))
    
    # verify all properties and convert to immutable types.
    for (key, vt) in self.properties:
      value = vt.validate(params[key])
      if value is None:
        raise ParameterError(key,params[key])
      params[key] = value
    
    self._properties = params
  
  def binary(self):
    return b''.join(vt.binary(self._properties[key]) for (key,vt) in self.properties)
""", """    params = self._collect(args, kw)
    # verify all properties and convert to immutable types.
    checked = {}
    for (key, vt) in self.properties:
      value = vt.validate(params[key])
      if value is None:
        raise ParameterError(key,params[key])
      checked[key] = value
    self._properties = checked
  
  @classmethod
  def _collect(cls, args, kw):
    '''Merges positional and keyword arguments.'''
    names = [name for name, _ in cls.properties]
    params = dict(zip(names, args))
    for name, value in kw.items():
      if name in params:
        raise TypeError('got multiple values for keyword argument %r' % name)
      if name not in names:
        raise TypeError('got an unexpected keyword argument %r' % name)
    for name, value in kw.items():
      params[name] = value
    if len(params) != len(set(names)):
      raise TypeError('takes exactly %d argument(s) (%d given)' % (len(names), len(params)))
    return params
  
  def binary(self):
    out = b''
    for (key, vt) in self.properties:
      out += vt.binary(self._properties[key])
    return out
""")]),
(0, P, [(F, """    for (key, vt) in cls.properties:
      try:
        (length,kw[key]) = vt.parse(data[offset:])
        offset += length
      except Exception as e:
        raise ParameterError(key,data[offset:],vt)
    
    # create without __init__ (would unnecessarily verify the parameters)
    self = cls.__new__(cls)
    self._properties = kw
    return (offset,self)
""", """    for (key, vt) in cls.properties:
      length, kw[key] = cls._parse_field(key, vt, data[offset:])
      offset += length
    
    # create without __init__ (would unnecessarily verify the parameters)
    self = cls.__new__(cls)
    self._properties = kw
    return (offset,self)
  
  @staticmethod
  def _parse_field(key, vt, rest):
    try:
      (length, value) = vt.parse(rest)
    except Exception:
      raise ParameterError(key, rest, vt)
    return length, value
"""), (F, """      value = self._child.validate(obj)
      if value is not None:
        return value
    except Exception as e:
      print(e)
    return self._default
""", """      value = self._child.validate(obj)
    except Exception as e:
      print(e)
      value = None
    return self._default if value is None else value
"""), (F, """    try:
      return self._child.parse(data)
    except Exception as e:
      pass
    return (0,self._default)
""", """    try:
      result = self._child.parse(data)
    except Exception:
      result = (0, self._default)
    return result
"""), (F, """    # check type
    if not (self._allow_float and isinstance(obj,float)):
      if self._format[1] in 'qQ':
        if not isinstance(obj,integer_types):
          return None
      elif not isinstance(obj,int):
        return None
    
    # check valid range
    (minValue, maxValue) = self._ranges[self._format[1]]
    if minValue <= obj < maxValue:
      return obj
    return None
""", """    code = self._format[1]
    kinds = integer_types if code in ('q', 'Q') else (int,)
    is_float = self._allow_float and isinstance(obj, float)
    if not is_float and not isinstance(obj, kinds):
      return None
    (low, high) = self._ranges[code]
    return obj if low <= obj and obj < high else None
"""), (F, """    length = dict(b=1,h=2,i=4,q=8)[self._format.lower()[-1]]
    return (length,struct.unpack(self._format,data[:length])[0])
""", """    size = struct.calcsize(self._format)
    (value,) = struct.unpack(self._format, data[:size])
    return (size, value)
"""), (F, """    if obj < 0xfd:
      return struct.pack('<B',obj)
    elif obj <= 0xffff:
      return b'\\xfd' + struct.pack('<H',obj)
    elif obj <= 0xffffffff:
      return b'\\xfe' + struct.pack('<I',obj)
    return b'\\xff' + struct.pack('<Q',obj)
""", """    if obj > 0xffffffff:
      return struct.pack('<BQ', 0xff, obj)
    if obj > 0xffff:
      return struct.pack('<BI', 0xfe, obj)
    if obj >= 0xfd:
      return struct.pack('<BH', 0xfd, obj)
    return struct.pack('<B', obj)
"""), (F, """    value = ORD(data[0])
    if value == 0xfd:
      return (3,struct.unpack('<H', data[1:3])[0])
    elif value == 0xfe:
      return (5,struct.unpack('<I', data[1:5])[0])
    elif value == 0xff:
      return (9,struct.unpack('<Q', data[1:9])[0])
    return (1,value)
""", """    first = ORD(data[0])
    if first < 0xfd:
      return (1, first)
    fmt, size = {0xfd: ('<H', 2), 0xfe: ('<I', 4), 0xff: ('<Q', 8)}[first]
    return (1 + size, struct.unpack(fmt, data[1:1 + size])[0])
""")]),
(0, P, [(F, """    # convert each group to its value
    try:
      groups = [int(i) for i in obj.split('.')]
    except ValueError as e:
      return None
    
    if len(groups) != 4:
      return None
    for group in groups:
      if not (0x00 <= group <= 0xff):
        return None
    
    return groups
""", """    parts = obj.split('.')
    if len(parts) != 4:
      return None
    groups = []
    for part in parts:
      try:
        value = int(part)
      except ValueError:
        return None
      if value < 0 or value > 255:
        return None
      groups.append(value)
    return groups
"""), (F, """    # is each group in the correct range?
    for group in groups:
      if not (0x0000 <= group <= 0xffff):
        return None
    
    return groups
""", "    return groups if all(0 <= g < 0x10000 for g in groups) else None\n"),
 (F, """    if not isinstance(obj, str):
      return None
    if FtIPAddress._ipv4_groups(obj) is not None:
      return obj
    if FtIPAddress._ipv6_groups(obj) is not None:
      return obj
    return None
""", """    if isinstance(obj, str):
      for reader in (FtIPAddress._ipv4_groups, FtIPAddress._ipv6_groups):
        if reader(obj) is not None:
          return obj
    return None
"""), (F, """    groups = self._ipv4_groups(obj)
    if groups is not None:
      return _IP_HEAD_STR + struct.pack('>BBBB',*groups)
    
    groups = self._ipv6_groups(obj)
    if groups is not None:
      return struct.pack('>HHHHHHHH',*groups)
    
    raise ValueError('invalid ip address')
""", """    v4 = self._ipv4_groups(obj)
    if v4 is None:
      v6 = self._ipv6_groups(obj)
      if v6 is None:
        raise ValueError('invalid ip address')
      return b''.join(struct.pack('>H', group) for group in v6)
    return _IP_HEAD_STR + bytes(bytearray(v4))
"""), (F, """    if data.startswith(_ZERO_STR10) and data[10:12] == (b'\\xff\\xff'): # ipv4
      return (16, '.'.join(str(i) for i in struct.unpack('>BBBB', data[12:16])))
    return (16, ':'.join(('%x' % i) for i in struct.unpack('>HHHHHHHH', data[:16])))
""", """    if data[:12] == _IP_HEAD_STR: # ipv4
      text = '%d.%d.%d.%d' % struct.unpack('>4B', data[12:16])
    else:
      text = ':'.join(format(i, 'x') for i in struct.unpack('>8H', data[:16]))
    return (16, text)
"""), (F, """    if type(obj) == bytes:
      pass
    else: obj = obj.encode('latin-1') # for python3
    return FtVarInteger.binary(len(obj)) + obj
""", """    raw = obj if isinstance(obj, bytes) else obj.encode('latin-1')
    return FtVarInteger.binary(len(raw)) + raw
"""), (F, """    if type(data) == bytes:  # bytes == str in python2
      pass
    else: data = data.encode('latin-1') # for python3
    (vl,length) = FtVarInteger.parse(data)
    obj = data[vl:vl+length]
    if len(obj) != length:
      raise ValueError('data truncated')
    return (vl + length, obj)
""", """    if not isinstance(data, bytes):
      data = data.encode('latin-1')
    (start, length) = FtVarInteger.parse(data)
    end = start + length
    if end > len(data):
      raise ValueError('data truncated')
    return (end, data[start:end])
"""), (F, """    if not isinstance(obj,(list, tuple)):
      return None
    if self._min_length and len(obj) < self._min_length:
      return None
    if self._max_length and len(obj) > self._max_length:
      return None
    
    obj = [self._child_type.validate(o) for o in obj]
    if None in obj:
      return None
    return tuple(obj)
""", """    if not isinstance(obj, (list, tuple)) or not self._fits(len(obj)):
      return None
    out = []
    for item in obj:
      item = self._child_type.validate(item)
      if item is None:
        return None
      out.append(item)
    return tuple(out)
  
  def _fits(self, count):
    if self._min_length and count < self._min_length:
      return False
    return not self._max_length or count <= self._max_length
"""), (F, """    if self._min_length and count < self._min_length:
      raise ValueError('array too short')
    if self._max_length and count > self._max_length:
      raise ValueError('array too long')
    return parse_var_set(data, self._child_type)
""", """    if not self._fits(count):
      raise ValueError('array has a wrong length')
    return parse_var_set(data, self._child_type)
"""), (F, """    (vl,obj) = FtNetworkAddress.parse(b'\\x00\\x00\\x00\\x00' + data) # timestamp will be 0
    return (vl - 4, obj)
""", """    padded = b'\\0' * 4 + data # timestamp will be 0
    used, obj = FtNetworkAddress.parse(padded)
    return (used - 4, obj)
""")]),
(0, P, [(M, """    payload = format.CompoundType.binary(self)
    checksum = hashlib.sha256(hashlib.sha256(payload).digest()).digest()[:4]
    command = self.command.encode('latin-1')
    command = command + (b'\\x00' * (12 - len(command)))  # pad to 12 bytes
    return magic + command + struct.pack('<I',len(payload)) + checksum + payload
""", """    payload = super(Message, self).binary()
    command = self.command.encode('latin-1').ljust(12, b'\\x00')
    header = magic + command + struct.pack('<I', len(payload)) + _checksum(payload)
    return header + payload
"""), (M, "class UnknownMsgError(Exception): pass", """def _checksum(payload):
  return hashlib.sha256(hashlib.sha256(payload).digest()).digest()[:4]

class UnknownMsgError(Exception): pass"""), (M, """    if data[0:4] != magic:  # check magic
      raise MsgFormatError('bad magic number')
    
    if len(data) < 24:
      raise MsgFormatError('truncated header')
    
    # get binary payload
    (length, ) = struct.unpack('<I', data[16:20])
    payload = data[24:24 + length]
    if len(payload) != length:
      raise MsgFormatError('truncated payload')
    
    # check the checksum
    checksum = hashlib.sha256(hashlib.sha256(payload).digest()).digest()[:4]
    if data[20:24] != checksum:
      raise MsgFormatError('bad checksum')
    
    # get the correct class for this message's command
    command = data[4:16].strip(b'\\x00').decode('latin-1')
    msg_type = cls.MessageTypes.get(command)
    if msg_type is None:
      raise UnknownMsgError('command: %r (%r)' % (command, data))
    
    # parse the properties using the correct class's parse
    (vl, message) = super(Message,msg_type).parse(payload)
    message._magic = magic
    return message
""", """    command, payload = cls._open(data, magic)
    try:
      msg_type = cls.MessageTypes[command]
    except KeyError:
      raise UnknownMsgError('command: %r (%r)' % (command, data))
    
    # parse the properties using the correct class's parse
    message = super(Message,msg_type).parse(payload)[1]
    message._magic = magic
    return message
  
  @staticmethod
  def _open(data, magic):
    if not data.startswith(magic):  # check magic
      raise MsgFormatError('bad magic number')
    if len(data) < 24:
      raise MsgFormatError('truncated header')
    name, length, check = struct.unpack('<12sI4s', data[4:24])
    payload = data[24:24 + length]
    if len(payload) < length:
      raise MsgFormatError('truncated payload')
    if _checksum(payload) != check:
      raise MsgFormatError('bad checksum')
    return name.strip(b'\\x00').decode('latin-1'), payload
"""), (M, """    if len(data) < 20:  # not enough to determine payload size yet
      return None
    return struct.unpack('<I', data[16:20])[0] + 24
""", """    if len(data) >= 20:
      (size,) = struct.unpack_from('<I', data, 16)
      return 24 + size
    return None
""")]),
]
