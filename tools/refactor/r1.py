NODE = 'C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C30 C38 C40 C41'
F = 'nbc/node/connection.py'; B = 'nbc/node/basenode.py'
EDITS = [
# handle_read split into helpers, loop rewritten as a generator
(0, NODE, [(F, """    try:
      chunk = self.recv(BLOCK_SIZE)
    except Exception as e:
      chunk = ''
    
    if not chunk:  # remote connection closed
      self.handle_close()
      return
    
    self._recv_buffer += chunk
    self._rx_bytes += len(chunk)
    self.node._rx_bytes += len(chunk)
    self._last_rx_time = time.time()
    
    # process as many messages
    while True:
      length = protocol.Message.first_msg_len(self._recv_buffer)
      if length is None or length > len(self._recv_buffer):
        break  # not enough bytes for next message
      
      # parse the message and handle it
      payload = self._recv_buffer[:length]
      self._recv_buffer = self._recv_buffer[length:]  # remove one message
      try:
        message = protocol.Message.parse(payload,self.node.coin.magic)
        self.handle_message(message)
      except protocol.UnknownMsgError as e:
        self.node.invalid_command(self,payload,e)
      except protocol.MsgFormatError as e:
        self.node.invalid_command(self,payload,e)
      except Exception as e:  # just print error, avoid stopping
        self.node.log(traceback.format_exc(),peer=self,level=self.node.LOG_LEVEL_ERROR)
""", """    chunk = self._read_chunk()
    if not chunk:  # remote connection closed
      self.handle_close()
      return
    self._account_rx(len(chunk))
    self._recv_buffer = self._recv_buffer + chunk
    for payload in self._frames():
      self._handle_frame(payload)
  
  def _read_chunk(self):
    try:
      return self.recv(BLOCK_SIZE)
    except Exception:
      return b''
  
  def _account_rx(self, count):
    self._rx_bytes += count
    self.node._rx_bytes += count
    self._last_rx_time = time.time()
  
  def _frames(self):
    length = protocol.Message.first_msg_len(self._recv_buffer)
    while length is not None and length <= len(self._recv_buffer):
      payload, self._recv_buffer = self._recv_buffer[:length], self._recv_buffer[length:]
      yield payload
      length = protocol.Message.first_msg_len(self._recv_buffer)
  
  def _handle_frame(self, payload):
    node = self.node
    try:
      self.handle_message(protocol.Message.parse(payload, node.coin.magic))
    except (protocol.UnknownMsgError, protocol.MsgFormatError) as err:
      node.invalid_command(self, payload, err)
    except Exception:
      node.log(traceback.format_exc(), peer=self, level=node.LOG_LEVEL_ERROR)
""")]),
# handle_write with else, reordered
(0, NODE, [(F, """    try:
      sent = self.send(self._send_buffer)
      self._tx_bytes += sent
      self.node._tx_bytes += sent
      self._last_tx_time = time.time()
    except Exception as e:
      self.handle_close()
      return
    self._send_buffer = self._send_buffer[sent:]
""", """    pending = self._send_buffer
    try:
      sent = self.send(pending)
    except Exception:
      self.handle_close()
    else:
      self._send_buffer = pending[sent:]
      self._last_tx_time = time.time()
      self._tx_bytes = self._tx_bytes + sent
      self.node._tx_bytes = self.node._tx_bytes + sent
"""), (F, "    return len(self._send_buffer) > 0\n", "    return bool(self._send_buffer)\n"),
 (F, """    i = self._banscore - penalty
    self._banscore = 0 if i < 0 else i
""", "    self._banscore = max(self._banscore - penalty, 0)\n"),
 (F, """    now = time.time()
    rx_ago = now - self._last_rx_time
    tx_ago = now - self._last_tx_time
    ping_ago = now - self._last_ping_time
    
    # haven't sent anything for 30 minutes, send a ping every 5 minutes
    if self._last_tx_time and tx_ago > _SECONDS_OF_30M and ping_ago > _SECONDS_OF_5M:
      self.send_message(protocol.Ping(os.urandom(8)))
      self._last_ping_time = time.time()
    
    # it's been over 3 hours, just disconnect
    if self._last_rx_time and rx_ago > _SECONDS_OF_180M:
      self.handle_close()
      return False
    return True
""", """    now = time.time()
    if self._needs_ping(now):
      self.send_message(protocol.Ping(nonce=os.urandom(8)))
      self._last_ping_time = time.time()
    
    silent = self._last_rx_time != 0 and now - self._last_rx_time > _SECONDS_OF_180M
    if silent:
      self.handle_close()
    return not silent
  
  def _needs_ping(self, now):
    if not self._last_tx_time:
      return False
    if now - self._last_tx_time <= _SECONDS_OF_30M:
      return False
    return now - self._last_ping_time > _SECONDS_OF_5M
""")]),
# logging helper shared, dispatch as early return
(0, NODE, [(F, """    logLevel = self.node.log_level
    if logLevel <= self.node.LOG_LEVEL_PROTOCOL:
      self.node.log('<<< ' + str(message), peer=self, level=logLevel)
    elif logLevel <= self.node.LOG_LEVEL_DEBUG:
      self.node.log('<<< ' + message._debug(), peer=self, level=logLevel)
    
    kwargs = dict((k,getattr(message,k)) for (k,t) in message.properties)
    if message.command == protocol.Version.command:
      self._services = message.services
      self._start_height = message.start_height
      self._user_agent = message.user_agent
      self._version = message.version
      self._relay = message.relay
      self._external_ip = message.addr_recv.address
      
      self.node.connected(self)
    elif message.command == protocol.VersionAck.command:
      self._verack = True
    
    if message:
      method = getattr(self.node,'command_'+message.name,None)
      if method:
        method(self,**kwargs)
      else:
        self.node.log('error: method not defined: command_%s' % message.name, peer=self, level=self.node.log_level)
""", """    self._log_message('<<< ', message)
    
    kwargs = {}
    for (key, _) in message.properties:
      kwargs[key] = getattr(message, key)
    
    if isinstance(message, protocol.Version):
      self._remember_version(message)
      self.node.connected(self)
    elif message.command == protocol.VersionAck.command:
      self._verack = True
    
    name = 'command_%s' % message.name
    method = getattr(self.node, name, None)
    if method is None:
      self.node.log('error: method not defined: ' + name, peer=self, level=self.node.log_level)
      return
    method(self, **kwargs)
  
  def _remember_version(self, message):
    self._external_ip = message.addr_recv.address
    for field in ('services', 'start_height', 'user_agent', 'version', 'relay'):
      setattr(self, '_' + field, getattr(message, field))
  
  def _log_message(self, prefix, message):
    node = self.node
    level = node.log_level
    if level <= node.LOG_LEVEL_PROTOCOL:
      text = str(message)
    elif level <= node.LOG_LEVEL_DEBUG:
      text = message._debug()
    else:
      return
    node.log(prefix + text, peer=self, level=level)
"""), (F, """    logLevel = self.node.log_level
    if logLevel <= self.node.LOG_LEVEL_PROTOCOL:
      self.node.log('>>> ' + str(message), peer=self, level=logLevel)
    elif logLevel <= self.node.LOG_LEVEL_DEBUG:
      self.node.log('>>> ' + message._debug(), peer=self, level=logLevel)
    
    self._send_buffer += message.binary(self.node.coin.magic)
""", """    self._log_message('>>> ', message)
    self._send_buffer = b''.join((self._send_buffer, message.binary(self.node.coin.magic)))
""")]),
# constructor
(0, NODE, [(F, """    if sock:  # sock come from listen-accept
      asyncore.dispatcher.__init__(self,sock=sock,map=node) # map: a dictionary whose items are the channels to watch
      self._incoming = True
    else:     # we using an address to connect to
      asyncore.dispatcher.__init__(self,map=node)
      
      try:
        self.create_socket(socket.AF_INET, socket.SOCK_STREAM)
        self.connect(address)
      except Exception as e:
        self.handle_close()
        raise e
      self._incoming = False
    
    # bootstrap communication with the node by broadcasting ver
    try:
      now = time.time()
      message = protocol.Version( version = node.coin.protocol_version,
                  services = self.SERVICES,
                  timestamp = now,
                  addr_recv = protocol.NetworkAddress(now,self.SERVICES,address[0],address[1]),
                  addr_from = protocol.NetworkAddress(now,self.SERVICES,node.external_ip,node.port),
                  nonce = os.urandom(8),
                  user_agent = node.user_agent,
                  start_height = node.blockchain_height,
                  relay = False )
      self.send_message(message)
    except Exception as e:
      self.handle_close()
      raise e
""", """    self._incoming = bool(sock)
    super().__init__(sock=sock or None, map=node)
    try:
      if not self._incoming:
        self.create_socket(socket.AF_INET, socket.SOCK_STREAM)
        self.connect(address)
      self._greet(node, address)
    except Exception:
      self.handle_close()
      raise
  
  def _greet(self, node, address):
    # bootstrap communication with the node by broadcasting ver
    now = time.time()
    ip, port = address
    recv = protocol.NetworkAddress(now, self.SERVICES, ip, port)
    sender = protocol.NetworkAddress(now, self.SERVICES, node.external_ip, node.port)
    self.send_message(protocol.Version(node.coin.protocol_version, self.SERVICES, now, recv, sender,
                                       os.urandom(8), node.user_agent, node.blockchain_height, False))
""")]),
# basenode: punish, majority, seeking
(0, NODE, [(B, """    peer.add_banscore()
    if peer.banscore > 5:
      self._banned[peer.ip] = time.time()
      peer.handle_close()
""", """    peer.add_banscore(1)
    if not peer.banscore > 5:
      return
    self._ban(peer.ip)
    peer.handle_close()
  
  def _ban(self, ip):
    self._banned[ip] = time.time()
"""), (B, """    counter = dict()
    peers = self.peers
    for peer in peers:
      address = peer.external_ip
      if address is None: continue
      if address not in counter: counter[address] = 0
      counter[address] += 1
    if counter:
      counter = [(counter[a],a) for a in counter]
      counter.sort()
      self._guessed_external_ip = counter[-1][1]
""", """    votes = {}
    for peer in self.peers:
      ip = peer.external_ip
      if ip is not None:
        votes[ip] = votes.get(ip, 0) + 1
    if not votes:
      return
    self._guessed_external_ip = max((count, ip) for ip, count in votes.items())[1]
"""), (B, """      peers = self.peers
      actives = [n.address for n in peers]
      for address in self._addresses:
        if address in actives: continue  # ignore already connected one
        self.add_peer(address)           # try add one peer
        break
""", """      actives = set(n.address for n in self.peers)
      candidate = next((a for a in self._addresses if a not in actives), None)
      if candidate is not None:
        self.add_peer(candidate)
"""), (B, """    for i in range(0,min(self._seek_peers-len(peers),5)): # max 5 at a time
      self.add_any_peer()
""", """    missing = min(self._seek_peers - len(peers), 5)
    while missing > 0:
      missing -= 1
      self.add_any_peer()
"""), (B, """    if not force and len(self._peers) >= self._max_peers:
      return False  # too much peers
    if address in [n.address for n in self.values()]:
      return False  # already exists this peer
    
    try:            # asyncore keeps a reference in the map
      connection.Connection(address=address,node=self)
    except Exception as e:
      print('meet error: %s' % e)
      return False  # will remove self._addresses[address] in self.disconnected()
    return True
""", """    full = len(self) >= self._max_peers
    if full and not force:
      return False  # too much peers
    if any(n.address == address for n in self.values()):
      return False  # already exists this peer
    
    try:            # asyncore keeps a reference in the map
      connection.Connection(self, address)
    except Exception as e:
      print('meet error: ' + str(e))
      return False  # will remove self._addresses[address] in self.disconnected()
    else:
      return True
"""), (B, """    peers = self.peers
    for peer in peers:
      if peer.address == address:
        peer.handle_close()
        break
""", """    found = [peer for peer in self.peers if peer.address == address]
    if found:
      found[0].handle_close()
"""), (B, """    if peer.address in self._addresses:
      del self._addresses[peer.address]
""", "    self._addresses.pop(peer.address, None)\n")]),
# basenode: accept, replies, address book, serving
(0, NODE, [(B, """    pair = self.accept()
    if not pair: return
    
    (sock,address) = pair
    print('Incoming connection from %s' % repr(address))
    
    if address[0] in self._banned:
      if time.time() - self._banned[address[0]] < 3600:
        sock.close()            # banned it within one hour
        return
      del self._banned[address[0]] # else, ignore early banned list
    
    if not self._listen: # if not accepting incoming, drop it
      sock.close()
      return
    
    connection.Connection(node=self,sock=sock,address=address) # asyncore will keep a reference in map for us
""", """    pair = self.accept()
    if pair is None:
      return
    sock, address = pair
    print('Incoming connection from {!r}'.format(address))
    if self._is_banned(address[0]) or not self._listen:
      sock.close()
    else:
      connection.Connection(self, address, sock)
  
  def _is_banned(self, ip):
    since = self._banned.get(ip)
    if since is None:
      return False
    if time.time() - since >= 3600:
      del self._banned[ip]
      return False
    return True
"""), (B, """    def lastSeen(address):
      return self._addresses[address][0]
    
    addresses = []
    for address in sorted(self._addresses,key=lastSeen,reverse=True):  # add the most recent peers
      (timestamp, services) = self._addresses[address]
      if services is None: continue
      
      (ip, port) = address
      addresses.append(protocol.NetworkAddress(timestamp,services,ip,port))
      if len(addresses) >= ADDRESSES_PER_ASK: break
    
    peer.send_message(protocol.Address(addresses)) # send our address list to peer
""", """    recent = sorted(self._addresses.items(), key=lambda item: item[1][0], reverse=True)
    addresses = [protocol.NetworkAddress(timestamp, services, ip, port)
                 for ((ip, port), (timestamp, services)) in recent if services is not None]
    peer.send_message(protocol.Address(addresses[:ADDRESSES_PER_ASK])) # send our address list to peer
"""), (B, """    for address in addr_list:
      if len(self._addresses) >= MAX_ADDRESSES: return
      self._addresses[(address.address,address.port)] = (address.timestamp,address.services)
""", """    book = self._addresses
    for item in addr_list:
      if len(book) < MAX_ADDRESSES:
        book[(item.address, item.port)] = (item.timestamp, item.services)
      else:
        break
"""), (B, """    if self._listen:
      self._upnp = add_portmap(self.port,'TCP','Newbitcoin Peer manager')
    
    try:
      asyncore.loop(5,map=self)
    except StopNode as e:
      pass
    finally:
      self.handle_close()
      
      if self._listen:
        remove_portmap(self.port,'TCP')
""", """    if self._listen:
      self._upnp = add_portmap(self.port, 'TCP', 'Newbitcoin Peer manager')
    try:
      self._loop()
    finally:
      self.handle_close()
      if self._listen:
        remove_portmap(self.port, 'TCP')
  
  def _loop(self):
    try:
      asyncore.loop(timeout=5, map=self)
    except StopNode:
      return
"""), (B, """    now = time.time()
    if now - self._last_heartbeat > 10: # more than 10 seconds since last heartbeat
      self._last_heartbeat = now;
      self.heartbeat()
    
    return self._peers.items()
""", """    self._beat(time.time())
    return self._peers.items()
  
  def _beat(self, now):
    if now - self._last_heartbeat <= 10:
      return
    self._last_heartbeat = now
    self.heartbeat()
"""), (B, """    if self._external_ip:
      return self._external_ip
    return self._guessed_external_ip
""", "    return self._external_ip or self._guessed_external_ip\n")]),
]
