P = 'C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C30 C38 C40 C41 C42'
C = 'nbc/node/connection.py'; B = 'nbc/node/basenode.py'
EDITS = [
(0, P, [(C, """    while True:
      length = protocol.Message.first_msg_len(self._recv_buffer)
      if length is None or length > len(self._recv_buffer):
        break  # not enough bytes for next message
      
      # parse the message and handle it
      payload = self._recv_buffer[:length]
      self._recv_buffer = self._recv_buffer[length:]  # remove one message
      try:
        message = protocol.Message.parse(payload,self.node.coin.magic)
        self.handle_message(message)
      except protocol.UnknownMsgError as e:
        self.node.invalid_command(self,payload,e)
      except protocol.MsgFormatError as e:
        self.node.invalid_command(self,payload,e)
      except Exception as e:  # just print error, avoid stopping
        self.node.log(traceback.format_exc(),peer=self,level=self.node.LOG_LEVEL_ERROR)
""", """    payload = self._next_frame()
    while payload is not None:
      self._process(payload)
      payload = self._next_frame()
  
  def _next_frame(self):
    'Takes one complete frame off the receive buffer, None when there is none yet.'
    buffered = self._recv_buffer
    length = protocol.Message.first_msg_len(buffered)
    if length is None or len(buffered) < length:
      return None
    self._recv_buffer = buffered[length:]
    return buffered[:length]
  
  def _process(self, payload):
    node = self.node
    try:
      self.handle_message(protocol.Message.parse(payload,node.coin.magic))
    except (protocol.UnknownMsgError, protocol.MsgFormatError) as e:
      node.invalid_command(self,payload,e)
    except Exception:  # just print error, avoid stopping
      node.log(traceback.format_exc(),peer=self,level=node.LOG_LEVEL_ERROR)
"""), (C, """    try:
      chunk = self.recv(BLOCK_SIZE)
    except Exception as e:
      chunk = ''
    
    if not chunk:  # remote connection closed
      self.handle_close()
      return
    
    self._recv_buffer += chunk
    self._rx_bytes += len(chunk)
    self.node._rx_bytes += len(chunk)
    self._last_rx_time = time.time()
""", """    try:
      chunk = self.recv(BLOCK_SIZE)
    except Exception:
      chunk = None
    
    if not chunk:  # remote connection closed
      return self.handle_close()
    
    size = len(chunk)
    self._last_rx_time = time.time()
    self._rx_bytes += size
    self.node._rx_bytes += size
    self._recv_buffer = self._recv_buffer + chunk
""")]),
(0, P, [(C, """    kwargs = dict((k,getattr(message,k)) for (k,t) in message.properties)
    if message.command == protocol.Version.command:
      self._services = message.services
      self._start_height = message.start_height
      self._user_agent = message.user_agent
      self._version = message.version
      self._relay = message.relay
      self._external_ip = message.addr_recv.address
      
      self.node.connected(self)
    elif message.command == protocol.VersionAck.command:
      self._verack = True
    
    if message:
      method = getattr(self.node,'command_'+message.name,None)
      if method:
        method(self,**kwargs)
      else:
        self.node.log('error: method not defined: command_%s' % message.name, peer=self, level=self.node.log_level)
""", """    node = self.node
    kwargs = {}
    for (k,_) in message.properties:
      kwargs[k] = getattr(message,k)
    
    if message.command == protocol.VersionAck.command:
      self._verack = True
    elif message.command == protocol.Version.command:
      for field in ('services','start_height','user_agent','version','relay'):
        setattr(self,'_' + field,kwargs[field])
      self._external_ip = message.addr_recv.address
      node.connected(self)
    
    name = 'command_%s' % message.name
    method = getattr(node,name,None)
    if not method:
      node.log('error: method not defined: %s' % name, peer=self, level=node.log_level)
      return
    method(self,**kwargs)
""")]),
(0, P, [(C, """    # haven't sent anything for 30 minutes, send a ping every 5 minutes
    if self._last_tx_time and tx_ago > _SECONDS_OF_30M and ping_ago > _SECONDS_OF_5M:
      self.send_message(protocol.Ping(os.urandom(8)))
      self._last_ping_time = time.time()
    
    # it's been over 3 hours, just disconnect
    if self._last_rx_time and rx_ago > _SECONDS_OF_180M:
      self.handle_close()
      return False
    return True
""", """    idle = self._last_tx_time != 0 and tx_ago > _SECONDS_OF_30M
    if idle and ping_ago > _SECONDS_OF_5M:
      self._ping()
    
    silent = self._last_rx_time != 0 and rx_ago > _SECONDS_OF_180M
    if silent:
      self.handle_close()
    return not silent
  
  def _ping(self):
    nonce = os.urandom(8)
    self.send_message(protocol.Ping(nonce))
    self._last_ping_time = time.time()
"""), (C, """    i = self._banscore - penalty
    self._banscore = 0 if i < 0 else i
""", """    self._banscore = max(0, self._banscore - penalty)
""")]),
(0, P, [(C, """    try:
      sent = self.send(self._send_buffer)
      self._tx_bytes += sent
      self.node._tx_bytes += sent
      self._last_tx_time = time.time()
    except Exception as e:
      self.handle_close()
      return
    self._send_buffer = self._send_buffer[sent:]
""", """    try:
      sent = self.send(self._send_buffer)
    except Exception:
      self.handle_close()
    else:
      self._sent(sent)
  
  def _sent(self, count):
    self._send_buffer = self._send_buffer[count:]
    self._tx_bytes += count
    self.node._tx_bytes += count
    self._last_tx_time = time.time()
"""), (C, """    t,v,tb = sys.exc_info()
    if t == socket.error:
      self.node.log('--- connection refused',peer=self,level=self.node.LOG_LEVEL_INFO)
    else:
      self.node.log(traceback.format_exc(),peer=self,level=self.node.LOG_LEVEL_ERROR)
    del tb
    self.handle_close()
""", """    node = self.node
    kind = sys.exc_info()[0]
    if kind == socket.error:
      text, level = '--- connection refused', node.LOG_LEVEL_INFO
    else:
      text, level = traceback.format_exc(), node.LOG_LEVEL_ERROR
    node.log(text,peer=self,level=level)
    self.handle_close()
""")]),
(0, P, [(B, """    counter = dict()
    peers = self.peers
    for peer in peers:
      address = peer.external_ip
      if address is None: continue
      if address not in counter: counter[address] = 0
      counter[address] += 1
    if counter:
      counter = [(counter[a],a) for a in counter]
      counter.sort()
      self._guessed_external_ip = counter[-1][1]
""", """    votes = {}
    for peer in self.peers:
      told = peer.external_ip
      if told is not None:
        votes[told] = votes.get(told,0) + 1
    if not votes: return
    
    (_, winner) = max((count,told) for (told,count) in votes.items())
    self._guessed_external_ip = winner
"""), (B, """    def lastSeen(address):
      return self._addresses[address][0]
    
    addresses = []
    for address in sorted(self._addresses,key=lastSeen,reverse=True):  # add the most recent peers
      (timestamp, services) = self._addresses[address]
      if services is None: continue
      
      (ip, port) = address
      addresses.append(protocol.NetworkAddress(timestamp,services,ip,port))
      if len(addresses) >= ADDRESSES_PER_ASK: break
    
    peer.send_message(protocol.Address(addresses)) # send our address list to peer
""", """    recent = sorted(self._addresses,key=lambda a: self._addresses[a][0],reverse=True)
    known = [a for a in recent if self._addresses[a][1] is not None][:ADDRESSES_PER_ASK]
    peer.send_message(protocol.Address([self._entry(a) for a in known]))
  
  def _entry(self, address):
    (timestamp, services) = self._addresses[address]
    return protocol.NetworkAddress(timestamp,services,address[0],address[1])
"""), (B, """    for address in addr_list:
      if len(self._addresses) >= MAX_ADDRESSES: return
      self._addresses[(address.address,address.port)] = (address.timestamp,address.services)
""", """    book = self._addresses
    for item in addr_list:
      if len(book) >= MAX_ADDRESSES: break
      key = (item.address,item.port)
      book[key] = (item.timestamp,item.services)
""")]),
(0, P, [(B, """    if not self._addresses or random.randint(0,199) == 1: # if no address, or for sometimes (random 1/200) use dns seeds
      if self._bootstrap:  # at least has one item
        addr = self._bootstrap[random.randint(0,len(self._bootstrap)-1)]  # addr should be RAW node
        self.add_peer(addr,False)        # connection of RAW would be more using than normal
      # else, router node should not using self._bootstrap
    else:
      peers = self.peers
      actives = [n.address for n in peers]
      for address in self._addresses:
        if address in actives: continue  # ignore already connected one
        self.add_peer(address)           # try add one peer
        break
""", """    if not self._addresses or random.randint(0,199) == 1:
      if self._bootstrap:  # at least has one item
        self.add_peer(random.choice(self._bootstrap),False)
      return
    
    actives = set(n.address for n in self.peers)
    fresh = next((a for a in self._addresses if a not in actives),None)
    if fresh is not None:
      self.add_peer(fresh)
"""), (B, """    peers = self.peers
    
    # if need more peer connections, attempt to add some
    for i in range(0,min(self._seek_peers-len(peers),5)): # max 5 at a time
      self.add_any_peer()
    
    # if not many addresses, try ask more
    if peers and len(self._addresses) < 50:
      peer = random.choice(peers)
      peer.send_message(protocol.GetAddress())
    
    for peer in peers:    # give a little back to peers that went bad but seem be OK now
      peer.reduce_banscore()
""", """    peers = self.peers
    
    self._seek(self._seek_peers - len(peers))
    
    if len(self._addresses) < 50 and len(peers) > 0:
      random.choice(peers).send_message(protocol.GetAddress())
    
    for peer in peers:
      peer.reduce_banscore()
"""), (B, """  def heartbeat(self): """, """  def _seek(self, missing):
    if missing > 5: missing = 5
    while missing > 0:
      self.add_any_peer()
      missing -= 1
  
  def heartbeat(self): """)]),
(0, P, [(B, """    pair = self.accept()
    if not pair: return
    
    (sock,address) = pair
    print('Incoming connection from %s' % repr(address))
    
    if address[0] in self._banned:
      if time.time() - self._banned[address[0]] < 3600:
        sock.close()            # banned it within one hour
        return
      del self._banned[address[0]] # else, ignore early banned list
    
    if not self._listen: # if not accepting incoming, drop it
      sock.close()
      return
    
    connection.Connection(node=self,sock=sock,address=address) # asyncore will keep a reference in map for us
""", """    pair = self.accept()
    if pair:
      sock, address = pair
      print('Incoming connection from %r' % (address,))
      if self._is_banned(address[0]) or not self._listen:
        sock.close()
      else:
        connection.Connection(node=self,sock=sock,address=address)
  
  def _is_banned(self, ip):
    since = self._banned.get(ip)
    if since is None: return False
    if time.time() - since < 3600: return True
    self._banned.pop(ip)
    return False
"""), (B, """    if not force and len(self._peers) >= self._max_peers:
      return False  # too much peers
    if address in [n.address for n in self.values()]:
      return False  # already exists this peer
    
    try:            # asyncore keeps a reference in the map
      connection.Connection(address=address,node=self)
    except Exception as e:
      print('meet error: %s' % e)
      return False  # will remove self._addresses[address] in self.disconnected()
    return True
""", """    full = len(self._peers) >= self._max_peers
    if full and not force:
      return False  # too much peers
    for n in self.values():
      if n.address == address: return False
    
    try:            # asyncore keeps a reference in the map
      connection.Connection(self,address)
    except Exception as e:
      print('meet error: ' + str(e))
    else:
      return True
    return False
"""), (B, """    peers = self.peers
    for peer in peers:
      if peer.address == address:
        peer.handle_close()
        break
""", """    found = [p for p in self.peers if p.address == address]
    if found:
      found[0].handle_close()
"""), (B, """    if peer.address in self._addresses:
      del self._addresses[peer.address]
""", """    self._addresses.pop(peer.address, None)
""")]),
(0, P, [(B, """    if self._listen:
      self._upnp = add_portmap(self.port,'TCP','Newbitcoin Peer manager')
    
    try:
      asyncore.loop(5,map=self)
    except StopNode as e:
      pass
    finally:
      self.handle_close()
      
      if self._listen:
        remove_portmap(self.port,'TCP')
""", """    listening = self._listen
    if listening:
      self._upnp = add_portmap(self.port,'TCP','Newbitcoin Peer manager')
    
    try:
      self._run()
    finally:
      self.handle_close()
      if listening: remove_portmap(self.port,'TCP')
  
  def _run(self):
    try:
      asyncore.loop(timeout=5,map=self)
    except StopNode:
      return
"""), (B, """    if self._log is None or level < self._log_level: return
    
    if peer:
      source = peer.address[0]
    else: source = 'node'
    message = '(%s) %s' % (source, message)
    print_(message,file=self._log)
""", """    if self._log is not None and level >= self._log_level:
      source = peer.address[0] if peer else 'node'
      print_('({}) {}'.format(source,message),file=self._log)
"""), (B, """    self.begin_loop()
    
    now = time.time()
    if now - self._last_heartbeat > 10: # more than 10 seconds since last heartbeat
      self._last_heartbeat = now;
      self.heartbeat()
    
    return self._peers.items()
""", """    self.begin_loop()
    self._beat(time.time())
    return self._peers.items()
  
  def _beat(self, now):
    if now - self._last_heartbeat <= 10: return
    self._last_heartbeat = now
    self.heartbeat()
"""), (B, """    peer.add_banscore()
    if peer.banscore > 5:
      self._banned[peer.ip] = time.time()
      peer.handle_close()
""", """    peer.add_banscore(1)
    if peer.banscore <= 5: return
    self._banned[peer.ip] = time.time()
    peer.handle_close()
""")]),
]
