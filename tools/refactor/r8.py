P = 'C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C30 C38 C40 C41 C42'
C = 'nbc/node/connection.py'; B = 'nbc/node/basenode.py'
VOTE = """    counter = dict()
    peers = self.peers
    for peer in peers:
      address = peer.external_ip
      if address is None: continue
      if address not in counter: counter[address] = 0
      counter[address] += 1
    if counter:
      counter = [(counter[a],a) for a in counter]
      counter.sort()
      self._guessed_external_ip = counter[-1][1]
"""
ASK = """    addresses = []
    for address in sorted(self._addresses,key=lastSeen,reverse=True):  # add the most recent peers
      (timestamp, services) = self._addresses[address]
      if services is None: continue
      
      (ip, port) = address
      addresses.append(protocol.NetworkAddress(timestamp,services,ip,port))
      if len(addresses) >= ADDRESSES_PER_ASK: break
    
    peer.send_message(protocol.Address(addresses)) # send our address list to peer
"""
ANY = """      peers = self.peers
      actives = [n.address for n in peers]
      for address in self._addresses:
        if address in actives: continue  # ignore already connected one
        self.add_peer(address)           # try add one peer
        break
"""
ADD = """    if not force and len(self._peers) >= self._max_peers:
      return False  # too much peers
    if address in [n.address for n in self.values()]:
      return False  # already exists this peer
    
    try:            # asyncore keeps a reference in the map
      connection.Connection(address=address,node=self)
    except Exception as e:
      print('meet error: %s' % e)
      return False  # will remove self._addresses[address] in self.disconnected()
    return True
"""
ACC = """    if address[0] in self._banned:
      if time.time() - self._banned[address[0]] < 3600:
        sock.close()            # banned it within one hour
        return
      del self._banned[address[0]] # else, ignore early banned list
    
    if not self._listen: # if not accepting incoming, drop it
      sock.close()
      return
"""
READ = """    now = time.time()
    rx_ago = now - self._last_rx_time
    tx_ago = now - self._last_tx_time
    ping_ago = now - self._last_ping_time
    
    # haven't sent anything for 30 minutes, send a ping every 5 minutes
    if self._last_tx_time and tx_ago > _SECONDS_OF_30M and ping_ago > _SECONDS_OF_5M:
      self.send_message(protocol.Ping(os.urandom(8)))
      self._last_ping_time = time.time()
    
    # it's been over 3 hours, just disconnect
    if self._last_rx_time and rx_ago > _SECONDS_OF_180M:
      self.handle_close()
      return False
    return True
"""
MSG = """    kwargs = dict((k,getattr(message,k)) for (k,t) in message.properties)
    if message.command == protocol.Version.command:
      self._services = message.services
      self._start_height = message.start_height
      self._user_agent = message.user_agent
      self._version = message.version
      self._relay = message.relay
      self._external_ip = message.addr_recv.address
      
      self.node.connected(self)
    elif message.command == protocol.VersionAck.command:
      self._verack = True
    
    if message:
      method = getattr(self.node,'command_'+message.name,None)
      if method:
        method(self,**kwargs)
      else:
        self.node.log('error: method not defined: command_%s' % message.name, peer=self, level=self.node.log_level)
"""
BEAT = """    peers = self.peers
    
    # if need more peer connections, attempt to add some
    for i in range(0,min(self._seek_peers-len(peers),5)): # max 5 at a time
      self.add_any_peer()
    
    # if not many addresses, try ask more
    if peers and len(self._addresses) < 50:
      peer = random.choice(peers)
      peer.send_message(protocol.GetAddress())
    
    for peer in peers:    # give a little back to peers that went bad but seem be OK now
      peer.reduce_banscore()
    
    self._decay_relay()   # give a little more room for relaying
"""
EDITS = [
(0, P, [(B, VOTE, """    from collections import Counter
    votes = Counter(p.external_ip for p in self.peers if p.external_ip is not None)
    if votes:
      self._guessed_external_ip = max((n,a) for (a,n) in votes.items())[1]
""")]),
(0, P, [(B, VOTE, """    votes = {}
    for address in (p.external_ip for p in self.peers):
      if address is not None:
        votes[address] = votes.get(address,0) + 1
    best = None
    for address in votes:
      if best is None or (votes[address],address) > (votes[best],best):
        best = address
    if best is not None:
      self._guessed_external_ip = best
""")]),
(0, P, [(B, VOTE, """    seen = [p.external_ip for p in self.peers]
    answers = set(a for a in seen if a is not None)
    if not answers: return
    self._guessed_external_ip = sorted(answers,key=lambda a: (seen.count(a),a))[-1]
""")]),
(0, P, [(B, ASK, """    recent = sorted(self._addresses,key=lastSeen,reverse=True)
    usable = [a for a in recent if self._addresses[a][1] is not None][:ADDRESSES_PER_ASK]
    addresses = [protocol.NetworkAddress(self._addresses[a][0],self._addresses[a][1],a[0],a[1]) for a in usable]
    peer.send_message(protocol.Address(addresses)) # send our address list to peer
""")]),
(0, P, [(B, ASK, """    def known():
      for address in sorted(self._addresses,key=lastSeen,reverse=True):  # the most recent peers first
        timestamp, services = self._addresses[address]
        if services is not None:
          yield protocol.NetworkAddress(timestamp,services,*address)
    
    import itertools
    peer.send_message(protocol.Address(list(itertools.islice(known(),ADDRESSES_PER_ASK)))) # send our address list to peer
""")]),
(0, P, [(B, ANY, """      actives = set(n.address for n in self.peers)
      address = next((a for a in self._addresses if a not in actives),None)
      if address is not None:
        self.add_peer(address)           # try add one peer
""")]),
(0, P, [(B, ANY, """      actives = [n.address for n in self.peers]
      spare = [a for a in self._addresses if a not in actives]
      if spare:
        self.add_peer(spare[0])          # try add one peer
""")]),
(0, P, [(B, ADD, """    if len(self._peers) >= self._max_peers and not force:
      return False  # too much peers
    for known in self.values():
      if known.address == address:
        return False  # already exists this peer
    
    added = True
    try:            # asyncore keeps a reference in the map
      connection.Connection(self,address)
    except Exception as e:
      print('meet error: {}'.format(e))
      added = False  # will remove self._addresses[address] in self.disconnected()
    return added
""")]),
(0, P, [(B, ACC, """    host = address[0]
    since = self._banned.get(host)
    if since is not None:
      if time.time() - since < 3600:
        return sock.close()     # banned it within one hour
      self._banned.pop(host)    # else, ignore early banned list
    
    if not self._listen: # if not accepting incoming, drop it
      return sock.close()
""")]),
(0, P, [(B, ACC, """    if self._refused(address[0]):
      sock.close()
      return
"""), (B, "  def handle_accept(self):\n", """  def _refused(self, ip):
    'No incoming connection from an address banned within one hour, nor any if we do not listen.'
    try:
      ago = time.time() - self._banned[ip]
    except KeyError:
      return not self._listen
    if ago < 3600: return True
    del self._banned[ip]
    return not self._listen
  
  def handle_accept(self):
""")]),
(0, P, [(C, READ, """    now = time.time()
    
    def idle(since, limit):
      return now - since > limit
    
    # haven't sent anything for 30 minutes, send a ping every 5 minutes
    if self._last_tx_time and idle(self._last_tx_time,_SECONDS_OF_30M) and idle(self._last_ping_time,_SECONDS_OF_5M):
      self.send_message(protocol.Ping(os.urandom(8)))
      self._last_ping_time = time.time()
    
    # it's been over 3 hours, just disconnect
    gone = bool(self._last_rx_time) and idle(self._last_rx_time,_SECONDS_OF_180M)
    if gone:
      self.handle_close()
    return not gone
""")]),
(0, P, [(C, MSG, """    command = message.command
    if command == protocol.Version.command:
      self._greeted(message)
    elif command == protocol.VersionAck.command:
      self._verack = True
    
    name = message.name
    method = getattr(self.node,'command_%s' % name,None)
    if not method:
      self.node.log('error: method not defined: command_%s' % name, peer=self, level=self.node.log_level)
      return
    method(self,**{k: getattr(message,k) for (k,t) in message.properties})
  
  def _greeted(self, message):
    for field in ('services','start_height','user_agent','version','relay'):
      setattr(self,'_' + field,getattr(message,field))
    self._external_ip = message.addr_recv.address
    self.node.connected(self)
""")]),
(0, P, [(B, BEAT, """    peers = list(self.peers)
    
    wanted = self._seek_peers - len(peers)
    while wanted > max(0,self._seek_peers - len(peers) - 5): # max 5 at a time
      self.add_any_peer()
      wanted -= 1
    
    # if not many addresses, try ask more
    if len(self._addresses) < 50 and peers:
      random.choice(peers).send_message(protocol.GetAddress())
    
    for peer in peers:    # give a little back to peers that went bad but seem be OK now
      peer.reduce_banscore()
    
    self._decay_relay()   # give a little more room for relaying
""")]),
(0, P, [(C, """    i = self._banscore - penalty
    self._banscore = 0 if i < 0 else i
""", """    self._banscore = max(self._banscore - penalty,0)
"""), (B, """    if peer.address in self._addresses:
      del self._addresses[peer.address]
""", """    self._addresses.pop(peer.address,None)
""")]),
(0, P, [(B, """    for address in addr_list:
      if len(self._addresses) >= MAX_ADDRESSES: return
      self._addresses[(address.address,address.port)] = (address.timestamp,address.services)
""", """    known = self._addresses
    for entry in addr_list:
      if len(known) < MAX_ADDRESSES:
        known.update({(entry.address,entry.port): (entry.timestamp,entry.services)})
      else:
        break
""")]),
(0, P, [(B, """    for peer in peers:
      if peer.address == address:
        peer.handle_close()
        break
""", """    matching = [p for p in peers if p.address == address]
    if matching:
      matching[0].handle_close()
""")]),
(0, P, [(B, """    now = time.time()
    if now - self._last_heartbeat > 10: # more than 10 seconds since last heartbeat
      self._last_heartbeat = now;
      self.heartbeat()
    
    return self._peers.items()
""", """    now = time.time()
    due = self._last_heartbeat + 10 < now # more than 10 seconds since last heartbeat
    if due:
      self._last_heartbeat = now
      self.heartbeat()
    return self._peers.items()
""")]),
(0, P, [(C, """      sent = self.send(self._send_buffer)
      self._tx_bytes += sent
      self.node._tx_bytes += sent
      self._last_tx_time = time.time()
    except Exception as e:
      self.handle_close()
      return
    self._send_buffer = self._send_buffer[sent:]
""", """      pending = self._send_buffer
      sent = self.send(pending)
      for counted in (self, self.node):
        counted._tx_bytes += sent
      self._last_tx_time = time.time()
    except Exception:
      self.handle_close()
    else:
      self._send_buffer = pending[sent:]
""")]),
]
