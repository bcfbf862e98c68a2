From 1c5e9ea89d8fddb0485ce53b4b3b4a190d58c251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 01/61] fix: variable-length integers round-trip at every width

---
 nbc/protocol/format.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index fc92c12..08b9459 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -235,9 +235,9 @@ class FtVarInteger(FormatType):
   def binary(obj):
     if obj < 0xfd:
       return struct.pack('<B',obj)
-    elif obj < 0xffff:
+    elif obj <= 0xffff:
       return b'\xfd' + struct.pack('<H',obj)
-    elif obj < 0xffffffff:
+    elif obj <= 0xffffffff:
       return b'\xfe' + struct.pack('<I',obj)
     return b'\xff' + struct.pack('<Q',obj)
 
@@ -248,7 +248,7 @@ class FtVarInteger(FormatType):
       return (3,struct.unpack('<H', data[1:3])[0])
     elif value == 0xfe:
       return (5,struct.unpack('<I', data[1:5])[0])
-    elif value == 0xfd:
+    elif value == 0xff:
       return (9,struct.unpack('<Q', data[1:9])[0])
     return (1,value)
   
-- 
2.43.0


From 7efc6f2ab930f1915f053f7681cbe267856f7be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 02/61] fix: a variable-length integer outside 64 unsigned bits
 is not valid

---
 nbc/protocol/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 08b9459..cc9ab2b 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -227,7 +227,7 @@ class FtNumber(FormatType):
 class FtVarInteger(FormatType):
   @staticmethod
   def validate(obj):
-    if isinstance(obj, int):
+    if isinstance(obj, integer_types) and 0 <= obj <= 0xffffffffffffffff:
       return obj
     return None
   
-- 
2.43.0


From 70832676e6459b05df62e7e4a797fbb8b11ec1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 03/61] fix: fixed-length and counted strings reject truncated
 data

---
 nbc/protocol/format.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index cc9ab2b..9b9a3b1 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -339,6 +339,8 @@ class FtBytes(FormatType):
     return obj
   
   def parse(self, data):
+    if len(data) < self._length:
+      raise ValueError('data truncated')
     return (self._length, data[:self._length])
   
   def str(self, obj):
@@ -368,7 +370,9 @@ class FtVarString(FormatType):
     else: data = data.encode('latin-1') # for python3
     (vl,length) = FtVarInteger.parse(data)
     obj = data[vl:vl+length]
-    return (vl + len(obj), obj)
+    if len(obj) != length:
+      raise ValueError('data truncated')
+    return (vl + length, obj)
   
   def str(self, obj):
     return repr(obj)
-- 
2.43.0


From ea4685e485258bb1e4cef823d164a85bb95bbd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 04/61] fix: array length limits apply to parsed data as well

---
 nbc/protocol/format.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 9b9a3b1..22c1121 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -401,6 +401,11 @@ class FtArray(FormatType):
              b''.join(self._child_type.binary(o) for o in obj))
   
   def parse(self, data):
+    (off, count) = FtVarInteger.parse(data)
+    if self._min_length and count < self._min_length:
+      raise ValueError('array too short')
+    if self._max_length and count > self._max_length:
+      raise ValueError('array too long')
     return parse_var_set(data, self._child_type)
   
   def str(self, obj):
-- 
2.43.0


From fbde81b52d24768a6513d96fafd88265ff19fb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 05/61] fix: messages that set not_regist are not registered

---
 nbc/protocol/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 22c1121..0a6a6db 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -50,7 +50,7 @@ class _AutoRegister(type):
     
     for base in bases:
       if hasattr(base,'register'):
-        if hasattr(base,'not_regist') and not base.not_regist:
+        if hasattr(cls,'not_regist') and not cls.not_regist:
           base.register(cls)
         break
 
-- 
2.43.0


From 15e559ea4149e8fbcd0d8895952149bda592887b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 06/61] fix: comparing two OutPoints does not raise NameError

---
 nbc/protocol/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 0a6a6db..5689529 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -455,7 +455,7 @@ class OutPoint(CompoundType):
   def __eq__(self, other):
     if not isinstance(other,OutPoint):
       return False
-    return (self.hash == other.hash) and (self.index == otehr.index)
+    return (self.hash == other.hash) and (self.index == other.index)
 
 class FtOutPoint(FtInventoryVector):
   expected_type = OutPoint
-- 
2.43.0


From c7144d72d2229fce4e5fcd2105392ec917c1a41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 07/61] fix: malformed IPv6 text is refused by validation
 instead of raising

---
 nbc/protocol/format.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 5689529..c925f95 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -290,7 +290,13 @@ class FtIPAddress(FormatType):
       if group == '':
         groups.extend([ 0 ] * (9 - len(objs)))
       else:
-        groups.append(int(group,16))
+        try:
+          groups.append(int(group,16))
+        except ValueError as e:
+          return None
+    
+    if len(groups) != 8:
+      return None
     
     # is each group in the correct range?
     for group in groups:
-- 
2.43.0


From ce9eff33bb4e3ca5739a2d4ffc0897937f773d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 08/61] fix: format types raise NotImplementedError instead of
 a TypeError

---
 nbc/protocol/format.py | 6 +++---
 nbc/util/__init__.py   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index c925f95..5f4dd50 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -114,14 +114,14 @@ class CompoundType(object):
 class FormatType(object):
   def validate(self, obj):
     '''Returns the object when obj is valid, otherwise None.'''
-    raise NotImplemented()
+    raise NotImplementedError()
   
   def binary(self, obj):
-    raise NotImplemented()
+    raise NotImplementedError()
   
   def parse(self, data):
     '''Returns a (consumed_length, value)'''
-    raise NotImplemented()
+    raise NotImplementedError()
   
   def str(self, obj):
     return str(obj)
diff --git a/nbc/util/__init__.py b/nbc/util/__init__.py
index 455992a..a84d66e 100644
--- a/nbc/util/__init__.py
+++ b/nbc/util/__init__.py
@@ -52,7 +52,7 @@ __all__ = [
 ]
 
 def x11(data):
-    raise NotImplemented()
+    raise NotImplementedError()
 
 
 # Formatting Helpers
-- 
2.43.0


From 734a081cd1e16827e797657abab88bfd863a2672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 09/61] fix: a frame shorter than its declared payload is a
 format error

---
 nbc/protocol/messages.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nbc/protocol/messages.py b/nbc/protocol/messages.py
index 1bda2e1..e04de4e 100644
--- a/nbc/protocol/messages.py
+++ b/nbc/protocol/messages.py
@@ -87,9 +87,14 @@ class Message(format.CompoundType):
     if data[0:4] != magic:  # check magic
       raise MsgFormatError('bad magic number')
     
+    if len(data) < 24:
+      raise MsgFormatError('truncated header')
+    
     # get binary payload
     (length, ) = struct.unpack('<I', data[16:20])
     payload = data[24:24 + length]
+    if len(payload) != length:
+      raise MsgFormatError('truncated payload')
     
     # check the checksum
     checksum = hashlib.sha256(hashlib.sha256(payload).digest()).digest()[:4]
-- 
2.43.0


From 5e28dd8642a3a0620b6ee7ac9a182562ebc4df2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 10/61] fix: comparing two connections does not recurse forever

---
 nbc/node/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index 513510f..6e24667 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -223,7 +223,7 @@ class Connection(asyncore.dispatcher):
     return hash(self.address)
 
   def __eq__(self, other):
-    return self == other
+    return self is other
   
   def __str__(self):
     return '<Connection(%s) %s:%d>' % (self._fileno,self.ip,self.port)
-- 
2.43.0


From 455f7e816aab18fd776dc810a30a0551cf7973d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 11/61] fix: a connection reports when it last heard from the
 remote, not how long ago

---
 nbc/node/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index 6e24667..62b2402 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -93,7 +93,7 @@ class Connection(asyncore.dispatcher):
   banscore = property(lambda s: s._banscore)
   
   # last time we heard from remote
-  timestamp = property(lambda s: (time.time() - s._last_rx_time))
+  timestamp = property(lambda s: s._last_rx_time)
   
   def add_banscore(self, penalty=1):
     self._banscore += penalty
-- 
2.43.0


From b2d7507b99a2fff45bc126a1647905bae902d722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 12/61] fix: a banned peer is refused when it connects again

---
 nbc/node/basenode.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index c5c941b..4251bd8 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -253,11 +253,11 @@ class BaseNode(asyncore.dispatcher, object):
     (sock,address) = pair
     print('Incoming connection from %s' % repr(address))
     
-    if address in self._banned:
-      if time.time() - self._banned[address] < 3600:
+    if address[0] in self._banned:
+      if time.time() - self._banned[address[0]] < 3600:
         sock.close()            # banned it within one hour
         return
-      del self._banned[address] # else, ignore early banned list
+      del self._banned[address[0]] # else, ignore early banned list
     
     if not self._listen: # if not accepting incoming, drop it
       sock.close()
-- 
2.43.0


From 9ab09eb504f7f70750edb048c664594cad67a68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 13/61] fix: an addr message can not grow the address book past
 its limit

---
 nbc/node/basenode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index 4251bd8..8e1cc8c 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -342,7 +342,7 @@ class BaseNode(asyncore.dispatcher, object):
   
   def command_address(self, peer, addr_list):
     for address in addr_list:
-      if len(self._addresses) > MAX_ADDRESSES: return
+      if len(self._addresses) >= MAX_ADDRESSES: return
       self._addresses[(address.address,address.port)] = (address.timestamp,address.services)
 
 def startServer(node):
-- 
2.43.0


From d3469733751238d4476ed4d53f7a00f574b15613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 14/61] fix: answer getaddr under Python 3, where sorted()
 takes no cmp function

---
 nbc/node/basenode.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index 8e1cc8c..c50aef7 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -326,11 +326,11 @@ class BaseNode(asyncore.dispatcher, object):
       self._addresses[peer.address] = (peer.timestamp, peer.services)
   
   def command_get_address(self, peer):
-    def sortAddr(a,b):
-      return cmp(self._addresses[b][0],self._addresses[a][0]) # by timestamp and with decrease
+    def lastSeen(address):
+      return self._addresses[address][0]
     
     addresses = []
-    for address in sorted(self._addresses,sortAddr):  # add the most recent peers
+    for address in sorted(self._addresses,key=lastSeen,reverse=True):  # add the most recent peers
       (timestamp, services) = self._addresses[address]
       if services is None: continue
       
-- 
2.43.0


From 01fdbcab7d60ac79e757cc614cc7b5e61ac62426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 15/61] fix: raw node logs the accepted address instead of an
 undefined name

---
 nbc/node/raw_.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/node/raw_.py b/nbc/node/raw_.py
index b01aea0..4adc7ee 100644
--- a/nbc/node/raw_.py
+++ b/nbc/node/raw_.py
@@ -65,7 +65,7 @@ class RawNode(asyncore.dispatcher, object):
     if not pair: return
     
     (sock,address) = pair
-    print('Incoming connection from %s' % repr(addr))
+    print('Incoming connection from %s' % repr(address))
     
     ''' # we banned this address less than an hour ago
     if address in self._banned:
-- 
2.43.0


From 051f89737437e4d5875cf32d7767438a41183315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 16/61] fix: a machine without miniupnpc starts without a port
 mapping

---
 nbc/node/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nbc/node/__init__.py b/nbc/node/__init__.py
index 5388a01..1a44c15 100644
--- a/nbc/node/__init__.py
+++ b/nbc/node/__init__.py
@@ -9,6 +9,9 @@ else:
   if sys.platform == 'darwin':
     from .darwin2 import miniupnpc
 
+if sys.platform != 'darwin':
+  miniupnpc = None
+
 class AddrInUseError(Exception): pass
 class StopNode(Exception): pass
 
@@ -17,6 +20,7 @@ _upnp = None
 def _init_upnp():
   global _upnp
   if _upnp: return _upnp
+  if miniupnpc is None: return None
   
   u = miniupnpc.UPnP()
   u.discoverdelay = 200
@@ -31,6 +35,7 @@ def _init_upnp():
 
 def add_portmap(port, proto, label=''):
   u = _init_upnp()
+  if u is None: return None
   try:
     u.selectigd()  # select Internet Gateway Device
     extAddr = u.externalipaddress()
-- 
2.43.0


From 8969e521b297918c81511538239ca96f67a5463d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 17/61] fix: an extended key can be imported again

---
 nbc/wallet/hdwallet.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nbc/wallet/hdwallet.py b/nbc/wallet/hdwallet.py
index 34f9de9..6cd800d 100644
--- a/nbc/wallet/hdwallet.py
+++ b/nbc/wallet/hdwallet.py
@@ -194,9 +194,9 @@ class HDWallet(object):
     return ecc.verify(data,pubKey,signature)
   
   @staticmethod
-  def from_extended_key(extended_key):
-    decoded = base58.b58decode(extended_key,78+4)
-    assert(decoded)
+  def from_extended_key(extended_key, vcn=None):
+    decoded = base58.b58decode(extended_key)
+    assert(len(decoded) == 78+4)
     ekdata = decoded[:78]
     checksum = decoded[78:78+4]
     # validate checksum
@@ -221,7 +221,7 @@ class HDWallet(object):
     else:
       raise Exception('unknown version')
     
-    return HDWallet( key, chaincode, vcn=self.vcn,
+    return HDWallet( key, chaincode, vcn=vcn,
       testnet=testnet, depth=depth,
       childnum=childnum, parentfp=parentfp )
   
-- 
2.43.0


From d2a287c67b078bb8792a39f7ae523cb1976b7d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 18/61] fix: decompressing a point selects the root with the
 encoded parity

---
 nbc/wallet/hdwallet.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/nbc/wallet/hdwallet.py b/nbc/wallet/hdwallet.py
index 6cd800d..1486525 100644
--- a/nbc/wallet/hdwallet.py
+++ b/nbc/wallet/hdwallet.py
@@ -29,13 +29,12 @@ def point_compress(point):
 def point_decompress(curve, data):
   prefix = data[0]; ch = ORD(prefix)
   assert(ch in (2,3))  # data[0] should be b'\x02' or b'\x03'
-  parity = 1 if ch == 2 else -1
-  
   x = string_to_number(data[1:])
   y = numbertheory.square_root_mod_prime( 
     ( x * x * x + curve.a() * x + curve.b() ) % curve.p(),  curve.p()
   )
-  y = parity * y % curve.p()
+  if (y & 1) != (ch & 1):
+    y = curve.p() - y
   return ellipticcurve.Point(curve, x, y)
 
 class HDWallet(object):
-- 
2.43.0


From 32b5fbd70702451b0a9066d404c15abee0bb478c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 19/61] fix: a derived child keeps the vcn of its parent

---
 nbc/wallet/hdwallet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/wallet/hdwallet.py b/nbc/wallet/hdwallet.py
index 1486525..4cdc636 100644
--- a/nbc/wallet/hdwallet.py
+++ b/nbc/wallet/hdwallet.py
@@ -113,7 +113,7 @@ class HDWallet(object):
       
       childKey = childPubkey
     
-    return self.__class__(childKey, childChain, 
+    return self.__class__(childKey, childChain, vcn=self.vcn,
       testnet=self._testnet,
       depth=self._depth + 1,
       parentfp=self.fingerprint(),
-- 
2.43.0


From 759aff4337b9c9b25a1e3bc635dbb02b67d46fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 20/61] fix: HDWallet refuses other key types with TypeError
 under Python 3

---
 nbc/wallet/hdwallet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nbc/wallet/hdwallet.py b/nbc/wallet/hdwallet.py
index 4cdc636..558d210 100644
--- a/nbc/wallet/hdwallet.py
+++ b/nbc/wallet/hdwallet.py
@@ -2,6 +2,7 @@
 from random import randint
 import hashlib, hmac
 from binascii import hexlify, unhexlify
+from six import integer_types
 
 from .. import util
 from ..util import base58, ecc
@@ -51,7 +52,7 @@ class HDWallet(object):
   def __init__(self, key, chain, vcn=None, testnet=False, depth=None, parentfp=None, childnum=None):
     if type(key) == ellipticcurve.Point:        # public key is a point
       self._pubkey = key  
-    elif type(key) == int or type(key) == long: # private key an integer
+    elif type(key) in integer_types: # private key an integer
       assert(0 < key < curve.order)
       self._prvkey = key
     else:
-- 
2.43.0


From ff77a47bc68961788e2ad53518e305c3fa9e3a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 21/61] fix: a compressed watch-only address is saved as
 compressed

---
 nbc/wallet/address.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/wallet/address.py b/nbc/wallet/address.py
index 27789bf..0d94050 100644
--- a/nbc/wallet/address.py
+++ b/nbc/wallet/address.py
@@ -187,7 +187,7 @@ class Address(object):
       
       cfg['prvkey'] = hexlify(privKey).decode('latin-1')
     elif pubKey:
-      cfg['pubkey'] = hexlify(pubKey).decode('latin-1')
+      cfg['pubkey'] = hexlify(self.publicKey()).decode('latin-1')
     return cfg
   
   @classmethod
-- 
2.43.0


From 329459170b21e289ef483e695b1e23fcc57d764c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 22/61] fix: an uncompressed public key must be on the curve

---
 nbc/wallet/address.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbc/wallet/address.py b/nbc/wallet/address.py
index 0d94050..2f285a2 100644
--- a/nbc/wallet/address.py
+++ b/nbc/wallet/address.py
@@ -86,6 +86,7 @@ class Address(object):
       if ch == 4:  # prefix with 0x04 means decompressed
         if len(pubKey) != 65:
           raise ValueError('invalid uncomprssed public key')
+        util.key.decompress_public_key(pubKey)  # raises ValueError if not on the curve
       elif ch == 2 or ch == 3:
         pubKey = util.key.decompress_public_key(pubKey)
         self._compressed = True
-- 
2.43.0


From 918b0f591afaa5b84e8cfb7ee7e33c1bcd32b81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 23/61] fix: saving a wallet never destroys the previous file

---
 nbc/wallet/__init__.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/nbc/wallet/__init__.py b/nbc/wallet/__init__.py
index 8a72ac8..4feb0a6 100644
--- a/nbc/wallet/__init__.py
+++ b/nbc/wallet/__init__.py
@@ -1,5 +1,6 @@
 
 import json
+import os
 from .address import Address
 from .hdwallet import HDWallet
 
@@ -8,8 +9,16 @@ __all__ = ['Address', 'HDWallet', 'loadFrom', 'saveTo']
 def saveTo(fileName, wallet, passphrase=''):
   cfg = wallet.dump_to_cfg(passphrase)
   sCfg = json.dumps(cfg)
-  with open(fileName,'w') as f:
+  
+  # write aside and rename, so a crash can not leave a truncated wallet
+  tmpName = fileName + '.tmp'
+  with open(tmpName,'w') as f:
     f.write(sCfg)
+    f.flush()
+    os.fsync(f.fileno())
+  if os.name == 'nt' and os.path.exists(fileName):
+    os.remove(fileName)   # rename can not overwrite
+  os.rename(tmpName,fileName)
 
 def loadFrom(fileName, passphrase=''):
   with open(fileName,'r') as f:
-- 
2.43.0


From 18278c816c4fec7d797d2d3a723315d6a47ba105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 24/61] fix: a WIF key with a bad checksum is refused with
 ValueError

---
 nbc/util/key.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nbc/util/key.py b/nbc/util/key.py
index 4fc05f7..95589fd 100644
--- a/nbc/util/key.py
+++ b/nbc/util/key.py
@@ -83,6 +83,8 @@ def privkey_to_wif(privkey, prefix = b'\x80'):
 # See: https://en.bitcoin.it/wiki/Wallet_import_format
 def privkey_from_wif(privkey, prefix = b'\x80'):
     key = base58.decode_check(privkey)
+    if not key:
+        raise ValueError('invalid wif private key')
     if ORD(prefix) != ORD(key[0]):
         raise ValueError('wif private key has does not match prefix')
     if len(key) == 33:
-- 
2.43.0


From 5220828250a53c7fa7a84cf2c4a7678ed3ad23fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 25/61] fix: a compressed public key off the curve is refused
 with ValueError

---
 nbc/util/key.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nbc/util/key.py b/nbc/util/key.py
index 95589fd..bc43894 100644
--- a/nbc/util/key.py
+++ b/nbc/util/key.py
@@ -25,7 +25,7 @@ from . import base58
 
 from .ecdsa.ecdsa import point_is_valid
 from .ecdsa import SECP256k1 as curve
-from .ecdsa.numbertheory import square_root_mod_prime
+from .ecdsa.numbertheory import square_root_mod_prime, SquareRootError
 from .ecdsa.util import number_to_string, string_to_number
 
 import hashlib
@@ -66,7 +66,10 @@ def decompress_public_key(public_key):
         raise ValueError('invalid compressed public key')
 
     x = string_to_number(public_key[1:])
-    y = square_root_mod_prime((x ** 3 + _a * x + _b) % _p, _p)
+    try:
+        y = square_root_mod_prime((x ** 3 + _a * x + _b) % _p, _p)
+    except SquareRootError:
+        raise ValueError('invalid public key')
     if not point_is_valid(curve.generator, x, y):
         raise ValueError('invalid public key')
 
-- 
2.43.0


From dd73c07367d657ccd69b4be97ad079d473023672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 26/61] fix: an empty public key is refused with ValueError

---
 nbc/util/key.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nbc/util/key.py b/nbc/util/key.py
index bc43894..a1ba685 100644
--- a/nbc/util/key.py
+++ b/nbc/util/key.py
@@ -54,6 +54,8 @@ _p = curve.curve.p()
 _n = curve.order
 
 def decompress_public_key(public_key):
+    if not public_key:
+        raise ValueError('invalid public key')
     ch = ORD(public_key[0])
     if ch == 4 and len(public_key) == 65:
         x = string_to_number(public_key[1:33])
-- 
2.43.0


From f126880684df11aa8eebef4bc7c8e73102ded63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 27/61] fix: a malformed signature fails verification instead
 of raising

---
 nbc/util/ecc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbc/util/ecc.py b/nbc/util/ecc.py
index 156212d..2ea319e 100644
--- a/nbc/util/ecc.py
+++ b/nbc/util/ecc.py
@@ -45,7 +45,7 @@ def twos_comp(val, bits):
 def remove_integer(string):
     if not string.startswith(b("\x02")):
         n = string[0] if isinstance(string[0], der.integer_types) else ord(string[0])
-        raise UnexpectedDER("wanted integer (0x02), got 0x%02x" % n)
+        raise der.UnexpectedDER("wanted integer (0x02), got 0x%02x" % n)
     length, llen = der.read_length(string[1:])
     numberbytes = string[1+llen:1+llen+length]
     rest = string[1+llen+length:]
@@ -87,7 +87,7 @@ def verify(data, public_key, signature):
     key = ecdsa.VerifyingKey.from_string(public_key[1:], ecdsa.SECP256k1)
     try:
         return key.verify_digest(signature, sha256d(data), sigdecode = sigdecode_der)
-    except ecdsa.BadSignatureError as e:
+    except (ecdsa.BadSignatureError, der.UnexpectedDER, ValueError, IndexError):
         return False
 
 from .ecdsa.util import number_to_string, string_to_number
-- 
2.43.0


From 1c2f7906df03198025f9316117a76f92c428862c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 28/61] fix: a signature whose verification point is infinity
 is invalid

---
 nbc/util/ecdsa/ecdsa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbc/util/ecdsa/ecdsa.py b/nbc/util/ecdsa/ecdsa.py
index 8ed0247..ddc67d1 100644
--- a/nbc/util/ecdsa/ecdsa.py
+++ b/nbc/util/ecdsa/ecdsa.py
@@ -107,6 +107,7 @@ class Public_key( object ):
     u1 = ( hash * c ) % n
     u2 = ( r * c ) % n
     xy = u1 * G + u2 * self.point
+    if xy == ellipticcurve.INFINITY: return False
     v = xy.x() % n
     return v == r
 
-- 
2.43.0


From 1fa372a88785d29b55b76b230e0a7b7e73eeda3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 29/61] fix: reduce r modulo the group order when signing

---
 nbc/util/ecdsa/ecdsa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/util/ecdsa/ecdsa.py b/nbc/util/ecdsa/ecdsa.py
index ddc67d1..3b8378f 100644
--- a/nbc/util/ecdsa/ecdsa.py
+++ b/nbc/util/ecdsa/ecdsa.py
@@ -144,7 +144,7 @@ class Private_key( object ):
     n = G.order()
     k = random_k % n
     p1 = k * G
-    r = p1.x()
+    r = p1.x() % n
     if r == 0: raise RuntimeError("amazingly unlucky random number r")
     s = ( numbertheory.inverse_mod( k, n ) * \
           ( hash + ( self.secret_multiplier * r ) % n ) ) % n
-- 
2.43.0


From 3271807d3d14228f20babcdfead85c04c3f44227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 30/61] fix: an unterminated DER number raises UnexpectedDER

---
 nbc/util/ecdsa/der.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/util/ecdsa/der.py b/nbc/util/ecdsa/der.py
index abcec34..78c2588 100644
--- a/nbc/util/ecdsa/der.py
+++ b/nbc/util/ecdsa/der.py
@@ -116,7 +116,7 @@ def read_number(string):
     llen = 0
     # base-128 big endian, with b7 set in all but the last byte
     while True:
-        if llen > len(string):
+        if llen >= len(string):
             raise UnexpectedDER("ran out of length bytes")
         number = number << 7
         d = string[llen] if isinstance(string[llen], integer_types) else ord(string[llen])
-- 
2.43.0


From 337648adc7535c7e22d9d2618937d3fd6c913640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 31/61] fix: truncating seed-to-exponent helpers work on bytes
 under Python 3

---
 nbc/util/ecdsa/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nbc/util/ecdsa/util.py b/nbc/util/ecdsa/util.py
index 5d2f373..22d2d3a 100644
--- a/nbc/util/ecdsa/util.py
+++ b/nbc/util/ecdsa/util.py
@@ -120,7 +120,7 @@ def randrange_from_seed__truncate_bytes(seed, order, hashmod=sha256):
     if extrabits:
         bytes += 1
     base = hashmod(seed).digest()[:bytes]
-    base = "\x00"*(bytes-len(base)) + base
+    base = b("\x00")*(bytes-len(base)) + base
     number = 1+int(binascii.hexlify(base), 16)
     assert 1 <= number < order
     return number
@@ -131,10 +131,10 @@ def randrange_from_seed__truncate_bits(seed, order, hashmod=sha256):
     bits = int(math.log(order-1, 2)+1)
     maxbytes = (bits+7) // 8
     base = hashmod(seed).digest()[:maxbytes]
-    base = "\x00"*(maxbytes-len(base)) + base
+    base = b("\x00")*(maxbytes-len(base)) + base
     topbits = 8*maxbytes - bits
     if topbits:
-        base = int2byte(ord(base[0]) & lsb_of_ones(topbits)) + base[1:]
+        base = int2byte(ord(base[:1]) & lsb_of_ones(topbits)) + base[1:]
     number = 1+int(binascii.hexlify(base), 16)
     assert 1 <= number < order
     return number
-- 
2.43.0


From c9dba79537411dde093b02aab811141f7ba79b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 32/61] fix: AES-256 key expansion uses integer division

---
 nbc/util/pyaes/aes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nbc/util/pyaes/aes.py b/nbc/util/pyaes/aes.py
index 1b062ad..5afbaea 100644
--- a/nbc/util/pyaes/aes.py
+++ b/nbc/util/pyaes/aes.py
@@ -158,16 +158,16 @@ class AES(object):
 
             # Key expansion for 256-bit keys is "slightly different" (fips-197)
             else:
-                for i in xrange(1, KC / 2):
+                for i in xrange(1, KC // 2):
                     tk[i] ^= tk[i - 1]
-                tt = tk[KC / 2 - 1]
+                tt = tk[KC // 2 - 1]
 
-                tk[KC / 2] ^= (self.S[ tt        & 0xFF]        ^
+                tk[KC // 2] ^= (self.S[ tt        & 0xFF]        ^
                               (self.S[(tt >>  8) & 0xFF] <<  8) ^
                               (self.S[(tt >> 16) & 0xFF] << 16) ^
                               (self.S[(tt >> 24) & 0xFF] << 24))
 
-                for i in xrange(KC / 2 + 1, KC):
+                for i in xrange(KC // 2 + 1, KC):
                     tk[i] ^= tk[i-1]
 
             # Copy values into round key arrays
-- 
2.43.0


From 7719da99012c87fd23f1220bc357a5dd093cb1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 33/61] fix: block feeders buffer bytes

---
 nbc/util/pyaes/blockfeeder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbc/util/pyaes/blockfeeder.py b/nbc/util/pyaes/blockfeeder.py
index c0ec3ab..cc487df 100644
--- a/nbc/util/pyaes/blockfeeder.py
+++ b/nbc/util/pyaes/blockfeeder.py
@@ -111,7 +111,7 @@ class BlockFeeder(object):
         self._mode = mode
         self._feed = feed
         self._final = final
-        self._buffer = ""
+        self._buffer = b""
 
     def feed(self, data = None):
         '''Provide bytes to encrypt (or decrypt), returning any bytes
@@ -133,7 +133,7 @@ class BlockFeeder(object):
         self._buffer += data
 
         # We keep 16 bytes around so we can determine padding
-        result = ''
+        result = b''
         while len(self._buffer) > 16:
             can_consume = self._mode._can_consume(len(self._buffer) - 16)
             if can_consume == 0: break
-- 
2.43.0


From 37dd2dba5ac92447bc088b96caf72bed4a7f1c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 34/61] fix: strip_PKCS7_padding works on bytes and refuses bad
 padding

---
 nbc/util/pyaes/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nbc/util/pyaes/util.py b/nbc/util/pyaes/util.py
index 5c7c140..3c657a0 100644
--- a/nbc/util/pyaes/util.py
+++ b/nbc/util/pyaes/util.py
@@ -28,12 +28,12 @@ def append_PKCS7_padding(data):
     return data + pad * CHR(pad)
 
 def strip_PKCS7_padding(data):
-    if len(data) % 16 != 0:
+    if not data or len(data) % 16 != 0:
         raise ValueError("invalid length")
 
-    pad = ord(data[-1])
+    pad = ord(data[-1:])
 
-    if pad > 16:
+    if pad < 1 or pad > 16:
         raise ValueError("invalid padding byte")
 
     return data[:-pad]
-- 
2.43.0


From 3c0b7cd1115496561a34ed1994bb4f6637f82863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 35/61] fix: hex and target helpers work under Python 3

---
 nbc/util/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nbc/util/__init__.py b/nbc/util/__init__.py
index a84d66e..dd5d0f2 100644
--- a/nbc/util/__init__.py
+++ b/nbc/util/__init__.py
@@ -21,6 +21,7 @@
 # THE SOFTWARE.
 
 
+import binascii
 import hashlib
 import json
 import math
@@ -73,7 +74,7 @@ def verify_target(coin, block_header):
 
 def get_target(bits):
     target = ((bits & 0x7fffff) * 2 ** (8 * ((bits >> 24) - 3)))
-    return ("%064x" % target).decode('hex')
+    return binascii.unhexlify(("%064x" % target).encode('ascii'))
 
 
 DifficultyOneTarget = 26959535291011309493156476344723991336010898738574164086137773096960.0
@@ -96,11 +97,11 @@ def get_merkle_root(transactions):
 # Hexlify Helpers
 
 def hex_to_bin(data):
-    return data.decode('hex')[::-1]
+    return binascii.unhexlify(data)[::-1]
 
 
 def bin_to_hex(data):
-    return data[::-1].encode('hex')
+    return binascii.hexlify(data[::-1])
 
 
 # Protocl Version Helpers
-- 
2.43.0


From 1421f2eb5e15ad00ded52a1f5f7c07a29a8cfc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 36/61] fix: list components of a JSON path are followed

---
 nbc/util/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/util/__init__.py b/nbc/util/__init__.py
index dd5d0f2..140084b 100644
--- a/nbc/util/__init__.py
+++ b/nbc/util/__init__.py
@@ -147,7 +147,7 @@ def fetch_url_json_path_int(url, path):
             for component in path.split('/'):
                 if isinstance(data, dict):
                     data = data[component]
-                elif ininstance(data, (list, tuple)):
+                elif isinstance(data, (list, tuple)):
                     data = data[int(component)]
                 else:
                     return None
-- 
2.43.0


From 9f3a990ba65f8e931afc818caf3c54ffad97c35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 37/61] fix: guessing the block height stops waiting when its
 time is over

---
 nbc/util/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/util/__init__.py b/nbc/util/__init__.py
index 140084b..2770eaa 100644
--- a/nbc/util/__init__.py
+++ b/nbc/util/__init__.py
@@ -194,7 +194,7 @@ def guess_block_height(coin, timeout = 5.0):
     t0 = time.time()
     for thread in threads:
         wait_time = timeout - (time.time() - t0)
-        if timeout < 0: break
+        if wait_time < 0: break
         thread.join(wait_time)
 
     # we copy, so lingering threads don't sneak new info in without a lock
-- 
2.43.0


From 15dcb0db7c87ba41ee06b6b60ccc4e72dfd20032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 38/61] fix: Coin comparison does not depend on the Python 2
 cmp builtin

---
 nbc/coins/coin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/coins/coin.py b/nbc/coins/coin.py
index 21bf276..77bd892 100644
--- a/nbc/coins/coin.py
+++ b/nbc/coins/coin.py
@@ -40,7 +40,7 @@ class Coin(object):
         return hash(self.symbol)
 
     def __cmp__(self, other):
-        return cmp(self.name, other.name)
+        return (self.name > other.name) - (self.name < other.name)
 
     def __str__(self):
         return '<%s>' % self.name.capitalize()
-- 
2.43.0


From e016433990be9bb55bd8f86bf61833a8a6b4080b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 39/61] fix: piecewise keys work under Python 3

---
 nbc/util/piecewise.py | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/nbc/util/piecewise.py b/nbc/util/piecewise.py
index 1d9ec86..8724951 100644
--- a/nbc/util/piecewise.py
+++ b/nbc/util/piecewise.py
@@ -55,14 +55,22 @@ from .key import privkey_from_wif, privkey_to_wif, publickey_to_address
 
 __all__ = ['get_address', 'combine_private_keys']
 
+try:
+  xrange
+except NameError:  # range same to xrange in python3
+  xrange = range
+
 def CHR(i):  # compatible to python3
   return bytes(bytearray((i,)))
 
+def ORD(ch):  # compatible to python3
+  return ch if type(ch) == int else ord(ch)
+
 def get_address(public_key, private_key, version = b'\x00'):
     'Returns the address generated by combiningn a public key and private key.'
 
     # valid public key?
-    if len(public_key) != 65 or public_key[0] != b'\x04':
+    if len(public_key) != 65 or ORD(public_key[0]) != 4:
         raise ValueError('public key must be decompressed')
 
     # the public key's elliptic curve point
@@ -233,11 +241,11 @@ def partial_combine_private_keys(private_keys, ignore_errors = False):
 
         # ...convert private keys to binary form
         private_key = decode_check(key)
-        if not private_key.startswith('\x10\x01'):
+        if not private_key.startswith(b'\x10\x01'):
             raise ValueError('invalid combined key: %s' % key)
 
         # ...verify the required number of keys
-        r = ord(private_key[3])
+        r = ORD(private_key[3])
         if required is None:
             required = r
         elif required != r:
@@ -255,7 +263,7 @@ def partial_combine_private_keys(private_keys, ignore_errors = False):
             raise ValueError('key checksum does not match set: %s' % key)
 
         # ...add this key to the correct key-set
-        index = ord(private_key[2])
+        index = ORD(private_key[2])
         if index not in parts: parts[index] = set()
         parts[index].add(private_key[8:])
 
@@ -280,12 +288,12 @@ def partial_split_qr_encode(private_keys):
     binary = []
 
     for private_key in map(decode_check, private_keys):
-        if private_key[0:2] != '\x10\x01':
+        if private_key[0:2] != b'\x10\x01':
             raise ValueError('invalid combined key')
 
         if required is None:
-            required = ord(private_key[3])
-        elif ord(private_key[3]) != required:
+            required = ORD(private_key[3])
+        elif ORD(private_key[3]) != required:
             raise ValueError('unmatched private keys')
 
         if checksum is None:
@@ -293,7 +301,7 @@ def partial_split_qr_encode(private_keys):
         elif private_key[4:8] != checksum:
             raise ValueError('unmatched private keys')
 
-        binary.append((ord(private_key[2]), private_key[8:]))
+        binary.append((ORD(private_key[2]), private_key[8:]))
 
     binary.sort()
     missing = len(binary)
@@ -305,23 +313,23 @@ def partial_split_qr_encode(private_keys):
     for private_key in binary:
         qr += private_key[1]
 
-    return base64.b32encode(qr).strip('=')
+    return base64.b32encode(qr).strip(b'=')
 
 def partial_split_qr_decode(qr_code):
     'Decode a partial key-set QR code.'
 
     # calculate padding that would have been stripped
     padding = (len(qr_code) * 5 - 9 * 8) % 32
-    binary = base64.b32decode(qr_code + ('=' * padding))
+    binary = base64.b32decode(qr_code + (b'=' * padding))
 
     # check the header
-    if not binary.startswith('\x84\x7c\x20'):
+    if not binary.startswith(b'\x84\x7c\x20'):
         raise ValueError('invalid header')
 
     # the missing index for this set
-    missing = ord(binary[3])
+    missing = ORD(binary[3])
 
-    required = ord(binary[4])
+    required = ORD(binary[4])
     checksum = binary[5:9]
 
     # extract each binary key and recompose the key
-- 
2.43.0


From f918e96d5d7d381897722663d238ebab79e7f284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:26 +0000
Subject: [PATCH 40/61] fix: a piecewise address is derived from the
 uncompressed public key

---
 nbc/util/piecewise.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nbc/util/piecewise.py b/nbc/util/piecewise.py
index 8724951..639cf39 100644
--- a/nbc/util/piecewise.py
+++ b/nbc/util/piecewise.py
@@ -66,7 +66,7 @@ def CHR(i):  # compatible to python3
 def ORD(ch):  # compatible to python3
   return ch if type(ch) == int else ord(ch)
 
-def get_address(public_key, private_key, version = b'\x00'):
+def get_address(public_key, private_key, version = b'\x00', vcn = 0):
     'Returns the address generated by combiningn a public key and private key.'
 
     # valid public key?
@@ -89,10 +89,10 @@ def get_address(public_key, private_key, version = b'\x00'):
     # compute the new public key
     x = number_to_string(combined.x(), curve.order)
     y = number_to_string(combined.y(), curve.order)
-    key_combined = b'\x00' + x + y
+    key_combined = b'\x04' + x + y
 
     # return the public key's address
-    return publickey_to_address(key_combined, version = version)
+    return publickey_to_address(key_combined, vcn, version = version)
 
 
 def combine_private_keys(private_keys):
-- 
2.43.0


From 25352836f06f78a767b154f8b3c767871799e5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:26 +0000
Subject: [PATCH 41/61] fix: combining partial keys refuses a bad checksum and
 does not print key material

---
 nbc/util/piecewise.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nbc/util/piecewise.py b/nbc/util/piecewise.py
index 639cf39..28a1af9 100644
--- a/nbc/util/piecewise.py
+++ b/nbc/util/piecewise.py
@@ -241,8 +241,8 @@ def partial_combine_private_keys(private_keys, ignore_errors = False):
 
         # ...convert private keys to binary form
         private_key = decode_check(key)
-        if not private_key.startswith(b'\x10\x01'):
-            raise ValueError('invalid combined key: %s' % key)
+        if not private_key or not private_key.startswith(b'\x10\x01'):
+            raise ValueError('invalid combined key')
 
         # ...verify the required number of keys
         r = ORD(private_key[3])
@@ -251,7 +251,7 @@ def partial_combine_private_keys(private_keys, ignore_errors = False):
         elif required != r:
             if ignore_errors:
                 continue
-            raise ValueError('key does not match set: %s' % key)
+            raise ValueError('key does not match set')
 
         # ...verify the checksum
         c = private_key[4:8]
@@ -260,7 +260,7 @@ def partial_combine_private_keys(private_keys, ignore_errors = False):
         elif checksum != c:
             if ignore_errors:
                 continue
-            raise ValueError('key checksum does not match set: %s' % key)
+            raise ValueError('key checksum does not match set')
 
         # ...add this key to the correct key-set
         index = ORD(private_key[2])
@@ -288,7 +288,7 @@ def partial_split_qr_encode(private_keys):
     binary = []
 
     for private_key in map(decode_check, private_keys):
-        if private_key[0:2] != b'\x10\x01':
+        if not private_key or private_key[0:2] != b'\x10\x01':
             raise ValueError('invalid combined key')
 
         if required is None:
-- 
2.43.0


From b805a7bd6d7a286dee065bcd9071e13e1a464918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:26 +0000
Subject: [PATCH 42/61] fix: a partial key-set QR code is padded to whole
 base32 groups

---
 nbc/util/piecewise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/util/piecewise.py b/nbc/util/piecewise.py
index 28a1af9..7a9ca7a 100644
--- a/nbc/util/piecewise.py
+++ b/nbc/util/piecewise.py
@@ -319,7 +319,7 @@ def partial_split_qr_decode(qr_code):
     'Decode a partial key-set QR code.'
 
     # calculate padding that would have been stripped
-    padding = (len(qr_code) * 5 - 9 * 8) % 32
+    padding = -len(qr_code) % 8
     binary = base64.b32decode(qr_code + (b'=' * padding))
 
     # check the header
-- 
2.43.0


From e4b02b5f59c74851c1508520e0b9b13cd990d860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 43/61] fix: a connection that can not greet its remote
 releases its socket

---
 nbc/node/connection.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index 62b2402..9c5ab1e 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -58,17 +58,21 @@ class Connection(asyncore.dispatcher):
       self._incoming = False
     
     # bootstrap communication with the node by broadcasting ver
-    now = time.time()
-    message = protocol.Version( version = node.coin.protocol_version,
-                services = self.SERVICES,
-                timestamp = now,
-                addr_recv = protocol.NetworkAddress(now,self.SERVICES,address[0],address[1]),
-                addr_from = protocol.NetworkAddress(now,self.SERVICES,node.external_ip,node.port),
-                nonce = os.urandom(8),
-                user_agent = node.user_agent,
-                start_height = node.blockchain_height,
-                relay = False )
-    self.send_message(message)
+    try:
+      now = time.time()
+      message = protocol.Version( version = node.coin.protocol_version,
+                  services = self.SERVICES,
+                  timestamp = now,
+                  addr_recv = protocol.NetworkAddress(now,self.SERVICES,address[0],address[1]),
+                  addr_from = protocol.NetworkAddress(now,self.SERVICES,node.external_ip,node.port),
+                  nonce = os.urandom(8),
+                  user_agent = node.user_agent,
+                  start_height = node.blockchain_height,
+                  relay = False )
+      self.send_message(message)
+    except Exception as e:
+      self.handle_close()
+      raise e
   
   # remote node details
   address = property(lambda s: s._address)
-- 
2.43.0


From 43b463a6cd9871e986212068123fc878ced679e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 44/61] fix: a port in use is reported as AddrInUseError on
 every platform

---
 nbc/node/basenode.py | 4 ++--
 nbc/node/raw_.py     | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index c50aef7..92dc449 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -1,5 +1,5 @@
 
-import sys, time, asyncore, socket, random
+import sys, time, errno, asyncore, socket, random
 from threading import Event, Thread
 
 from six import print_
@@ -81,7 +81,7 @@ class BaseNode(asyncore.dispatcher, object):
       if address[1] == 0: # if bound to a random port, keep track
         self._address = self.getsockname()
     except socket.error as e:  # port in use... Maybe already running
-      if e.errno == 48:
+      if e.errno == errno.EADDRINUSE:
         raise AddrInUseError()
       raise e
   
diff --git a/nbc/node/raw_.py b/nbc/node/raw_.py
index 4adc7ee..88fbd26 100644
--- a/nbc/node/raw_.py
+++ b/nbc/node/raw_.py
@@ -1,5 +1,6 @@
 
 import asyncore
+import errno
 import socket
 
 from .. import util
@@ -35,7 +36,7 @@ class RawNode(asyncore.dispatcher, object):
         self._address = self.getsockname()
     # port in use... Maybe already running.
     except socket.error as e:
-      if e.errno == 48:
+      if e.errno == errno.EADDRINUSE:
         raise AddrInUseError()
       raise e
   
-- 
2.43.0


From 5fbdc1b7fa919e95abe0e4d1cba7694195711ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 45/61] fix: refuse compressed keys whose x is not a field
 element when importing a wallet

---
 nbc/wallet/hdwallet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nbc/wallet/hdwallet.py b/nbc/wallet/hdwallet.py
index 558d210..4d3241b 100644
--- a/nbc/wallet/hdwallet.py
+++ b/nbc/wallet/hdwallet.py
@@ -31,6 +31,8 @@ def point_decompress(curve, data):
   prefix = data[0]; ch = ORD(prefix)
   assert(ch in (2,3))  # data[0] should be b'\x02' or b'\x03'
   x = string_to_number(data[1:])
+  if x >= curve.p():
+    raise ValueError('invalid public key')
   y = numbertheory.square_root_mod_prime( 
     ( x * x * x + curve.a() * x + curve.b() ) % curve.p(),  curve.p()
   )
-- 
2.43.0


From e7b671cbbf359ea596b0365cc931189124fa8fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 46/61] fix: piecewise.get_address refuses public keys that are
 not points of the curve with ValueError

---
 nbc/util/piecewise.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nbc/util/piecewise.py b/nbc/util/piecewise.py
index 7a9ca7a..3694534 100644
--- a/nbc/util/piecewise.py
+++ b/nbc/util/piecewise.py
@@ -51,7 +51,7 @@ from .ecdsa import SECP256k1 as curve
 from .ecdsa import ellipticcurve
 from .ecdsa.util import randrange, string_to_number, number_to_string
 
-from .key import privkey_from_wif, privkey_to_wif, publickey_to_address
+from .key import decompress_public_key, privkey_from_wif, privkey_to_wif, publickey_to_address
 
 __all__ = ['get_address', 'combine_private_keys']
 
@@ -72,6 +72,7 @@ def get_address(public_key, private_key, version = b'\x00', vcn = 0):
     # valid public key?
     if len(public_key) != 65 or ORD(public_key[0]) != 4:
         raise ValueError('public key must be decompressed')
+    decompress_public_key(public_key)  # raises ValueError if not on the curve
 
     # the public key's elliptic curve point
     x = string_to_number(public_key[1:1 + curve.baselen])
-- 
2.43.0


From 9612d853d3388f8a9adb48992e0dbd4e0e549c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 47/61] fix: a master seed whose key is out of range is refused
 as BIP32 prescribes

---
 nbc/wallet/hdwallet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbc/wallet/hdwallet.py b/nbc/wallet/hdwallet.py
index 4d3241b..adda8cd 100644
--- a/nbc/wallet/hdwallet.py
+++ b/nbc/wallet/hdwallet.py
@@ -233,8 +233,8 @@ class HDWallet(object):
       master_seed = master_seed.encode('latin-1')
     
     deriv = hmac.new(key=b'Bitcoin seed', msg=master_seed, digestmod=hashlib.sha512).digest()
-    master_key = string_to_number(deriv[:32]) % curve.order
-    if master_key == 0: raise ValueError('zeror key, try again')
+    master_key = string_to_number(deriv[:32])
+    if not (0 < master_key < curve.order): raise ValueError('invalid master key, try another seed')
     master_chain = deriv[32:]
     return HDWallet(master_key, master_chain, vcn=vcn, testnet=testnet)
   
-- 
2.43.0


From d290689fb07957cb22a6ecf4dccc244f6bd7e305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 48/61] fix: RFC 6979 counts whole octets of the order, so that
 a rejected candidate is followed by the right one

---
 nbc/util/ecdsa/rfc6979.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/util/ecdsa/rfc6979.py b/nbc/util/ecdsa/rfc6979.py
index 377e877..384afc1 100644
--- a/nbc/util/ecdsa/rfc6979.py
+++ b/nbc/util/ecdsa/rfc6979.py
@@ -61,7 +61,7 @@ def generate_k(generator, secexp, hash_func, data):
 
     qlen = bit_length(generator.order())
     holen = hash_func().digest_size
-    rolen = (qlen + 7) / 8
+    rolen = (qlen + 7) // 8
     bx = number_to_string(secexp, generator.order()) + bits2octets(data, generator.order())
 
     # Step B
-- 
2.43.0


From f2724c315fb31a893e4d9f03d6ff40e1e7183680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 49/61] fix: sign_digest_deterministic without a hash function
 uses the one of the key

---
 nbc/util/ecdsa/keys.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbc/util/ecdsa/keys.py b/nbc/util/ecdsa/keys.py
index 2ce9c2a..1ec4fc5 100644
--- a/nbc/util/ecdsa/keys.py
+++ b/nbc/util/ecdsa/keys.py
@@ -231,6 +231,7 @@ class SigningKey:
         random generator and producing deterministic (reproducible) signatures.
         See RFC 6979 for more details.
         """
+        hashfunc = hashfunc or self.default_hashfunc
         secexp = self.privkey.secret_multiplier
         k = rfc6979.generate_k(self.curve.generator, secexp, hashfunc, digest)
 
-- 
2.43.0


From 3055e45e4c6452938cb64eb10ac17ae8dba5079a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:15 +0000
Subject: [PATCH 50/61] fix: canonical signatures compare s with half the order
 exactly

---
 nbc/util/ecdsa/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nbc/util/ecdsa/util.py b/nbc/util/ecdsa/util.py
index 22d2d3a..28724f4 100644
--- a/nbc/util/ecdsa/util.py
+++ b/nbc/util/ecdsa/util.py
@@ -201,17 +201,17 @@ def sigencode_der(r, s, order):
 # these enforce low S values, by negating the value (modulo the order) if above order/2
 # see CECKey::Sign() https://github.com/bitcoin/bitcoin/blob/master/src/key.cpp#L214
 def sigencode_strings_canonize(r, s, order):
-    if s > order / 2:
+    if s > order // 2:
         s = order - s
     return sigencode_strings(r, s, order)
 
 def sigencode_string_canonize(r, s, order):
-    if s > order / 2:
+    if s > order // 2:
         s = order - s
     return sigencode_string(r, s, order)
 
 def sigencode_der_canonize(r, s, order):
-    if s > order / 2:
+    if s > order // 2:
         s = order - s
     return sigencode_der(r, s, order)
 
-- 
2.43.0


From 5accb33a0b0eae83d48c466b651820a187b1bb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 51/61] fix: doubling a point of order two gives the identity

---
 nbc/util/ecdsa/ellipticcurve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nbc/util/ecdsa/ellipticcurve.py b/nbc/util/ecdsa/ellipticcurve.py
index ba83847..b12958d 100644
--- a/nbc/util/ecdsa/ellipticcurve.py
+++ b/nbc/util/ecdsa/ellipticcurve.py
@@ -157,6 +157,8 @@ class Point( object ):
     p = self.__curve.p()
     a = self.__curve.a()
 
+    if ( 2 * self.__y ) % p == 0: return INFINITY
+
     l = ( ( 3 * self.__x * self.__x + a ) * \
           numbertheory.inverse_mod( 2 * self.__y, p ) ) % p
 
-- 
2.43.0


From 7774aacee511c55f2fe1da6f82691ac523876d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:39 +0000
Subject: [PATCH 52/61] fix: a coin has the proof of work function
 verify_target asks it for

---
 nbc/coins/coin.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nbc/coins/coin.py b/nbc/coins/coin.py
index 77bd892..f15bd7a 100644
--- a/nbc/coins/coin.py
+++ b/nbc/coins/coin.py
@@ -1,4 +1,6 @@
 
+from ..util.hash import sha256d
+
 __all__ = ['Coin', 'satoshi_per_coin']
 
 
@@ -36,6 +38,10 @@ class Coin(object):
     # Each entry should be a (name, callable) tuple
     block_height_guess = []
 
+    @staticmethod
+    def proof_of_work(block_header):
+        return sha256d(block_header)
+
     def __hash__(self):
         return hash(self.symbol)
 
-- 
2.43.0


From 95a9935900bfe0f93afae2867f350f383ba25ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:36 +0000
Subject: [PATCH 53/61] fix: PKCS7 padding is checked in every byte when it is
 removed

---
 nbc/util/pyaes/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nbc/util/pyaes/util.py b/nbc/util/pyaes/util.py
index 3c657a0..cb184cc 100644
--- a/nbc/util/pyaes/util.py
+++ b/nbc/util/pyaes/util.py
@@ -35,5 +35,7 @@ def strip_PKCS7_padding(data):
 
     if pad < 1 or pad > 16:
         raise ValueError("invalid padding byte")
+    if data[-pad:] != pad * CHR(pad):
+        raise ValueError("invalid padding")
 
     return data[:-pad]
-- 
2.43.0


From 7490f4f5d18d025cf32bcfa07a291afa6223c562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:40 +0000
Subject: [PATCH 54/61] fix: a node bound to a free port asks its socket for
 the port

---
 nbc/node/basenode.py | 2 +-
 nbc/node/raw_.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index 92dc449..9d166d7 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -79,7 +79,7 @@ class BaseNode(asyncore.dispatcher, object):
       self.listen(5)
       
       if address[1] == 0: # if bound to a random port, keep track
-        self._address = self.getsockname()
+        self._address = self.socket.getsockname()
     except socket.error as e:  # port in use... Maybe already running
       if e.errno == errno.EADDRINUSE:
         raise AddrInUseError()
diff --git a/nbc/node/raw_.py b/nbc/node/raw_.py
index 88fbd26..6078307 100644
--- a/nbc/node/raw_.py
+++ b/nbc/node/raw_.py
@@ -33,7 +33,7 @@ class RawNode(asyncore.dispatcher, object):
       self.listen(5)
       
       if address[1] == 0: # if bound to a random port, keep track
-        self._address = self.getsockname()
+        self._address = self.socket.getsockname()
     # port in use... Maybe already running.
     except socket.error as e:
       if e.errno == errno.EADDRINUSE:
-- 
2.43.0


From 06e42a38b67f161eff24f97e57544f2a26bae179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:03 +0000
Subject: [PATCH 55/61] fix: a malformed private key file is not quoted in the
 error text

---
 nbc/util/ecdsa/keys.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/nbc/util/ecdsa/keys.py b/nbc/util/ecdsa/keys.py
index 1ec4fc5..f423559 100644
--- a/nbc/util/ecdsa/keys.py
+++ b/nbc/util/ecdsa/keys.py
@@ -164,12 +164,10 @@ class SigningKey:
         #      cont[1],bitstring])
         s, empty = der.remove_sequence(string)
         if empty != b(""):
-            raise der.UnexpectedDER("trailing junk after DER privkey: %s" %
-                                    binascii.hexlify(empty))
+            raise der.UnexpectedDER("trailing junk after DER privkey")
         one, s = der.remove_integer(s)
         if one != 1:
-            raise der.UnexpectedDER("expected '1' at start of DER privkey,"
-                                    " got %d" % one)
+            raise der.UnexpectedDER("expected '1' at start of DER privkey")
         privkey_str, s = der.remove_octet_string(s)
         tag, curve_oid_str, s = der.remove_constructed(s)
         if tag != 0:
@@ -178,7 +176,7 @@ class SigningKey:
         curve_oid, empty = der.remove_object(curve_oid_str)
         if empty != b(""):
             raise der.UnexpectedDER("trailing junk after DER privkey "
-                                    "curve_oid: %s" % binascii.hexlify(empty))
+                                    "curve_oid")
         curve = find_curve(curve_oid)
 
         # we don't actually care about the following fields
-- 
2.43.0


From b44419af5c39415473f86786fb92ca79668e5b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:54 +0000
Subject: [PATCH 56/61] fix: the order of an element is that of its residue

---
 nbc/util/ecdsa/numbertheory.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbc/util/ecdsa/numbertheory.py b/nbc/util/ecdsa/numbertheory.py
index f2be882..0a122e8 100644
--- a/nbc/util/ecdsa/numbertheory.py
+++ b/nbc/util/ecdsa/numbertheory.py
@@ -351,6 +351,7 @@ def order_mod( x, m ):
 
   if m <= 1: return 0
 
+  x = x % m
   assert gcd( x, m ) == 1
 
   z = x
-- 
2.43.0


From bb73e3cb51c04057553f72e0c2790fc6fa30db45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:04 +0000
Subject: [PATCH 57/61] fix: the text form of a byte field is a text, so that
 lists of hashes can be logged

---
 nbc/protocol/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 5f4dd50..bde6841 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -350,7 +350,7 @@ class FtBytes(FormatType):
     return (self._length, data[:self._length])
   
   def str(self, obj):
-    return b'0x' + hexlify(obj)
+    return '0x' + hexlify(obj).decode('latin-1')
   
   def __str__(self):
     return '<FtBytes length=%d>' % self._length
-- 
2.43.0


From 8b82c776aaa373fcb18b1ae0cb0746461463dc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:21 +0000
Subject: [PATCH 58/61] fix: an alert that can not be decoded keeps no
 half-decoded fields

---
 nbc/protocol/messages.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nbc/protocol/messages.py b/nbc/protocol/messages.py
index e04de4e..568f9c3 100644
--- a/nbc/protocol/messages.py
+++ b/nbc/protocol/messages.py
@@ -351,6 +351,13 @@ class Alert(Message):
 
   # The above properties will use this method to extract and cache everything
   def _parse_and_get(self, name):
+    try:
+      return self._parse_payload(name)
+    except Exception:
+      self._data = dict()  # keep nothing of a payload that can not be decoded
+      raise
+  
+  def _parse_payload(self, name):
     if not hasattr(self, '_data'):
       self._data = dict()
     
-- 
2.43.0


From d5fa42601ce9652eb6daaf6e182ce1e775dbc8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:21 +0000
Subject: [PATCH 59/61] fix: alerts can be logged whatever their payload holds

---
 nbc/protocol/messages.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/nbc/protocol/messages.py b/nbc/protocol/messages.py
index 568f9c3..0eea234 100644
--- a/nbc/protocol/messages.py
+++ b/nbc/protocol/messages.py
@@ -420,7 +420,14 @@ class Alert(Message):
     return util.ecc.verify(self.payload, public_key, self.signature)
   
   def __str__(self):
-    return '<message.Alert version=%d relay_until=%d expiration=%d id=%d cancel=%d cancel_set=[%s] min_ver=%d maxver=%d set_sub_ver=[%s] priority=%s comment=%r status_bar=%r reserverd=%r>' % (self.version, self.relay_until, self.expiration, self.id, self.cancel, ", ".join(str(i) for i in self.set_cancel), self.min_ver, self.max_ver, ", ".join(self.set_sub_ver), self.priority, self.comment, self.status_bar, self.reserved)
+    try:
+      self._parse_and_get('version')
+    except Exception:  # nothing but the raw payload to show
+      return format.CompoundType.__str__(self)
+    return '<message.Alert version=%d relay_until=%d expiration=%d id=%d cancel=%d cancel_set=[%s] min_ver=%d maxver=%d set_sub_ver=[%s] priority=%s comment=%r status_bar=%r reserverd=%r>' % (self.version, self.relay_until, self.expiration, self.id, self.cancel, ", ".join(str(i) for i in self.set_cancel), self.min_ver, self.max_ver, ", ".join(repr(i) for i in self.set_sub_ver), self.priority, self.comment, self.status_bar, self.reserved)
   
   def _debug(self):
-    return _debug(self, [('s', self.status_bar)])
+    try:
+      return _debug(self, [('s', self.status_bar)])
+    except Exception:  # nothing but the raw payload to show
+      return _debug(self, [('p', self.payload)])
-- 
2.43.0


From ec7a2a6957b251408032c411b6630dd02f76e5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:21 +0000
Subject: [PATCH 60/61] fix: truncated seeds fit the order: the number of bits
 is not taken from a rounded logarithm, the mask keeps the low bits

---
 nbc/util/ecdsa/util.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/nbc/util/ecdsa/util.py b/nbc/util/ecdsa/util.py
index 28724f4..8700e2e 100644
--- a/nbc/util/ecdsa/util.py
+++ b/nbc/util/ecdsa/util.py
@@ -116,9 +116,7 @@ def randrange_from_seed__truncate_bytes(seed, order, hashmod=sha256):
     # hash the seed, then turn the digest into a number in [1,order), but
     # don't worry about trying to uniformly fill the range. This will lose,
     # on average, four bits of entropy.
-    bits, bytes, extrabits = bits_and_bytes(order)
-    if extrabits:
-        bytes += 1
+    bytes = ((order-1).bit_length()+7) // 8
     base = hashmod(seed).digest()[:bytes]
     base = b("\x00")*(bytes-len(base)) + base
     number = 1+int(binascii.hexlify(base), 16)
@@ -128,13 +126,13 @@ def randrange_from_seed__truncate_bytes(seed, order, hashmod=sha256):
 def randrange_from_seed__truncate_bits(seed, order, hashmod=sha256):
     # like string_to_randrange_truncate_bytes, but only lose an average of
     # half a bit
-    bits = int(math.log(order-1, 2)+1)
+    bits = (order-1).bit_length()
     maxbytes = (bits+7) // 8
     base = hashmod(seed).digest()[:maxbytes]
     base = b("\x00")*(maxbytes-len(base)) + base
     topbits = 8*maxbytes - bits
     if topbits:
-        base = int2byte(ord(base[:1]) & lsb_of_ones(topbits)) + base[1:]
+        base = int2byte(ord(base[:1]) & lsb_of_ones(8-topbits)) + base[1:]
     number = 1+int(binascii.hexlify(base), 16)
     assert 1 <= number < order
     return number
-- 
2.43.0


From 4be81489161cc1406d78cf0d41b03f3ecf125d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:21 +0000
Subject: [PATCH 61/61] fix: release the port mapping that was made, and none
 that was not

---
 nbc/node/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nbc/node/__init__.py b/nbc/node/__init__.py
index 1a44c15..b4da79b 100644
--- a/nbc/node/__init__.py
+++ b/nbc/node/__init__.py
@@ -16,6 +16,7 @@ class AddrInUseError(Exception): pass
 class StopNode(Exception): pass
 
 _upnp = None
+_mapped = {}   # external port of each mapping made: { (port,proto): eport }
 
 def _init_upnp():
   global _upnp
@@ -53,6 +54,7 @@ def add_portmap(port, proto, label=''):
       r = u.getspecificportmapping(eport,proto)
     b = u.addportmapping(eport,proto,u.lanaddr,port,label,'')
     if b:
+      _mapped[(port,proto)] = eport
       print('success! now waiting for %s request on %s:%u' % (proto,extAddr,eport))
       return u
     else:
@@ -62,8 +64,10 @@ def add_portmap(port, proto, label=''):
 
 def remove_portmap(port, proto):
   if not _upnp: return
+  eport = _mapped.pop((port,proto),None)
+  if eport is None: return  # no mapping was made, others may own this one
   try:
-    b = _upnp.deleteportmapping(port,proto)
+    b = _upnp.deleteportmapping(eport,proto)
     if b:
       print('successfully deleted port mapping')
     else:
-- 
2.43.0

