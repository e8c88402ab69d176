From 613014af6d0357f76311b7a3ce1525ba69abc50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:56 +0000
Subject: [PATCH 01/84] fix: V5 broker adds a queued message to the outbound
 list only once

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index a75c9a0..12a3924 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -163,8 +163,7 @@ class MQTTClients:
 
   def sendQueued(self):
     while len(self.queued) > 0 and len(self.outbound) < self.receiveMaximum:
-      self.outbound.append(self.queued.pop(0))
-      self.sendFirst(self.outbound[-1])
+      self.sendFirst(self.queued.pop(0))
 
   def publishArrived(self, topic, msg, qos, properties, receivedTime, retained=False):
     pub = MQTTV5.Publishes()
-- 
2.43.0


From 797ce99eecaf27f14fcd2b603561dd5c750fff60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 02/84] fix: V5 broker gives each subscriber its own copy of
 the message properties

---
 interoperability/mqtt/brokers/V5/Brokers.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/Brokers.py b/interoperability/mqtt/brokers/V5/Brokers.py
index 831c6a8..90ea328 100644
--- a/interoperability/mqtt/brokers/V5/Brokers.py
+++ b/interoperability/mqtt/brokers/V5/Brokers.py
@@ -16,11 +16,11 @@
 *******************************************************************
 """
 
-import types, time, logging, random
+import types, time, logging, random, copy
 
 from . import Topics
 from .SubscriptionEngines import SubscriptionEngines
-from mqtt.formats.MQTTV5 import ProtocolError
+from mqtt.formats.MQTTV5 import ProtocolError, Properties, PacketTypes
 
 logger = logging.getLogger('MQTT broker')
 
@@ -122,17 +122,19 @@ class Brokers:
     """
 
     def publishAction(options, subsprops, subsids=None):
-      if hasattr(properties, "SubscriptionIdentifier"):
-        delattr(properties, "SubscriptionIdentifier")
+      # each subscriber has its own subscription ids, topic aliases and remaining expiry
+      outproperties = copy.deepcopy(properties) if properties else Properties(PacketTypes.PUBLISH)
+      if hasattr(outproperties, "SubscriptionIdentifier"):
+        delattr(outproperties, "SubscriptionIdentifier")
       if subsids or hasattr(subsprops, "SubscriptionIdentifier"):
         if subsids:
           for subsid in subsids:
-            properties.SubscriptionIdentifier = subsid
+            outproperties.SubscriptionIdentifier = subsid
         else:
-          properties.SubscriptionIdentifier = subsprops.SubscriptionIdentifier[0]
+          outproperties.SubscriptionIdentifier = subsprops.SubscriptionIdentifier[0]
       out_qos = min(options.QoS, qos)
       outretain = retained if options.retainAsPublished else False
-      self.__clients[subscriber].publishArrived(topic, message, out_qos, properties, receivedTime, outretain)
+      self.__clients[subscriber].publishArrived(topic, message, out_qos, outproperties, receivedTime, outretain)
 
     # topic alias
     if hasattr(properties, "TopicAlias"):
@@ -236,6 +238,7 @@ class Brokers:
             properties = None
           else:
             (ret_msg, ret_qos, receivedTime, properties) = retained_message
+          properties = copy.deepcopy(properties) if properties else None
           thisqos = min(ret_qos, subsoptions[i].QoS)
           self.__clients[aClientid].publishArrived(s, ret_msg, thisqos, properties, receivedTime, True)
       i += 1
-- 
2.43.0


From 8ef1e13e2861adcd0581323d3cb5ce0385e3838c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 03/84] fix: V5 broker counts message expiry down from the
 original interval on every transmission

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 12a3924..14e0214 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -29,6 +29,7 @@ mybroker = None
 
 def respond(sock, packet, maximumPacketSize=500):
   # deal with expiry
+  expiryInterval = None
   if packet.fh.PacketType == MQTTV5.PacketTypes.PUBLISH:
     if hasattr(packet.properties, "MessageExpiryInterval"):
       timespent = int(time.monotonic() - packet.receivedTime)
@@ -38,10 +39,13 @@ def respond(sock, packet, maximumPacketSize=500):
       else:
         try:
           logger.info("[MQTT-3.3.2-6] Message Expiry Interval set to received value minus time waiting in the server")
+          expiryInterval = packet.properties.MessageExpiryInterval
           packet.properties.MessageExpiryInterval -= timespent
         except:
           traceback.print_exc()
   packed = packet.pack()
+  if expiryInterval != None:
+    packet.properties.MessageExpiryInterval = expiryInterval # for any later retransmission
   # deal with packet size
   packlen = len(packed)
   if packlen > maximumPacketSize:
-- 
2.43.0


From b794b9e6a4a85b8b63ff61b3869ec1d1876a500d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 04/84] fix: V5 broker frees the receive maximum slot of a
 discarded message and assigns topic aliases when a message is sent

---
 .../mqtt/brokers/V5/MQTTBrokers.py            | 50 ++++++++++++-------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 14e0214..6e63097 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -28,6 +28,7 @@ logger = logging.getLogger('MQTT broker')
 mybroker = None
 
 def respond(sock, packet, maximumPacketSize=500):
+  "returns False if the packet was discarded"
   # deal with expiry
   expiryInterval = None
   if packet.fh.PacketType == MQTTV5.PacketTypes.PUBLISH:
@@ -35,7 +36,7 @@ def respond(sock, packet, maximumPacketSize=500):
       timespent = int(time.monotonic() - packet.receivedTime)
       if timespent >= packet.properties.MessageExpiryInterval:
         logger.info("[MQTT-3.3.2-5] Delete expired message")
-        return
+        return False
       else:
         try:
           logger.info("[MQTT-3.3.2-6] Message Expiry Interval set to received value minus time waiting in the server")
@@ -51,7 +52,7 @@ def respond(sock, packet, maximumPacketSize=500):
   if packlen > maximumPacketSize:
     logger.error("[MQTT5-3.1.2-24] Packet too big to send to client packet size %d max packet size %d" % (packlen, maximumPacketSize))
     logger.info("[MQTT5-3.1.2-25] message must be discarded and behave as if it had been sent")
-    return
+    return False
   if hasattr(sock, "fileno"):
     packet_string = str(packet)
     if len(packet_string) > 256:
@@ -81,6 +82,7 @@ def respond(sock, packet, maximumPacketSize=500):
         assert bytes_sent == len(packed)
     except:
       traceback.print_exc()
+  return True
 
 class MQTTClients:
 
@@ -118,23 +120,45 @@ class MQTTClients:
     self.topicAliasMaximum = 0 # for server topic aliases
     self.outgoingTopicNamesToAliases = []
 
+  def sendPub(self, pub):
+    topic, newAlias = pub.topicName, False
+    if hasattr(pub.properties, 'TopicAlias'):
+      del pub.properties.TopicAlias
+    # Topic alias
+    if self.topicAliasMaximum == 0:
+      logger.info("[MQTT5-3.1.2-27] if topic alias is 0, no topic aliases must be sent")
+    if topic in self.outgoingTopicNamesToAliases:
+      pub.properties.TopicAlias = self.outgoingTopicNamesToAliases.index(topic) + 1 # Topic aliases start at 1
+      pub.topicName = ""
+    elif len(self.outgoingTopicNamesToAliases) < self.topicAliasMaximum:
+      logger.info("[MQTT5-3.1.2-26] Server must not send topic alias > max")
+      newAlias = True
+      pub.properties.TopicAlias = len(self.outgoingTopicNamesToAliases) + 1 # include topic name as well as alias first time
+    sent = respond(self.socket, pub, self.maximumPacketSize)
+    pub.topicName = topic
+    if sent and newAlias:
+      self.outgoingTopicNamesToAliases.append(topic)       # add alias
+    if not sent and pub in self.outbound: # discarded, so there will be no acknowledgement
+      self.outbound.remove(pub)
+      del self.outmsgs[pub.packetIdentifier]
+
   def resendPub(self, pub):
     logger.debug("resending %s", str(pub))
     logger.info("[MQTT-4.4.0-2] dup flag must be set on in re-publish")
     if pub.fh.QoS == 0:
-      respond(self.socket, pub, self.maximumPacketSize)
+      self.sendPub(pub)
     elif pub.fh.QoS == 1:
       logger.info("[MQTT-2.1.2-3] Dup when resending QoS 1 publish id %d", pub.packetIdentifier)
       logger.info("[MQTT-2.3.1-4] Message id same as original publish on resend")
       logger.info("[MQTT-4.3.2-1] Resending QoS 1 with DUP flag")
-      respond(self.socket, pub, self.maximumPacketSize)
+      self.sendPub(pub)
       pub.fh.DUP = 1
     elif pub.fh.QoS == 2:
       if pub.qos2state == "PUBREC":
         logger.info("[MQTT-2.1.2-3] Dup when resending QoS 2 publish id %d", pub.packetIdentifier)
         logger.info("[MQTT-2.3.1-4] Message id same as original publish on resend")
         logger.info("[MQTT-4.3.3-1] Resending QoS 2 with DUP flag")
-        respond(self.socket, pub, self.maximumPacketSize)
+        self.sendPub(pub)
         pub.fh.DUP = 1
       else:
         resp = MQTTV5.Pubrels()
@@ -146,7 +170,7 @@ class MQTTClients:
     logger.debug("resending unfinished publications %s", str(self.outbound))
     if len(self.outbound) > 0:
       logger.info("[MQTT-4.4.0-1] resending inflight QoS 1 and 2 messages")
-    for pub in self.outbound:
+    for pub in self.outbound[:]: # a discarded message is removed
       self.resendPub(pub)
     self.sendQueued()
 
@@ -161,7 +185,7 @@ class MQTTClients:
       self.outbound.append(pub)
       self.outmsgs[pub.packetIdentifier] = pub
       logger.info("[MQTT-4.6.0-6] publish packets must be sent in order of receipt from any given client")
-    respond(self.socket, pub, self.maximumPacketSize)
+    self.sendPub(pub)
     if pub.fh.QoS > 0:
       pub.fh.DUP = 1
 
@@ -176,17 +200,7 @@ class MQTTClients:
         del properties.TopicAlias
       pub.properties = properties
     logger.info("[MQTT-3.2.3-3] topic name must match the subscription's topic filter")
-    # Topic alias
-    if self.topicAliasMaximum == 0:
-      logger.info("[MQTT5-3.1.2-27] if topic alias is 0, no topic aliases must be sent") 
-    if len(self.outgoingTopicNamesToAliases) < self.topicAliasMaximum and not topic in self.outgoingTopicNamesToAliases:
-      logger.info("[MQTT5-3.1.2-26] Server must not send topic alias > max") 
-      self.outgoingTopicNamesToAliases.append(topic)       # add alias
-      pub.topicName = topic # include topic name as well as alias first time
-    if topic in self.outgoingTopicNamesToAliases:
-      pub.properties.TopicAlias = self.outgoingTopicNamesToAliases.index(topic) + 1 # Topic aliases start at 1
-    else:
-      pub.topicName = topic
+    pub.topicName = topic
     pub.data = msg
     pub.fh.QoS = qos
     pub.fh.RETAIN = retained
-- 
2.43.0


From 44bcd8b32008672efc40150b8b469dd2ebf59f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:58 +0000
Subject: [PATCH 05/84] fix: V5 broker respects the receive maximum when it
 resends messages to a returning client

---
 .../mqtt/brokers/V5/MQTTBrokers.py            | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 6e63097..3b8fdcb 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -104,6 +104,7 @@ class MQTTClients:
     self.queued = [] # queued message objects
     self.outbound = [] # message objects - for ordering
     self.outmsgs = {} # msgids to message objects
+    self.resending = [] # outbound message objects still to be resent on this connection
     # inbound messages
     if broker.options["publish_on_pubrel"]:
       self.inbound = {} # stored inbound QoS 2 publications
@@ -139,8 +140,13 @@ class MQTTClients:
     if sent and newAlias:
       self.outgoingTopicNamesToAliases.append(topic)       # add alias
     if not sent and pub in self.outbound: # discarded, so there will be no acknowledgement
-      self.outbound.remove(pub)
-      del self.outmsgs[pub.packetIdentifier]
+      self.removeOutbound(pub)
+
+  def removeOutbound(self, pub):
+    self.outbound.remove(pub)
+    del self.outmsgs[pub.packetIdentifier]
+    if pub in self.resending:
+      self.resending.remove(pub)
 
   def resendPub(self, pub):
     logger.debug("resending %s", str(pub))
@@ -170,8 +176,7 @@ class MQTTClients:
     logger.debug("resending unfinished publications %s", str(self.outbound))
     if len(self.outbound) > 0:
       logger.info("[MQTT-4.4.0-1] resending inflight QoS 1 and 2 messages")
-    for pub in self.outbound[:]: # a discarded message is removed
-      self.resendPub(pub)
+    self.resending = self.outbound[:]
     self.sendQueued()
 
   def sendFirst(self, pub):
@@ -190,6 +195,9 @@ class MQTTClients:
       pub.fh.DUP = 1
 
   def sendQueued(self):
+    # the receive maximum may be less than it was when the outbound messages were first sent
+    while len(self.resending) > 0 and len(self.outbound) - len(self.resending) < self.receiveMaximum:
+      self.resendPub(self.resending.pop(0))
     while len(self.queued) > 0 and len(self.outbound) < self.receiveMaximum:
       self.sendFirst(self.queued.pop(0))
 
@@ -223,8 +231,7 @@ class MQTTClients:
     if msgid in self.outmsgs.keys():
       pub = self.outmsgs[msgid]
       if pub.fh.QoS == 1:
-        self.outbound.remove(pub)
-        del self.outmsgs[msgid]
+        self.removeOutbound(pub)
         self.sendQueued()
       else:
         logger.error("%s: Puback received for msgid %d, but QoS is %d", self.id, msgid, pub.fh.QoS)
@@ -252,8 +259,7 @@ class MQTTClients:
       pub = self.outmsgs[msgid]
       if pub.fh.QoS == 2:
         if pub.qos2state == "PUBCOMP":
-          self.outbound.remove(pub)
-          del self.outmsgs[msgid]
+          self.removeOutbound(pub)
           self.sendQueued()
         else:
           logger.error("Pubcomp received for msgid %d, but message in wrong state", msgid)
-- 
2.43.0


From 81128b458e2a01acd214c14fab96514aa651b0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:58 +0000
Subject: [PATCH 06/84] fix: V5 broker publishes the will when a client
 disconnects with a reason other than normal disconnection

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 3b8fdcb..46b41aa 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -547,6 +547,8 @@ class MQTTBrokers:
         raise MQTTV5.ProtocolError("[MQTT-3.1.0-2] Can't reset SessionExpiryInterval from 0")
       else:
         me.sessionExpiryInterval = packet.properties.SessionExpiryInterval
+    if packet and packet.fh.PacketType == MQTTV5.PacketTypes.DISCONNECT and packet.reasonCode.value != 0:
+      sendWillMessage = True # only a normal disconnection removes the will
     if reasonCode:
       resp = MQTTV5.Disconnects(reasonCode=reasonCode) # reasonCode is text
       if properties:
-- 
2.43.0


From 5675b884b226f4b514ec9347b8c0142047ba8730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:58 +0000
Subject: [PATCH 07/84] fix: V5 broker closes connections whose first packet is
 not a CONNECT, or is an invalid one

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 46b41aa..9bf4cbc 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -539,6 +539,9 @@ class MQTTBrokers:
 
   def disconnect(self, sock, packet=None, sendWillMessage=False, reasonCode=None, properties=None):
     logger.info("[MQTT-3.14.4-2] Client must not send any more packets after disconnect")
+    if sock not in self.clients.keys(): # not connected yet, so no DISCONNECT can be sent
+      self.close(sock)
+      return
     me = self.clients[sock]
     me.clearTopicAliases()
     # Session expiry
@@ -558,6 +561,9 @@ class MQTTBrokers:
       self.broker.disconnect(me.id, willMessage=sendWillMessage,
           sessionExpiryInterval=me.sessionExpiryInterval)
       del self.clients[sock]
+    self.close(sock)
+
+  def close(self, sock):
     try:
       sock.shutdown(socket.SHUT_RDWR) # must call shutdown to close socket immediately
     except:
-- 
2.43.0


From 13750cce7153e4e4a567bdb2b7e3369d547fedd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:58 +0000
Subject: [PATCH 08/84] fix: V5 broker disconnects a client with a valid reason
 code when it exceeds the receive maximum or breaks the protocol

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 9bf4cbc..da08a97 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -443,9 +443,8 @@ class MQTTBrokers:
       return
     logger.info("[MQTT5-3.1.2-2] Protocol version must be 5")
     if sock in self.clients.keys():    # is socket is already connected?
-      self.disconnect(sock, None)
       logger.info("[MQTT5-3.1.4-6] When rejecting connect, no more data must be processed")
-      raise MQTTV5.MQTTException("[MQTT5-3.1.0-2] Second connect packet")
+      raise MQTTV5.ProtocolError("Protocol error", "[MQTT5-3.1.0-2] Second connect packet")
     if len(packet.ClientIdentifier) == 0:
       packet.ClientIdentifier = str(uuid.uuid4()) # give the client a unique clientid
       logger.info("[MQTT5-3.1.3-6] 0-length clientid must be assigned a unique id %s", packet.ClientIdentifier)
@@ -547,7 +546,7 @@ class MQTTBrokers:
     # Session expiry
     if packet and hasattr(packet.properties, "SessionExpiryInterval"):
       if me.sessionExpiryInterval == 0 and packet.properties.SessionExpiryInterval > 0:
-        raise MQTTV5.ProtocolError("[MQTT-3.1.0-2] Can't reset SessionExpiryInterval from 0")
+        raise MQTTV5.ProtocolError("Protocol error", "[MQTT-3.1.0-2] Can't reset SessionExpiryInterval from 0")
       else:
         me.sessionExpiryInterval = packet.properties.SessionExpiryInterval
     if packet and packet.fh.PacketType == MQTTV5.PacketTypes.DISCONNECT and packet.reasonCode.value != 0:
@@ -627,14 +626,15 @@ class MQTTBrokers:
   def publish(self, sock, packet):
     packet.receivedTime = time.monotonic()
     if packet.topicName.find("+") != -1 or packet.topicName.find("#") != -1:
-      raise MQTTV5.AcksProtocolError("Topic name invalid %s" % packet.topicName)
+      raise MQTTV5.AcksProtocolError("Topic name invalid", packet.topicName)
     # Test Topic to disconnect the client
     if packet.topicName.startswith("cmd/"):
         self.handleBehaviourPublish(sock, packet.topicName, packet.data)
     else:
-        if packet.fh.QoS > 0 and len(self.clients[sock].inbound) >= self.options["receiveMaximum"]:
-          self.disconnect(sock, reasonCode="Receive maximum of %d exceeded: %d" % 
-             (self.options["receiveMaximum"], len(self.clients[sock].inbound)+1), sendWillMessage=True)
+        if packet.fh.QoS > 0 and len(self.clients[sock].inbound) >= self.options["receiveMaximum"] and \
+          not (packet.fh.QoS == 2 and packet.packetIdentifier in self.clients[sock].inbound): # a retransmission uses no quota
+          logger.info("Receive maximum of %d exceeded: %d", self.options["receiveMaximum"], len(self.clients[sock].inbound)+1)
+          self.disconnect(sock, reasonCode="Receive maximum exceeded", sendWillMessage=True)
           return
         if hasattr(packet.properties, "UserProperty") and len(packet.properties.UserProperty) > 1:
           logger.info("[MQTT-3.1.3-10] Must maintain order of user properties")
-- 
2.43.0


From 4dcf85c5eb80fa7b75a0f7d424d4199295bd3ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:58 +0000
Subject: [PATCH 09/84] fix: V5 broker disconnects a client whose packet cannot
 be handled, whatever the exception

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index da08a97..1fe37f6 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -400,6 +400,10 @@ class MQTTBrokers:
           self.disconnect(sock, reasonCode=error.args[0], properties=disconnect_properties,
                           sendWillMessage=True)
           terminate = True
+        except Exception: # the packet can't be handled, so the connection can't continue
+          traceback.print_exc()
+          self.disconnect(sock, reasonCode="Malformed packet", sendWillMessage=True)
+          terminate = True
     finally:
       self.lock.release()
     return terminate
-- 
2.43.0


From fe9c09f26130d2f5de20776f117cb53d53531821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 10/84] fix: V5 broker clean up thread holds the lock, survives
 errors and removes expired sessions

---
 interoperability/mqtt/brokers/V5/Brokers.py   |  9 ++++++++
 .../mqtt/brokers/V5/MQTTBrokers.py            | 22 ++++++++++++-------
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/Brokers.py b/interoperability/mqtt/brokers/V5/Brokers.py
index 90ea328..51ebd4c 100644
--- a/interoperability/mqtt/brokers/V5/Brokers.py
+++ b/interoperability/mqtt/brokers/V5/Brokers.py
@@ -104,6 +104,15 @@ class Brokers:
         self.__clients[aClientid].sessionEndedTime = time.monotonic()
         self.__clients[aClientid].connected = False
 
+  def expireSessions(self):
+    "end the sessions of disconnected clients for which the session expiry interval has passed"
+    for clientid, client in list(self.__clients.items()):
+      if not client.connected and time.monotonic() - client.sessionEndedTime > client.sessionExpiryInterval:
+        if clientid in self.willMessageClients:
+          self.sendWillMessage(clientid) # the will delay ends with the session
+        self.cleanSession(clientid)
+        del self.__clients[clientid]
+
   def disconnectAll(self):
     for c in self.__clients.keys()[:]: # copy the array because disconnect will remove an element
       self.disconnect(c)
diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 1fe37f6..f96743b 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -301,15 +301,21 @@ class cleanupThreads(threading.Thread):
     self.running = True
     while self.running:
       time.sleep(1)
-      # will delay
       if self.lock:
         self.lock.acquire()
-      for clientid in self.broker.willMessageClients.copy():
-        client = self.broker.getClient(clientid)
-        if client and time.monotonic() >= client.delayedWillTime:
-          self.broker.sendWillMessage(clientid)
-      if self.lock:
-        self.lock.release()
+      try:
+        # will delay
+        for clientid in self.broker.willMessageClients.copy():
+          client = self.broker.getClient(clientid)
+          if client and client.delayedWillTime != None and time.monotonic() >= client.delayedWillTime:
+            self.broker.sendWillMessage(clientid)
+        # session expiry
+        self.broker.expireSessions()
+      except:
+        traceback.print_exc()
+      finally:
+        if self.lock:
+          self.lock.release()
 
   def stop(self):
     self.running = False
@@ -331,7 +337,7 @@ class MQTTBrokers:
     else:
       self.lock = threading.RLock()
 
-    self.cleanupThread = cleanupThreads(self.broker)
+    self.cleanupThread = cleanupThreads(self.broker, self.lock)
 
     logger.info("MQTT 5.0 Paho Test Broker")
     logger.info("Options %s", self.options)
-- 
2.43.0


From 42083b4103953f59e41656ff1a29877189773f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 11/84] fix: brokers hold the lock while they check keep alives
 and shut down

---
 .../mqtt/brokers/V311/MQTTBrokers.py           | 18 ++++++++++--------
 .../mqtt/brokers/V5/MQTTBrokers.py             | 16 +++++++++-------
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/MQTTBrokers.py b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
index 4375afa..df4ddfd 100644
--- a/interoperability/mqtt/brokers/V311/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
@@ -205,7 +205,8 @@ class MQTTBrokers:
     logger.info("Optional behaviour, support zero length clientids: %s", self.zero_length_clientids)
 
   def shutdown(self):
-    self.disconnectAll()
+    with self.lock:
+      self.disconnectAll()
 
   def setBroker5(self, broker5):
     self.broker.setBroker5(broker5.broker)
@@ -252,7 +253,7 @@ class MQTTBrokers:
     else:
       getattr(self, MQTTV3.packetNames[packet.fh.MessageType].lower())(sock, packet)
       if sock in self.clients.keys():
-        self.clients[sock].lastPacket = time.time()
+        self.clients[sock].lastPacket = time.monotonic()
     if packet.fh.MessageType == MQTTV3.DISCONNECT:
       terminate = True
     return terminate
@@ -461,9 +462,10 @@ class MQTTBrokers:
     self.clients[sock].pubcomp(packet.messageIdentifier)
 
   def keepalive(self, sock):
-    if sock in self.clients.keys():
-      client = self.clients[sock]
-      if client.keepalive > 0 and time.time() - client.lastPacket > client.keepalive * 1.5:
-        # keep alive timeout
-        logger.info("[MQTT-3.1.2-22] keepalive timeout for client %s", client.id)
-        self.disconnect(sock, None, terminate=True)
+    with self.lock:
+      if sock in self.clients.keys():
+        client = self.clients[sock]
+        if client.keepalive > 0 and time.monotonic() - client.lastPacket > client.keepalive * 1.5:
+          # keep alive timeout
+          logger.info("[MQTT-3.1.2-22] keepalive timeout for client %s", client.id)
+          self.disconnect(sock, None, terminate=True)
diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index f96743b..8a55c8a 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -348,8 +348,9 @@ class MQTTBrokers:
       self.mscfile.write("msc {\n broker;\n")
 
   def shutdown(self):
-    self.disconnectAll(reasonCode="Server shutting down")
     self.cleanupThread.stop()
+    with self.lock:
+      self.disconnectAll(reasonCode="Server shutting down")
 
   def setBroker3(self, broker3):
     self.broker.setBroker3(broker3.broker)
@@ -785,9 +786,10 @@ class MQTTBrokers:
     self.clients[sock].pubcomp(packet.packetIdentifier)
 
   def keepalive(self, sock):
-    if sock in self.clients.keys():
-      client = self.clients[sock]
-      if client.keepalive > 0 and time.monotonic() - client.lastPacket > client.keepalive * 1.5:
-        # keep alive timeout
-        logger.info("[MQTT5-3.1.2-22] keepalive timeout for client %s", client.id)
-        self.disconnect(sock, None, sendWillMessage=True)
+    with self.lock:
+      if sock in self.clients.keys():
+        client = self.clients[sock]
+        if client.keepalive > 0 and time.monotonic() - client.lastPacket > client.keepalive * 1.5:
+          # keep alive timeout
+          logger.info("[MQTT5-3.1.2-22] keepalive timeout for client %s", client.id)
+          self.disconnect(sock, None, sendWillMessage=True)
-- 
2.43.0


From 69a9b966c959d56959cea01ec22a425e9c2c56e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 12/84] fix: the server_keep_alive configuration option takes
 effect

---
 interoperability/mqtt/brokers/start.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/start.py b/interoperability/mqtt/brokers/start.py
index 8b3ea62..088da55 100644
--- a/interoperability/mqtt/brokers/start.py
+++ b/interoperability/mqtt/brokers/start.py
@@ -71,12 +71,14 @@ def process_config(config, options):
         options["receiveMaximum"] = int(words[1])
       elif words[0] == "topic_alias_maximum":
         options["topicAliasMaximum"] = int(words[1])
+      elif words[0] == "server_keep_alive":
+        options["serverKeepAlive"] = int(words[1])
       elif words[0] in ["maximum_packet_size", "message_size_limit"]:
         options["maximumPacketSize"] = int(words[1])
       elif words[0] == "persistence" and words[1] == "true":
         options["persistence"] = True
       elif words[0] in ["maximum_qos", "retain_available", "subscription_identifier_available",
-              "shared_subscription_available", "server_keep_alive", "visual", "mscfile"]:
+              "shared_subscription_available", "visual", "mscfile"]:
         bools = {"true":True,'false':False}
         result = words[1]
         if words[1] in bools.keys():
@@ -157,7 +159,6 @@ def run(config=None):
     "retain_available":True,
     "subscription_identifier_available":True,
     "shared_subscription_available":True,
-    "server_keep_alive":None,
   }
 
   if config != None:
-- 
2.43.0


From 6f374443d318673e45ece2ee48da309508be56f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 13/84] fix: V311 broker hands publications to the V5 broker,
 which knows all the subscriptions

---
 interoperability/mqtt/brokers/V311/Brokers.py |  4 ++++
 interoperability/mqtt/brokers/V5/Brokers.py   | 12 ++++++++----
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/Brokers.py b/interoperability/mqtt/brokers/V311/Brokers.py
index 143fb78..64cfecb 100644
--- a/interoperability/mqtt/brokers/V311/Brokers.py
+++ b/interoperability/mqtt/brokers/V311/Brokers.py
@@ -100,6 +100,10 @@ class Brokers:
     """publish to all subscribed connected clients
        also to any disconnected non-cleansession clients with qos in [1,2]
     """
+    if self.__broker5:
+      # shared subscriptions, subscription options and ids are known only to the V5 broker
+      self.__broker5.publish(aClientid, topic, message, qos, retained, None, receivedTime)
+      return
     if retained:
       logger.info("[MQTT-2.1.2-6] store retained message and QoS")
       self.se.setRetained(topic, message, qos, receivedTime)
diff --git a/interoperability/mqtt/brokers/V5/Brokers.py b/interoperability/mqtt/brokers/V5/Brokers.py
index 51ebd4c..e7eca00 100644
--- a/interoperability/mqtt/brokers/V5/Brokers.py
+++ b/interoperability/mqtt/brokers/V5/Brokers.py
@@ -211,8 +211,10 @@ class Brokers:
             publishAction(options, subsprops, subsids=subsids)
         else:
           # MQTT V3 subscription
-          out_qos = min(self.__broker3.se.qosOf(subscriber, topic), qos)
-          self.__broker3.getClient(subscriber).publishArrived(topic, message, out_qos)
+          client = self.__broker3.getClient(subscriber)
+          if client: # a subscription can be restored without its session
+            out_qos = min(self.__broker3.se.qosOf(subscriber, topic), qos)
+            client.publishArrived(topic, message, out_qos)
       else:
         for subscription in subscriptions:
           if subscriber in self.__clients.keys():
@@ -221,8 +223,10 @@ class Brokers:
               publishAction(options, subsprops)
           else:
             # MQTT V3 subscription
-            out_qos = min(self.__broker3.se.qosOf(subscriber, topic), qos)
-            self.__broker3.getClient(subscriber).publishArrived(topic, message, out_qos)
+            client = self.__broker3.getClient(subscriber)
+            if client:
+              out_qos = min(subscription.getQoS(), qos)
+              client.publishArrived(topic, message, out_qos)
     return subscribed_clients if len(subscribed_clients) > 0 else None
 
   def __doRetained__(self, aClientid, topic, subsoptions, resubscribeds):
-- 
2.43.0


From 1a4f0115dd37b5c90abc9db7974e37aa49bdd181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 14/84] fix: retained messages are not sent to shared
 subscriptions and carry the subscription identifier

---
 interoperability/mqtt/brokers/V5/Brokers.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/Brokers.py b/interoperability/mqtt/brokers/V5/Brokers.py
index e7eca00..f2454d7 100644
--- a/interoperability/mqtt/brokers/V5/Brokers.py
+++ b/interoperability/mqtt/brokers/V5/Brokers.py
@@ -229,14 +229,16 @@ class Brokers:
               client.publishArrived(topic, message, out_qos)
     return subscribed_clients if len(subscribed_clients) > 0 else None
 
-  def __doRetained__(self, aClientid, topic, subsoptions, resubscribeds):
+  def __doRetained__(self, aClientid, topic, optionsprops, resubscribeds):
     # topic can be single, or a list
     if type(topic) != type([]):
       topic = [topic]
-      suboptions = [subsoptions]
+      optionsprops = [optionsprops]
+    subsoptions = [options for (options, props) in optionsprops]
     i = 0
     for t in topic: # t is a wildcard subscription topic
-      if subsoptions[i].retainHandling == 2 or \
+      if t.startswith('$share/') or \
+        subsoptions[i].retainHandling == 2 or \
         (subsoptions[i].retainHandling == 1 and resubscribeds[i]):
         i += 1
         continue
@@ -251,7 +253,11 @@ class Brokers:
             properties = None
           else:
             (ret_msg, ret_qos, receivedTime, properties) = retained_message
-          properties = copy.deepcopy(properties) if properties else None
+          properties = copy.deepcopy(properties) if properties else Properties(PacketTypes.PUBLISH)
+          if hasattr(properties, "SubscriptionIdentifier"):
+            delattr(properties, "SubscriptionIdentifier")
+          if hasattr(optionsprops[i][1], "SubscriptionIdentifier"):
+            properties.SubscriptionIdentifier = optionsprops[i][1].SubscriptionIdentifier[0]
           thisqos = min(ret_qos, subsoptions[i].QoS)
           self.__clients[aClientid].publishArrived(s, ret_msg, thisqos, properties, receivedTime, True)
       i += 1
@@ -259,7 +265,7 @@ class Brokers:
   def subscribe(self, aClientid, topic, optionsprops):
     rc = self.se.subscribe(aClientid, topic, optionsprops)
     resubscribeds = [resubscribed for (x, resubscribed) in rc]
-    self.__doRetained__(aClientid, topic, [options for (options, props) in optionsprops], resubscribeds)
+    self.__doRetained__(aClientid, topic, optionsprops, resubscribeds)
     return rc
 
   def unsubscribe(self, aClientid, topic):
-- 
2.43.0


From 14b955413a90e1664786e5e2128531c8e8cc6f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 15/84] fix: brokers do not reuse a packet identifier which is
 in flight

---
 interoperability/mqtt/brokers/V311/MQTTBrokers.py | 2 ++
 interoperability/mqtt/brokers/V5/MQTTBrokers.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/interoperability/mqtt/brokers/V311/MQTTBrokers.py b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
index df4ddfd..5f05fee 100644
--- a/interoperability/mqtt/brokers/V311/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
@@ -99,6 +99,8 @@ class MQTTClients:
     if qos == 2:
       pub.qos2state = "PUBREC"
     if qos in [1, 2]:
+      while self.msgid in self.outmsgs.keys() and len(self.outmsgs) < 65535:
+        self.msgid = 1 if self.msgid == 65535 else self.msgid + 1
       pub.messageIdentifier = self.msgid
       logger.debug("client id: %s msgid: %d", self.id, self.msgid)
       if self.msgid == 65535:
diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 8a55c8a..3f00f64 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -181,6 +181,8 @@ class MQTTClients:
 
   def sendFirst(self, pub):
     if pub.fh.QoS in [1, 2]:
+      while self.msgid in self.outmsgs.keys():
+        self.msgid = 1 if self.msgid == MQTTV5.MAX_PACKETID else self.msgid + 1
       pub.packetIdentifier = self.msgid
       logger.debug("client id: %s msgid: %d", self.id, self.msgid)
       if self.msgid == MQTTV5.MAX_PACKETID:
-- 
2.43.0


From 04a5c3c4bb1fe392e209c1bf79a17329052af50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 16/84] fix: V5 broker limits acknowledgements to the client's
 maximum packet size and not to 500 bytes

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 3f00f64..5473f1d 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -27,8 +27,10 @@ logger = logging.getLogger('MQTT broker')
 
 mybroker = None
 
-def respond(sock, packet, maximumPacketSize=500):
+def respond(sock, packet, maximumPacketSize=None):
   "returns False if the packet was discarded"
+  if maximumPacketSize == None:
+    maximumPacketSize = mybroker.clients[sock].maximumPacketSize if sock in mybroker.clients.keys() else MQTTV5.MAX_PACKET_SIZE
   # deal with expiry
   expiryInterval = None
   if packet.fh.PacketType == MQTTV5.PacketTypes.PUBLISH:
@@ -49,6 +51,13 @@ def respond(sock, packet, maximumPacketSize=500):
     packet.properties.MessageExpiryInterval = expiryInterval # for any later retransmission
   # deal with packet size
   packlen = len(packed)
+  if packlen > maximumPacketSize and packet.fh.PacketType != MQTTV5.PacketTypes.PUBLISH:
+    # these properties must be left out if they make the packet too big
+    for name in ["UserProperty", "ReasonString"]:
+      if hasattr(packet, "properties") and hasattr(packet.properties, name):
+        delattr(packet.properties, name)
+    packed = packet.pack()
+    packlen = len(packed)
   if packlen > maximumPacketSize:
     logger.error("[MQTT5-3.1.2-24] Packet too big to send to client packet size %d max packet size %d" % (packlen, maximumPacketSize))
     logger.info("[MQTT5-3.1.2-25] message must be discarded and behave as if it had been sent")
-- 
2.43.0


From 3a02434f31db02e99509c05bf208a950d4114c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 17/84] fix: brokers close a connection when sending to it
 fails

---
 interoperability/mqtt/brokers/V311/MQTTBrokers.py | 5 +++++
 interoperability/mqtt/brokers/V5/MQTTBrokers.py   | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/interoperability/mqtt/brokers/V311/MQTTBrokers.py b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
index 5f05fee..97b8d9d 100644
--- a/interoperability/mqtt/brokers/V311/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
@@ -35,6 +35,11 @@ def respond(sock, packet):
   else:
     try:
       sock.send(packet.pack()) # Could get socket error on send
+    except socket.timeout:
+      try: # the packet may have been sent in part, so nothing can follow it
+        sock.shutdown(socket.SHUT_RDWR)
+      except:
+        pass
     except:
       pass
 
diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 5473f1d..331d796 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -89,6 +89,12 @@ def respond(sock, packet, maximumPacketSize=None):
         assert bytes_sent >= len(packed)
       else:
         assert bytes_sent == len(packed)
+    except socket.timeout:
+      traceback.print_exc()
+      try: # the packet may have been sent in part, so nothing can follow it
+        sock.shutdown(socket.SHUT_RDWR)
+      except:
+        pass
     except:
       traceback.print_exc()
   return True
-- 
2.43.0


From 4c9deefb71708bf4c87d46261738f86fbeec4049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 18/84] fix: V311 broker does not wait forever for the rest of
 a packet while it holds the lock

---
 interoperability/mqtt/brokers/V311/MQTTBrokers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interoperability/mqtt/brokers/V311/MQTTBrokers.py b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
index 97b8d9d..9515433 100644
--- a/interoperability/mqtt/brokers/V311/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
@@ -230,6 +230,7 @@ class MQTTBrokers:
     raw_packet = None
     try:
       try:
+        sock.settimeout(.3)
         raw_packet = MQTTV3.getPacket(sock)
       except:
         pass # handled by raw_packet == None
-- 
2.43.0


From 0651a4c5cc2a16a137d035ca8b3fd254a447afde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 19/84] fix: V311 broker disconnects a client whose packet
 cannot be handled, whatever the exception

---
 interoperability/mqtt/brokers/V311/MQTTBrokers.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/MQTTBrokers.py b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
index 9515433..cf8fcb7 100644
--- a/interoperability/mqtt/brokers/V311/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
@@ -240,11 +240,15 @@ class MQTTBrokers:
         self.disconnect(sock, None, terminate=True)
         terminate = True
       else:
-        packet = MQTTV3.unpackPacket(raw_packet)
-        if packet:
-          terminate = self.handlePacket(packet, sock)
-        else:
-          raise MQTTV3.MQTTException("[MQTT-2.0.0-1] handleRequest: badly formed MQTT packet")
+        try:
+          packet = MQTTV3.unpackPacket(raw_packet)
+          if packet:
+            terminate = self.handlePacket(packet, sock)
+          else:
+            raise MQTTV3.MQTTException("[MQTT-2.0.0-1] handleRequest: badly formed MQTT packet")
+        except:
+          self.disconnect(sock, None, terminate=True)
+          raise
     finally:
       self.lock.release()
     return terminate
@@ -280,7 +284,6 @@ class MQTTBrokers:
       logger.info("[MQTT-3.1.4-5] When rejecting connect, no more data must be processed")
       return
     if sock in self.clients.keys():    # is socket is already connected?
-      self.disconnect(sock, None)
       logger.info("[MQTT-3.1.4-5] When rejecting connect, no more data must be processed")
       raise MQTTV3.MQTTException("[MQTT-3.1.0-2] Second connect packet")
     if len(packet.ClientIdentifier) == 0:
-- 
2.43.0


From c3e379010fea33c1c999bcbad4465a292a00d50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 20/84] fix: V311 broker handles the test/QoS 1 only and
 test/QoS 0 only topics

---
 interoperability/mqtt/brokers/V311/MQTTBrokers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/MQTTBrokers.py b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
index cf8fcb7..2be8ded 100644
--- a/interoperability/mqtt/brokers/V311/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
@@ -364,9 +364,9 @@ class MQTTBrokers:
         respqoss.append(0x80)
       else:
         if p[0] == "test/QoS 1 only":
-          respqoss.append(min(1), p[1])
+          respqoss.append(min(1, p[1]))
         elif p[0] == "test/QoS 0 only":
-          respqoss.append(min(0), p[1])
+          respqoss.append(min(0, p[1]))
         else:
           respqoss.append(p[1])
         topics.append(p[0])
-- 
2.43.0


From ae8f0327461cab13f5afa1afa59451fc4fb73a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 21/84] fix: V311 broker processes all the topics in an
 unsubscribe

---
 interoperability/mqtt/brokers/V311/SubscriptionEngines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/SubscriptionEngines.py b/interoperability/mqtt/brokers/V311/SubscriptionEngines.py
index e6939f8..3829153 100644
--- a/interoperability/mqtt/brokers/V311/SubscriptionEngines.py
+++ b/interoperability/mqtt/brokers/V311/SubscriptionEngines.py
@@ -79,8 +79,8 @@ class SubscriptionEngines:
        if len(aTopic) > 1:
          logger.info("[MQTT-3.10.4-6] each topic must be processed in sequence")
        for t in aTopic:
-         if not matched:
-           matched = self.__unsubscribe(aClientid, t)
+         if self.__unsubscribe(aClientid, t):
+           matched = True
      else:
        matched = self.__unsubscribe(aClientid, aTopic)
      if not matched:
-- 
2.43.0


From 1762e3e4029e736a519140bde37864ec4c7d33bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 22/84] fix: V311 broker passes the client id with a QoS 2
 publication

---
 interoperability/mqtt/brokers/V311/MQTTBrokers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interoperability/mqtt/brokers/V311/MQTTBrokers.py b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
index 2be8ded..9f2cef4 100644
--- a/interoperability/mqtt/brokers/V311/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
@@ -429,7 +429,7 @@ class MQTTBrokers:
         else:
           myclient.inbound.append(packet.messageIdentifier)
           logger.info("[MQTT-4.3.3-2] server must store message in accordance with QoS 2")
-          self.broker.publish(myclient, packet.topicName, packet.data, packet.fh.QoS, packet.fh.RETAIN,
+          self.broker.publish(myclient.id, packet.topicName, packet.data, packet.fh.QoS, packet.fh.RETAIN,
                       packet.receivedTime)
       resp = MQTTV3.Pubrecs()
       logger.info("[MQTT-2.3.1-6] pubrec messge id same as publish")
-- 
2.43.0


From 8d756ade6be2ccd1e6da600724b12da5b1968234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 23/84] fix: topic names are checked when a will is set, and a
 bad shared subscription affects only the client which makes it

---
 interoperability/mqtt/brokers/V311/MQTTBrokers.py | 2 ++
 interoperability/mqtt/brokers/V5/Brokers.py       | 3 +++
 interoperability/mqtt/brokers/V5/MQTTBrokers.py   | 6 ++++++
 interoperability/mqtt/brokers/V5/Topics.py        | 5 +++--
 4 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/MQTTBrokers.py b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
index 9f2cef4..2b358c7 100644
--- a/interoperability/mqtt/brokers/V311/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
@@ -286,6 +286,8 @@ class MQTTBrokers:
     if sock in self.clients.keys():    # is socket is already connected?
       logger.info("[MQTT-3.1.4-5] When rejecting connect, no more data must be processed")
       raise MQTTV3.MQTTException("[MQTT-3.1.0-2] Second connect packet")
+    if packet.WillFlag and (packet.WillTopic.find("+") != -1 or packet.WillTopic.find("#") != -1 or len(packet.WillTopic) == 0):
+      raise MQTTV3.MQTTException("[MQTT-3.3.2-2][MQTT-4.7.1-1] wildcards not allowed in topic name")
     if len(packet.ClientIdentifier) == 0:
       if self.zero_length_clientids == False or packet.CleanSession == False:
         if self.zero_length_clientids:
diff --git a/interoperability/mqtt/brokers/V5/Brokers.py b/interoperability/mqtt/brokers/V5/Brokers.py
index f2454d7..1905df1 100644
--- a/interoperability/mqtt/brokers/V5/Brokers.py
+++ b/interoperability/mqtt/brokers/V5/Brokers.py
@@ -263,6 +263,9 @@ class Brokers:
       i += 1
 
   def subscribe(self, aClientid, topic, optionsprops):
+    for t in topic if type(topic) == type([]) else [topic]:
+      if Topics.isValidTopicName(t) and t.startswith('$share/') and (t.count('/') < 2 or '' in t.split('/', 2)):
+        raise ProtocolError("Topic filter invalid", t)
     rc = self.se.subscribe(aClientid, topic, optionsprops)
     resubscribeds = [resubscribed for (x, resubscribed) in rc]
     self.__doRetained__(aClientid, topic, optionsprops, resubscribeds)
diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 331d796..00eb86e 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -482,6 +482,12 @@ class MQTTBrokers:
       logger.info("[MQTT5-3.1.3-5] Clientids of 1 to 23 chars and ascii alphanumeric must be allowed")
       if False: # reject clientid test
         logger.info("[MQTT5-3.1.3-8] server rejects clientid - may return connack")
+    if packet.WillFlag and (packet.WillTopic.find("+") != -1 or packet.WillTopic.find("#") != -1 or len(packet.WillTopic) == 0):
+      logger.error("Will topic name invalid %s", packet.WillTopic)
+      resp.reasonCode.set("Topic name invalid")
+      respond(sock, resp)
+      self.disconnect(sock, None)
+      return
     if packet.ClientIdentifier in [client.id for client in self.clients.values()]: # is this client already connected on a different socket?
       for cursock in self.clients.keys():
         if self.clients[cursock].id == packet.ClientIdentifier:
diff --git a/interoperability/mqtt/brokers/V5/Topics.py b/interoperability/mqtt/brokers/V5/Topics.py
index 3ca6b9d..2301bda 100644
--- a/interoperability/mqtt/brokers/V5/Topics.py
+++ b/interoperability/mqtt/brokers/V5/Topics.py
@@ -65,9 +65,10 @@ def topicMatches(wild, nonwild, wildCheck=True):
     assert nonwild.find('+') == nonwild.find('#') == -1
   assert isValidTopicName(wild) and isValidTopicName(nonwild)
 
-  if wild.startswith('$share'):
+  if wild.startswith('$share/'):
     # strip shared prefix $share/sharename/
-    assert wild.count('/') >= 2
+    if wild.count('/') < 2:
+      return False
     wild = wild.split('/', 2)[2]
 
   rc = False
-- 
2.43.0


From 10b4ae6d809bd1208c560f4835e815161a6f917a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 24/84] fix: the + wildcard matches an empty topic level and
 wildcards match any character

---
 interoperability/mqtt/brokers/V311/Topics.py | 4 ++--
 interoperability/mqtt/brokers/V5/Topics.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/Topics.py b/interoperability/mqtt/brokers/V311/Topics.py
index 396c51f..f6e6344 100644
--- a/interoperability/mqtt/brokers/V311/Topics.py
+++ b/interoperability/mqtt/brokers/V311/Topics.py
@@ -85,8 +85,8 @@ def topicMatches(wild, nonwild, wildCheck=True):
     else:
       "all other instances subsume the preceding or following slash"
       wild = wild.replace('#/', '(.*?/|^)').replace('/#', '(/.*?|$)')
-    wild = wild.replace('+', '[^/#]+?') # + does not match an empty level
-    if re.compile(wild+'$').match(nonwild) != None:
+    wild = wild.replace('+', '[^/#]*?') # + can match an empty level
+    if re.compile(wild, re.DOTALL).fullmatch(nonwild) != None:
       rc = True
   return rc
 
diff --git a/interoperability/mqtt/brokers/V5/Topics.py b/interoperability/mqtt/brokers/V5/Topics.py
index 2301bda..2c2e7fc 100644
--- a/interoperability/mqtt/brokers/V5/Topics.py
+++ b/interoperability/mqtt/brokers/V5/Topics.py
@@ -91,8 +91,8 @@ def topicMatches(wild, nonwild, wildCheck=True):
     else:
       "all other instances subsume the preceding or following slash"
       wild = wild.replace('#/', '(.*?/|^)').replace('/#', '(/.*?|$)')
-    wild = wild.replace('+', '[^/#]+?') # + does not match an empty level
-    if re.compile(wild+'$').match(nonwild) != None:
+    wild = wild.replace('+', '[^/#]*?') # + can match an empty level
+    if re.compile(wild, re.DOTALL).fullmatch(nonwild) != None:
       rc = True
   return rc
 
-- 
2.43.0


From 9dddbf51973b9c5baaa53198b870174a0a732b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 25/84] fix: MQTT 5.0 acknowledgements can have properties and
 property lengths over 127 are handled

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 6bc45aa..70205f7 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -645,9 +645,9 @@ class Properties(object):
     buffer = buffer[VBIlen:] # strip the bytes used by the VBI
     propslenleft = propslen
     while propslenleft > 0: # properties length is 0 if there are none
-      identifier, VBIlen = VBIs.decode(buffer) # property identifier
-      buffer = buffer[VBIlen:] # strip the bytes used by the VBI
-      propslenleft -= VBIlen
+      identifier, identlen = VBIs.decode(buffer) # property identifier
+      buffer = buffer[identlen:] # strip the bytes used by the VBI
+      propslenleft -= identlen
       attr_type = self.properties[identifier][0]
       value, valuelen = self.readProperty(buffer, attr_type, propslenleft)
       buffer = buffer[valuelen:] # strip the bytes used by the value
@@ -655,7 +655,7 @@ class Properties(object):
       propname = self.getNameFromIdent(identifier)
       compressedName = propname.replace(' ', '')
       if not self.allowsMultiple(compressedName) and hasattr(self, compressedName):
-        raise MQTTException("Property '%s' must not exist more than once" % property)
+        raise ProtocolError("Protocol error", "Property '%s' must not exist more than once" % propname)
       setattr(self, propname, value)
     return self, propslen + VBIlen
 
@@ -1105,7 +1105,7 @@ class Acks(Packets):
     assert len(buffer) >= 2
     assert PacketType(buffer) == self.ackType
     fhlen = self.fh.unpack(buffer, maximumPacketSize)
-    assert self.fh.remainingLength in [2, 3, 4], \
+    assert self.fh.remainingLength >= 2, \
         "%s packet is wrong length %d" % (self.ackName, self.fh.remainingLength)
     assert len(buffer) >= fhlen + self.fh.remainingLength
     self.packetIdentifier = readInt16(buffer[fhlen:])
-- 
2.43.0


From 5bdc0b088aa1e7f795c79d64503bf5880abee381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 26/84] fix: UTF-8 string lengths are counted in bytes

---
 .../mqtt/formats/MQTTV311/MQTTV311.py         | 21 ++++++++++++-------
 .../mqtt/formats/MQTTV5/MQTTV5.py             |  3 ++-
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index 57a518d..0b147a6 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -170,7 +170,12 @@ def readInt16(buf):
 
 def writeUTF(data):
   # data could be a string, or bytes.  If string, encode into bytes with utf-8
-  return writeInt16(len(data)) + (data if type(data) == type(b"") else bytes(data, "utf-8"))
+  data = data if type(data) == type(b"") else bytes(data, "utf-8")
+  return writeInt16(len(data)) + data
+
+def lenUTF(data):
+  # the number of bytes used by a string read with readUTF
+  return len(bytes(data, "utf-8")) + 2
 
 def readUTF(buffer, maxlen):
   if maxlen >= 2:
@@ -271,7 +276,7 @@ class Connects(Packets):
       assert self.fh.RETAIN == False, "[MQTT-2.1.2-1]"
 
       self.ProtocolName = readUTF(buffer[curlen:], packlen - curlen)
-      curlen += len(self.ProtocolName) + 2
+      curlen += lenUTF(self.ProtocolName)
       assert self.ProtocolName == "MQTT", "Wrong protocol name %s" % self.ProtocolName
 
       self.ProtocolVersion = buffer[curlen]
@@ -298,11 +303,11 @@ class Connects(Packets):
       logger.info("[MQTT-3.1.3-3] Clientid must be present, and first field")
       logger.info("[MQTT-3.1.3-4] Clientid must be Unicode, and between 0 and 65535 bytes long")
       self.ClientIdentifier = readUTF(buffer[curlen:], packlen - curlen)
-      curlen += len(self.ClientIdentifier) + 2
+      curlen += lenUTF(self.ClientIdentifier)
 
       if self.WillFlag:
         self.WillTopic = readUTF(buffer[curlen:], packlen - curlen)
-        curlen += len(self.WillTopic) + 2
+        curlen += lenUTF(self.WillTopic)
         self.WillMessage = readBytes(buffer[curlen:])
         curlen += len(self.WillMessage) + 2
         logger.info("[MQTT-3.1.2-9] will topic and will message fields must be present")
@@ -312,7 +317,7 @@ class Connects(Packets):
       if self.usernameFlag:
         assert len(buffer) > curlen+2, "Buffer too short to read username length"
         self.username = readUTF(buffer[curlen:], packlen - curlen)
-        curlen += len(self.username) + 2
+        curlen += lenUTF(self.username)
         logger.info("[MQTT-3.1.2-19] username must be in payload if user name flag is 1")
       else:
         logger.info("[MQTT-3.1.2-18] username must not be in payload if user name flag is 0")
@@ -467,7 +472,7 @@ class Publishes(Packets):
     except UnicodeDecodeError:
       logger.info("[MQTT-3.3.2-1] topic name in publish must be utf-8")
       raise
-    curlen += len(self.topicName) + 2
+    curlen += lenUTF(self.topicName)
     if self.fh.QoS != 0:
       self.messageIdentifier = readInt16(buffer[curlen:])
       logger.info("[MQTT-2.3.1-1] packet indentifier must be in publish if QoS is 1 or 2")
@@ -679,7 +684,7 @@ class Subscribes(Packets):
     self.data = []
     while leftlen > 0:
       topic = readUTF(buffer[-leftlen:], leftlen)
-      leftlen -= len(topic) + 2
+      leftlen -= lenUTF(topic)
       qos = buffer[-leftlen]
       assert qos in [0, 1, 2], "[MQTT-3-8.3-2] reserved bits must be zero"
       leftlen -= 1
@@ -784,7 +789,7 @@ class Unsubscribes(Packets):
     self.data = []
     while leftlen > 0:
       topic = readUTF(buffer[-leftlen:], leftlen)
-      leftlen -= len(topic) + 2
+      leftlen -= lenUTF(topic)
       self.data.append(topic)
     assert leftlen == 0
     assert self.fh.DUP == False, "[MQTT-2.1.2-1]"
diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 70205f7..12d0cc3 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -382,7 +382,8 @@ def readInt32(buf):
 
 def writeUTF(data):
   # data could be a string, or bytes.  If string, encode into bytes with utf-8
-  return writeInt16(len(data)) + (data if type(data) == type(b"") else bytes(data, "utf-8"))
+  data = data if type(data) == type(b"") else bytes(data, "utf-8")
+  return writeInt16(len(data)) + data
 
 def readUTF(buffer, maxlen):
   if maxlen >= 2:
-- 
2.43.0


From 0b308132bff7d7910f9bc029498364b28398bc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 27/84] fix: TCP listener handles a connection which ends or
 stalls in its first packet

---
 .../mqtt/brokers/listeners/TCPListeners.py    | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/interoperability/mqtt/brokers/listeners/TCPListeners.py b/interoperability/mqtt/brokers/listeners/TCPListeners.py
index 35a9d83..01a8c95 100644
--- a/interoperability/mqtt/brokers/listeners/TCPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/TCPListeners.py
@@ -170,14 +170,20 @@ class WebSocketTCPHandler(socketserver.StreamRequestHandler):
             if broker == None:
               connbuf = sock.recv(1)
               if connbuf == b'\x10': # connect packet
-                while connbuf[-4:] != b"MQTT" and len(connbuf) < 10:
+                sock.settimeout(.3)
+                # up to 5 bytes of fixed header, 2 of length and 4 of protocol name
+                while connbuf[-4:] != b"MQTT" and len(connbuf) < 11:
+                  char = sock.recv(1)
+                  if len(char) == 0:
+                    break
+                  connbuf += char
+                if connbuf[-4:] == b"MQTT":
                   connbuf += sock.recv(1)
-                connbuf += sock.recv(1)
-                version = connbuf[-1]
-                if version == 4:
-                  broker = broker3
-                elif version == 5:
-                  broker = broker5
+                  version = connbuf[-1]
+                  if version == 4:
+                    broker = broker3
+                  elif version == 5:
+                    broker = broker5
               sock.rebuffer(connbuf)
             if broker == None:
               terminate = True
-- 
2.43.0


From 4bfaf652ba3052e5e2c7d41c1e0e946debca8297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 28/84] fix: WebSocket listener handles any framing of packets,
 a segmented handshake and control frames

---
 .../mqtt/brokers/listeners/TCPListeners.py    | 46 ++++++++++++++-----
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/interoperability/mqtt/brokers/listeners/TCPListeners.py b/interoperability/mqtt/brokers/listeners/TCPListeners.py
index 01a8c95..bd95f37 100644
--- a/interoperability/mqtt/brokers/listeners/TCPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/TCPListeners.py
@@ -39,27 +39,35 @@ class BufferedSockets:
   def rebuffer(self, data):
     self.buffer = data + self.buffer
 
+  def recvall(self, length):
+    "receive exactly length bytes from the socket"
+    data = bytearray()
+    while len(data) < length:
+      received = self.socket.recv(length - len(data))
+      if len(received) == 0:
+        raise OSError("Connection closed in a WebSocket frame")
+      data += received
+    return data
+
   def wsrecv(self):
-    header1 = ord(self.socket.recv(1))
-    header2 = ord(self.socket.recv(1))
+    header1 = ord(self.recvall(1))
+    header2 = ord(self.recvall(1))
 
     opcode = (header1 & 0x0f)
     maskbit = (header2 & 0x80) == 0x80
     length = (header2 & 0x7f) # works for 0 to 125 inclusive
     if length == 126: # for 126 to 65535 inclusive
-      lb1 = ord(self.socket.recv(1))
-      lb2 = ord(self.socket.recv(1))
+      lb1 = ord(self.recvall(1))
+      lb2 = ord(self.recvall(1))
       length = lb1*256 + lb2
     elif length == 127:
       length = 0
       for i in range(0, 8):
-        length += ord(self.socket.recv(1)) * 2**((7 - i)*8)
+        length += ord(self.recvall(1)) * 2**((7 - i)*8)
     assert maskbit == True
     if maskbit:
-      mask = self.socket.recv(4)
-    mpayload = bytearray()
-    while len(mpayload) < length:
-      mpayload += self.socket.recv(length - len(mpayload))
+      mask = self.recvall(4)
+    mpayload = self.recvall(length)
     buffer = bytearray()
     if maskbit:
       mi = 0
@@ -68,7 +76,12 @@ class BufferedSockets:
         mi = (mi+1)%4
     else:
       buffer = mpayload
-    self.buffer += buffer
+    if opcode == 0x8: # close
+      raise OSError("WebSocket closed")
+    elif opcode == 0x9: # ping
+      self.sendall(bytearray([0x8A, len(buffer)]) + buffer) # pong
+    elif opcode in [0x0, 0x2]: # continuation and binary
+      self.buffer += buffer
 
   def recv(self, bufsize):
     if self.websockets:
@@ -133,7 +146,13 @@ class WebSocketTCPHandler(socketserver.StreamRequestHandler):
 
   def handshake(self, client):
     GUID = "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"
-    data = client.recv(1024).decode('utf-8')
+    data = bytes(client.recv(1))
+    while not data.endswith(b"\r\n\r\n") and len(data) < 8192:
+      char = client.recv(1)
+      if len(char) == 0:
+        break
+      data += char
+    data = data.decode('utf-8')
     headers = self.getheaders(data)
     digest = base64.b64encode(hashlib.sha1((headers['SEC-WEBSOCKET-KEY'] + GUID).encode("utf-8")).digest())
     resp = b"HTTP/1.1 101 Switching Protocols\r\n" +\
@@ -155,7 +174,10 @@ class WebSocketTCPHandler(socketserver.StreamRequestHandler):
       try:
         if not keptalive:
           logger.debug("Waiting for request")
-        (i, o, e) = select.select([sock], [], [], 1)
+        if sock.websockets and len(sock.buffer) > 0: # the rest of a frame
+          (i, o, e) = ([sock], [], [])
+        else:
+          (i, o, e) = select.select([sock], [], [], 1)
         if i == [sock]:
           if first:
             char = sock.recv(1)
-- 
2.43.0


From 11b72d3689bd0ddde24cd288efec62367b97b942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:05 +0000
Subject: [PATCH 29/84] fix: when subscriptions overlap, those which are no
 local do not affect the client's own publications

---
 interoperability/mqtt/brokers/V5/Brokers.py             | 1 +
 interoperability/mqtt/brokers/V5/SubscriptionEngines.py | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/Brokers.py b/interoperability/mqtt/brokers/V5/Brokers.py
index 1905df1..2dbe572 100644
--- a/interoperability/mqtt/brokers/V5/Brokers.py
+++ b/interoperability/mqtt/brokers/V5/Brokers.py
@@ -208,6 +208,7 @@ class Brokers:
             if not options.noLocal or subscriber != aClientid: # noLocal
               nolocalfilter = subscriptions
           if len(nolocalfilter) > 0:
+            options, subsprops = self.se.optionsOf(subscriber, topic, nolocalfilter)
             publishAction(options, subsprops, subsids=subsids)
         else:
           # MQTT V3 subscription
diff --git a/interoperability/mqtt/brokers/V5/SubscriptionEngines.py b/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
index a4a1db1..5125027 100644
--- a/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
+++ b/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
@@ -128,10 +128,10 @@ class SubscriptionEngines:
          rc = [sub for sub in subscriptions if sub.getClientid() == aClientid and Topics.topicMatches(sub.getTopic(), aTopic)]
      return rc
 
-   def optionsOf(self, clientid, topic):
+   def optionsOf(self, clientid, topic, subscriptions=None):
      # if there are overlapping subscriptions, choose maximum QoS
      chosen = None
-     for sub in self.getSubscriptions(topic, clientid):
+     for sub in (subscriptions if subscriptions else self.getSubscriptions(topic, clientid)):
        if chosen == None:
          if hasattr(sub, "getOptions"):
            chosen = sub.getOptions()
-- 
2.43.0


From 8fc7dd00b57bb0f7cab6cbdfaa69e24e0f43aa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:26 +0000
Subject: [PATCH 30/84] fix: nothing is sent to a client whose connection is
 ending, its own will message included

---
 interoperability/mqtt/brokers/V311/Brokers.py | 1 +
 interoperability/mqtt/brokers/V5/Brokers.py   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/interoperability/mqtt/brokers/V311/Brokers.py b/interoperability/mqtt/brokers/V311/Brokers.py
index 64cfecb..a2bb060 100644
--- a/interoperability/mqtt/brokers/V311/Brokers.py
+++ b/interoperability/mqtt/brokers/V311/Brokers.py
@@ -64,6 +64,7 @@ class Brokers:
   def terminate(self, aClientid):
     "Abrupt disconnect which also causes a will msg to be sent out"
     if aClientid in self.__clients.keys() and self.__clients[aClientid].connected:
+      self.__clients[aClientid].connected = False # nothing else can be sent on this connection
       if self.__clients[aClientid].will != None:
         logger.info("[MQTT-3.1.2-8] sending will message for client %s", aClientid)
         willtopic, willQoS, willmsg, willRetain = self.__clients[aClientid].will
diff --git a/interoperability/mqtt/brokers/V5/Brokers.py b/interoperability/mqtt/brokers/V5/Brokers.py
index 2dbe572..99c7f4b 100644
--- a/interoperability/mqtt/brokers/V5/Brokers.py
+++ b/interoperability/mqtt/brokers/V5/Brokers.py
@@ -83,6 +83,7 @@ class Brokers:
   def setupWillMessage(self, aClientid):
     "Sends the will message, if any, for a client"
     if aClientid in self.__clients.keys() and self.__clients[aClientid].connected:
+      self.__clients[aClientid].connected = False # nothing else can be sent on this connection
       if self.__clients[aClientid].will != None:
         if self.__clients[aClientid].willDelayInterval > 0:
           self.__clients[aClientid].delayedWillTime = time.monotonic() + self.__clients[aClientid].willDelayInterval
-- 
2.43.0


From 1848a3734c8090ce7519230227a8b1efbaabe940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:26 +0000
Subject: [PATCH 31/84] fix: a shared subscription gets one copy of a message
 with its own options, from a member with a session

---
 interoperability/mqtt/brokers/V5/Brokers.py | 32 ++++++++++++---------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/Brokers.py b/interoperability/mqtt/brokers/V5/Brokers.py
index 99c7f4b..c175b10 100644
--- a/interoperability/mqtt/brokers/V5/Brokers.py
+++ b/interoperability/mqtt/brokers/V5/Brokers.py
@@ -48,6 +48,9 @@ class Brokers:
   def getClient(self, clientid):
     return self.__clients[clientid] if (clientid in self.__clients.keys()) else None
 
+  def hasSession(self, aClientid):
+    return aClientid in self.__clients.keys() or (self.__broker3 and self.__broker3.getClient(aClientid) != None)
+
   def cleanSession(self, aClientid):
     "clear any outstanding subscriptions and publications"
     if len(self.se.getRetainedTopics("#")) > 0:
@@ -170,23 +173,24 @@ class Brokers:
     # For shared subscriptions, there is only one recipient
     nonshared = [s for s in list(subscriptions) if not s.getTopic().startswith('$share/')]
     shared = [s for s in list(subscriptions) if s.getTopic().startswith('$share/')]
-    subscriptions = []
-    clientids = set()
-    for n in nonshared:
-      if n.getClientid() not in clientids:
-        clientids.add(n.getClientid())
-        subscriptions.append(n)
+    deliveries = {} # clientid -> its own subscriptions, shared topic name -> the chosen member's subscription
+    for n in self.se.getSubscriptions(topic): # this is ordered, unlike nonshared
+      if n in nonshared:
+        deliveries.setdefault((n.getClientid(), None), []).append(n)
     sharenames = set()  # set of shared topic names
     for s in shared:
       sharenames.add(s.getTopic())
-    for sname in list(sharenames):
-      subscriptions.append(random.choice([s for s in shared if s.getTopic() == sname]))
-    
-    subscribed_clients = [s.getClientid() for s in subscriptions]
-    for subscriber in subscribed_clients:  # all subscribed clients
+    for sname in sorted(sharenames):
+      # a restored subscription has no session until its client connects
+      members = [s for s in shared if s.getTopic() == sname and self.hasSession(s.getClientid())]
+      if len(members) > 0:
+        chosen = random.choice(members)
+        deliveries[(chosen.getClientid(), sname)] = [chosen]
+
+    subscribed_clients = [clientid for (clientid, sname) in deliveries.keys()]
+    for (subscriber, sname), subscriptions in deliveries.items():  # all subscribed clients
       # qos is lower of publication and subscription
       overlapping = False
-      subscriptions = self.se.getSubscriptions(topic, subscriber)
       if len(subscriptions) > 1:
         logger.info("[MQTT-3.3.5-1] overlapping subscriptions")
         overlapping = True
@@ -194,7 +198,7 @@ class Brokers:
         logger.info("[MQTT-2.1.2-10] outgoing publish does not have retained flag set")
       if self.overlapping_single:
         if subscriber in self.__clients.keys():
-          options, subsprops = self.se.optionsOf(subscriber, topic)
+          options, subsprops = self.se.optionsOf(subscriber, topic, subscriptions)
           # any other subscription ids?
           subsids = []
           nolocalfilter = []
@@ -215,7 +219,7 @@ class Brokers:
           # MQTT V3 subscription
           client = self.__broker3.getClient(subscriber)
           if client: # a subscription can be restored without its session
-            out_qos = min(self.__broker3.se.qosOf(subscriber, topic), qos)
+            out_qos = min(self.se.optionsOf(subscriber, topic, subscriptions)[0].QoS, qos)
             client.publishArrived(topic, message, out_qos)
       else:
         for subscription in subscriptions:
-- 
2.43.0


From 11c0016d2f1dd6226092a4b6185018d875ea7950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:26 +0000
Subject: [PATCH 32/84] fix: a will message can carry subscription identifiers
 and topic aliases like any other message

---
 interoperability/mqtt/brokers/V5/Brokers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interoperability/mqtt/brokers/V5/Brokers.py b/interoperability/mqtt/brokers/V5/Brokers.py
index c175b10..e8f5e96 100644
--- a/interoperability/mqtt/brokers/V5/Brokers.py
+++ b/interoperability/mqtt/brokers/V5/Brokers.py
@@ -78,6 +78,7 @@ class Brokers:
       logger.info("[MQTT5-3.1.2-15] sending will message retained for client %s", aClientid)
     else:
       logger.info("[MQTT5-3.1.2-14] sending will message non-retained for client %s", aClientid)
+    willProperties.packetType = PacketTypes.PUBLISH # it is an ordinary publication from now on
     self.publish(aClientid, willtopic, willmsg, willQoS, willRetain, willProperties, time.monotonic())
     logger.info("[MQTT5-3.1.2-10] will message is deleted after use or disconnect, for client %s", aClientid)
     logger.info("[MQTT-3.14.4-3] on receipt of disconnect, will message is deleted")
-- 
2.43.0


From 2363d220e3d50242155bf5309470332550f7331d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:33 +0000
Subject: [PATCH 33/84] fix: a client which is slow to send a packet does not
 hold up the other clients

---
 interoperability/mqtt/brokers/V311/MQTTBrokers.py | 12 ++++++------
 interoperability/mqtt/brokers/V5/MQTTBrokers.py   | 10 +++++-----
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/MQTTBrokers.py b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
index 2b358c7..5a7a632 100644
--- a/interoperability/mqtt/brokers/V311/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
@@ -225,15 +225,15 @@ class MQTTBrokers:
 
   def handleRequest(self, sock):
     "this is going to be called from multiple threads, so synchronize"
-    self.lock.acquire()
     terminate = False
     raw_packet = None
     try:
-      try:
-        sock.settimeout(.3)
-        raw_packet = MQTTV3.getPacket(sock)
-      except:
-        pass # handled by raw_packet == None
+      sock.settimeout(.3)
+      raw_packet = MQTTV3.getPacket(sock)
+    except:
+      pass # handled by raw_packet == None
+    self.lock.acquire()
+    try:
       if raw_packet == None:
         logger.info("[MQTT-4.8.0-1] 'transient error' reading packet, closing connection")
         # will message
diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 00eb86e..1f6c65d 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -379,13 +379,13 @@ class MQTTBrokers:
 
   def handleRequest(self, sock):
     "this is going to be called from multiple threads, so synchronize"
-    self.lock.acquire()
     raw_packet = None
     try:
-      try:
-        raw_packet = MQTTV5.getPacket(sock)
-      except:
-        pass # handled by raw_packet == None
+      raw_packet = MQTTV5.getPacket(sock)
+    except:
+      pass # handled by raw_packet == None
+    self.lock.acquire()
+    try:
       if raw_packet == None:
         logger.info("[MQTT-4.8.0-1] 'transient error' reading packet, closing connection")
         # will message
-- 
2.43.0


From eba9cd11e3b9752f45ae0b3f753a2e8eb6f81f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:18 +0000
Subject: [PATCH 34/84] fix: the time allowed for sending a packet to a slow
 client is for all of the packet

---
 interoperability/mqtt/brokers/listeners/TCPListeners.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/interoperability/mqtt/brokers/listeners/TCPListeners.py b/interoperability/mqtt/brokers/listeners/TCPListeners.py
index bd95f37..101800a 100644
--- a/interoperability/mqtt/brokers/listeners/TCPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/TCPListeners.py
@@ -125,11 +125,9 @@ class BufferedSockets:
         mybytes.append(l) # units
         header += bytearray(mybytes)
     totaldata = header + data
-    # Ensure the entire packet is sent by calling send again if necessary
-    sent = self.socket.send(totaldata)
-    while sent < len(totaldata):
-      sent += self.socket.send(totaldata[sent:])
-    return sent
+    # Ensure the entire packet is sent, within the socket's timeout
+    self.socket.sendall(totaldata)
+    return len(totaldata)
 
 
 class WebSocketTCPHandler(socketserver.StreamRequestHandler):
-- 
2.43.0


From 7f28438702ad06ee4f86af2f2bad650916fa5c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:50 +0000
Subject: [PATCH 35/84] fix: SIGTERM is not swallowed when it arrives while a
 connection is accepted

---
 interoperability/mqtt/brokers/start.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interoperability/mqtt/brokers/start.py b/interoperability/mqtt/brokers/start.py
index 088da55..f9ef7d9 100644
--- a/interoperability/mqtt/brokers/start.py
+++ b/interoperability/mqtt/brokers/start.py
@@ -34,7 +34,7 @@ logger = None
 
 def handler(signum, frame):
     logger.info('Signal handler called with signal %d', signum)
-    raise OSError("Signal interrupt")
+    raise KeyboardInterrupt("Signal interrupt") # not an Exception, as the listeners handle those themselves
 
 def setup_persistence(persistence_filename):
   import ZODB, ZODB.FileStorage, BTrees.OOBTree, transaction, persistent
-- 
2.43.0


From c6158d3596e9b37a739dc51c5550915e887eef6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:50 +0000
Subject: [PATCH 36/84] fix: the threads of all connections, and the clean up
 thread, end when the broker is stopped

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py         | 2 +-
 interoperability/mqtt/brokers/listeners/TCPListeners.py | 7 +++++--
 interoperability/mqtt/brokers/start.py                  | 2 +-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 1f6c65d..c404022 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -308,7 +308,7 @@ class cleanupThreads(threading.Thread):
   """
 
   def __init__(self, broker, lock=None):
-    threading.Thread.__init__(self)
+    threading.Thread.__init__(self, daemon=True)
     self.broker = broker
     self.lock = lock
     self.running = False
diff --git a/interoperability/mqtt/brokers/listeners/TCPListeners.py b/interoperability/mqtt/brokers/listeners/TCPListeners.py
index 101800a..26725ea 100644
--- a/interoperability/mqtt/brokers/listeners/TCPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/TCPListeners.py
@@ -245,7 +245,7 @@ class WebSocketTCPHandler(socketserver.StreamRequestHandler):
 
 class ThreadingTCPServer(socketserver.ThreadingMixIn,
                            socketserver.TCPServer):
-  pass
+  daemon_threads = True # a stalled connection does not keep the broker from ending
 
 
 def setBrokers(aBroker3, aBroker5):
@@ -253,7 +253,10 @@ def setBrokers(aBroker3, aBroker5):
   broker3 = aBroker3
   broker5 = aBroker5
 
-
+def stop():
+  "the threads of all connections end"
+  if server:
+    server.terminate = True
 
 def create(port, host="", TLS=False, serve_forever=False,
     cert_reqs=ssl.CERT_REQUIRED,
diff --git a/interoperability/mqtt/brokers/start.py b/interoperability/mqtt/brokers/start.py
index f9ef7d9..6bdcf41 100644
--- a/interoperability/mqtt/brokers/start.py
+++ b/interoperability/mqtt/brokers/start.py
@@ -205,7 +205,6 @@ def run(config=None):
     logger.exception("startBroker")
 
   # Stop incoming communications
-  import socket
   for server in servers:
     try:
       logger.info("Stopping listener %s", str(server))
@@ -220,6 +219,7 @@ def run(config=None):
       broker.shutdown()
     except:
       traceback.print_exc()
+  TCPListeners.stop() # now all clients have been told
   filter.measure()
 
   logger.debug("Ending sharedData %s", sharedData)
-- 
2.43.0


From f174fb6937fbb2bd946e05921300e9be6779d941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:58 +0000
Subject: [PATCH 37/84] fix: MQTT-SN clients can connect now that time.clock()
 is gone

---
 interoperability/mqtt/brokers/SN/Brokers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/SN/Brokers.py b/interoperability/mqtt/brokers/SN/Brokers.py
index 8049535..f13ee2a 100644
--- a/interoperability/mqtt/brokers/SN/Brokers.py
+++ b/interoperability/mqtt/brokers/SN/Brokers.py
@@ -57,7 +57,7 @@ class Brokers:
 
   def connect(self, aClient):
     aClient.connected = True
-    aClient.timestamp = time.clock()
+    aClient.timestamp = time.time()
     self.__clients[aClient.id] = aClient
     if aClient.cleansession:
       self.cleanSession(aClient.id)
@@ -84,7 +84,7 @@ class Brokers:
         del self.__clients[aClientid]
       else:
         logger.info("[MQTT-3.1.2-4] broker must store the session data for client %s", aClientid)
-        self.__clients[aClientid].timestamp = time.clock()
+        self.__clients[aClientid].timestamp = time.time()
         self.__clients[aClientid].connected = False 
         logger.info("[MQTT-3.1.2-10] will message is deleted after use or disconnect, for client %s", aClientid)
         logger.info("[MQTT-3.14.4-3] on receipt of disconnect, will message is deleted")
-- 
2.43.0


From 49c403409809a9f364b9867beada99ca29d0983d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:58 +0000
Subject: [PATCH 38/84] fix: MQTT-SN CONNECTs with an empty client id or
 another protocol version are answered

---
 interoperability/mqtt/brokers/SN/MQTTSNBrokers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/interoperability/mqtt/brokers/SN/MQTTSNBrokers.py b/interoperability/mqtt/brokers/SN/MQTTSNBrokers.py
index 26c2879..70fcb7f 100644
--- a/interoperability/mqtt/brokers/SN/MQTTSNBrokers.py
+++ b/interoperability/mqtt/brokers/SN/MQTTSNBrokers.py
@@ -250,7 +250,7 @@ class MQTTSNBrokers:
 
   def connect(self, sock, packet, callback):
     if packet.ProtocolId != 1:
-      logger.error("[MQTT-3.1.2-2] Wrong protocol version %d", packet.ProtocolVersion)
+      logger.error("[MQTT-3.1.2-2] Wrong protocol version %d", packet.ProtocolId)
       resp = MQTTSN.Connacks()
       resp.ReturnCode = 1
       respond(sock, callback, resp)
@@ -263,12 +263,12 @@ class MQTTSNBrokers:
       logger.info("[MQTT-3.1.4-5] When rejecting connect, no more data must be processed")
       raise MQTTSN.MQTTSNException("[MQTT-3.1.0-2] Second connect packet")
     if len(packet.ClientId) == 0:
-      if self.zero_length_clientids == False or packet.CleanSession == False:
+      if self.zero_length_clientids == False or packet.Flags.CleanSession == False:
         if self.zero_length_clientids:
           logger.info("[MQTT-3.1.3-8] Reject 0-length clientid with cleansession false")
         logger.info("[MQTT-3.1.3-9] if clientid is rejected, must send connack 2 and close connection")
         resp = MQTTSN.Connacks()
-        resp.returnCode = 2
+        resp.ReturnCode = 2
         respond(sock, callback, resp)
         logger.info("[MQTT-3.2.2-5] must close connection after non-zero connack")
         self.disconnect(sock, None)
@@ -276,7 +276,7 @@ class MQTTSNBrokers:
         return
       else:
         logger.info("[MQTT-3.1.3-7] 0-length clientid must have cleansession true")
-        packet.ClientId = uuid.uuid4() # give the client a unique clientid
+        packet.ClientId = str(uuid.uuid4()) # give the client a unique clientid
         logger.info("[MQTT-3.1.3-6] 0-length clientid must be assigned a unique id %s", packet.ClientId)
     logger.info("[MQTT-3.1.3-5] Clientids of 1 to 23 chars and ascii alphanumeric must be allowed")
     if packet.ClientId in [client.id for client in self.clients.values()]: # is this client already connected on a different socket?
-- 
2.43.0


From 31de4b22a4e40b9a891b650f99417a5c27fc1212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:58 +0000
Subject: [PATCH 39/84] fix: messages published by MQTT-SN clients are
 forwarded as the V5 broker does it

---
 interoperability/mqtt/brokers/SN/Brokers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/brokers/SN/Brokers.py b/interoperability/mqtt/brokers/SN/Brokers.py
index f13ee2a..5b727ea 100644
--- a/interoperability/mqtt/brokers/SN/Brokers.py
+++ b/interoperability/mqtt/brokers/SN/Brokers.py
@@ -98,9 +98,13 @@ class Brokers:
     """publish to all subscribed connected clients
        also to any disconnected non-cleansession clients with qos in [1,2]
     """
+    if self.__broker5:
+      # shared subscriptions, subscription options and ids are known only to the V5 broker
+      self.__broker5.publish(aClientid, topic, message, qos, retained, None, time.monotonic())
+      return
     if retained:
       logger.info("[MQTT-2.1.2-6] store retained message and QoS")
-      self.se.setRetained(topic, message, qos)
+      self.se.setRetained(topic, message, qos, time.monotonic())
     else:
       logger.info("[MQTT-2.1.2-12] non-retained message - do not store")
 
-- 
2.43.0


From c1a9c523a832bd31ac8f68492724b36c8ef3907f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:13 +0000
Subject: [PATCH 40/84] fix: MQTT-SN publishes with a topic which is not a
 valid topic name are rejected

---
 .../mqtt/brokers/SN/MQTTSNBrokers.py            | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/interoperability/mqtt/brokers/SN/MQTTSNBrokers.py b/interoperability/mqtt/brokers/SN/MQTTSNBrokers.py
index 70fcb7f..e337aac 100644
--- a/interoperability/mqtt/brokers/SN/MQTTSNBrokers.py
+++ b/interoperability/mqtt/brokers/SN/MQTTSNBrokers.py
@@ -357,17 +357,22 @@ class MQTTSNBrokers:
     resp.messageIdentifier = packet.messageIdentifier
     respond(sock, resp)
 
+  def topicName(self, packet):
+    if packet.Flags.TopicIdType != 2:
+      raise MQTTSN.MQTTSNException("Only short topic names are supported, not topic id type %d" % packet.Flags.TopicIdType)
+    topic = MQTTSN.writeInt16(packet.TopicId).decode()
+    logger.debug("topic %s", topic)
+    if any(c in topic for c in "+#\0"):
+      raise MQTTSN.MQTTSNException("Topic name invalid " + repr(topic))
+    return topic
+
   def publish(self, sock, packet, callback):
     if packet.Flags.QoS == -1:
-      if packet.Flags.TopicIdType == 2:
-        topic = MQTTSN.writeInt16(packet.TopicId).decode()
-        logger.debug("topic %s", topic)
+      topic = self.topicName(packet)
       self.broker.publish("QoS -1", # no clientid for QoS -1
              topic, packet.Data, 0, packet.Flags.RETAIN)
     elif packet.Flags.QoS == 0:
-      if packet.Flags.TopicIdType == 2:
-        topic = MQTTSN.writeInt16(packet.TopicId).decode()
-        logger.debug("topic %s", topic)
+      topic = self.topicName(packet)
       self.broker.publish(self.clients[sock].id,
              topic, packet.Data, packet.Flags.QoS, packet.Flags.RETAIN)
     elif packet.fh.QoS == 1:
-- 
2.43.0


From dedd8b10e8a4b6adbf5519f3759bf425c9194d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:13 +0000
Subject: [PATCH 41/84] fix: MQTT-SN packets whose length is not the datagram's
 are rejected

---
 interoperability/mqtt/formats/MQTTSN/MQTTSN.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interoperability/mqtt/formats/MQTTSN/MQTTSN.py b/interoperability/mqtt/formats/MQTTSN/MQTTSN.py
index 7da783b..1fc560c 100644
--- a/interoperability/mqtt/formats/MQTTSN/MQTTSN.py
+++ b/interoperability/mqtt/formats/MQTTSN/MQTTSN.py
@@ -322,6 +322,8 @@ classes = [None, None, None, None, Connects, Connacks,
            Registers, Regacks, Publishes, Pubacks]
 
 def unpackPacket(buffer, maximumPacketSize=MAX_PACKET_SIZE):
+  if MessageLens.decode(buffer)[0] != len(buffer):
+    raise MQTTSNException("length %d in a datagram of %d bytes" % (MessageLens.decode(buffer)[0], len(buffer)))
   if MessageType(buffer) != None:
     packet = classes[MessageType(buffer)]()
     packet.unpack(buffer) #, maximumPacketSize=maximumPacketSize)
-- 
2.43.0


From 4f85b161d4a6308416bdff7047b5559c8cc422ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:13 +0000
Subject: [PATCH 42/84] fix: UDP listener does not cut datagrams at 8192 bytes

---
 interoperability/mqtt/brokers/listeners/UDPListeners.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interoperability/mqtt/brokers/listeners/UDPListeners.py b/interoperability/mqtt/brokers/listeners/UDPListeners.py
index 55471bc..0e5f7bb 100644
--- a/interoperability/mqtt/brokers/listeners/UDPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/UDPListeners.py
@@ -44,7 +44,7 @@ class UDPHandler(socketserver.BaseRequestHandler):
 
 class ThreadingUDPServer(socketserver.ThreadingMixIn,
                            socketserver.UDPServer):
-  pass
+  max_packet_size = 65535
 
 
 def setBroker(aBrokerSN):
-- 
2.43.0


From e2dc7f0d8ebb53d5eda956b0aeabe801b64accc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:55 +0000
Subject: [PATCH 43/84] fix: HTTP requests look at the brokers' data under
 their lock

---
 interoperability/mqtt/brokers/listeners/HTTPListeners.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/brokers/listeners/HTTPListeners.py b/interoperability/mqtt/brokers/listeners/HTTPListeners.py
index 7c3da8c..1a20900 100644
--- a/interoperability/mqtt/brokers/listeners/HTTPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/HTTPListeners.py
@@ -106,7 +106,8 @@ class APIs:
             args = tuple(list(args) + [body])
           else:
             args = (body,)
-        rc = op[1](*args)
+        with lock: # the brokers must not change the data while it is being read
+          rc = op[1](*args)
         found = True
         break
     if not found:
-- 
2.43.0


From 6b7a0cccabc7f32b2bdbadd44f9dddb87ef3cfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:55 +0000
Subject: [PATCH 44/84] fix: the HTTP listener knows the clients of the V5
 broker too

---
 interoperability/mqtt/brokers/listeners/HTTPListeners.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/interoperability/mqtt/brokers/listeners/HTTPListeners.py b/interoperability/mqtt/brokers/listeners/HTTPListeners.py
index 1a20900..2c1afa7 100644
--- a/interoperability/mqtt/brokers/listeners/HTTPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/HTTPListeners.py
@@ -45,17 +45,17 @@ def jsonize(obj):
 
 def get_client(clientid, *args):
   rc = 404; value = None
-  client = broker3.broker.getClient(clientid)
+  client = broker3.broker.getClient(clientid) or broker5.broker.getClient(clientid)
   if client:
     value = json.dumps(jsonize(client))
     rc = 200
   return rc, value
 
 def get_clients(*args):
-  clientids = broker3.broker.getClients()
   clients = {}
-  for clientid in clientids:
-    clients[clientid] = jsonize(broker3.broker.getClient(clientid))
+  for broker in [broker3.broker, broker5.broker]:
+    for clientid in broker.getClients():
+      clients[clientid] = jsonize(broker.getClient(clientid))
   return 200, json.dumps(clients)
 
 def get_subscriptions(*args):
-- 
2.43.0


From 327c454a806a8f795aad9b77a33538ec392f5b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:55 +0000
Subject: [PATCH 45/84] fix: HTTP requests for retained messages work with any
 payload, and with those from V5 clients

---
 interoperability/mqtt/brokers/listeners/HTTPListeners.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/listeners/HTTPListeners.py b/interoperability/mqtt/brokers/listeners/HTTPListeners.py
index 2c1afa7..bdf9d95 100644
--- a/interoperability/mqtt/brokers/listeners/HTTPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/HTTPListeners.py
@@ -65,8 +65,8 @@ def get_retained_messages(*args):
   out = {}
   for topic in sharedData["retained"].keys():
     value = list(sharedData["retained"][topic])
-    value[0] = value[0].decode()
-    out[topic] = value
+    value[0] = value[0].decode(errors="backslashreplace")
+    out[topic] = value[:3] # without any V5 properties
   return 200, json.dumps(out)
 
 class APIs:
-- 
2.43.0


From d70e71993fc0250761809594354f8e874bf098ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:55 +0000
Subject: [PATCH 46/84] fix: an HTTP connection does not keep all the others
 waiting

---
 interoperability/mqtt/brokers/listeners/HTTPListeners.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interoperability/mqtt/brokers/listeners/HTTPListeners.py b/interoperability/mqtt/brokers/listeners/HTTPListeners.py
index bdf9d95..953b7b8 100644
--- a/interoperability/mqtt/brokers/listeners/HTTPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/HTTPListeners.py
@@ -253,7 +253,7 @@ def create(port, host="", TLS=False, serve_forever=False,
   bind_address = ""
   if host not in ["", "INADDR_ANY"]:
     bind_address = host
-  httpd = http.server.HTTPServer((bind_address, port), requestHandler)
+  httpd = http.server.ThreadingHTTPServer((bind_address, port), requestHandler)
   if TLS:
     httpd.socket = ssl.wrap_socket(httpd.socket,
       ca_certs=ca_certs, certfile=certfile, keyfile=keyfile,
-- 
2.43.0


From d7709fe2ee0a0e2336d4295271ead632f1446138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:55 +0000
Subject: [PATCH 47/84] fix: the HTTP listener is stopped with the other
 listeners

---
 interoperability/mqtt/brokers/listeners/HTTPListeners.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interoperability/mqtt/brokers/listeners/HTTPListeners.py b/interoperability/mqtt/brokers/listeners/HTTPListeners.py
index 953b7b8..04d978c 100644
--- a/interoperability/mqtt/brokers/listeners/HTTPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/HTTPListeners.py
@@ -264,3 +264,4 @@ def create(port, host="", TLS=False, serve_forever=False,
     thread = threading.Thread(target = httpd.serve_forever)
     thread.daemon = True
     thread.start()
+  return httpd
-- 
2.43.0


From 69dd9e368fb8fe11e82f546b6a365242a71cde1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:55 +0000
Subject: [PATCH 48/84] fix: attributes which cannot be shown are no reason for
 HTTP requests to print stack traces

---
 interoperability/mqtt/brokers/listeners/HTTPListeners.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/listeners/HTTPListeners.py b/interoperability/mqtt/brokers/listeners/HTTPListeners.py
index 04d978c..ac40583 100644
--- a/interoperability/mqtt/brokers/listeners/HTTPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/HTTPListeners.py
@@ -39,8 +39,8 @@ def jsonize(obj):
         if attrname.startswith("_"+name+"__"):
           attrname = attrname[len(name)+3:] # remove class name for private attributes
         data[attrname] = value
-      except:
-        traceback.print_exc()
+      except (TypeError, ValueError):
+        pass # not something which can be shown
   return data
 
 def get_client(clientid, *args):
-- 
2.43.0


From c1b4d8084497f32cdcb51b83caac608d82d65b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:03 +0000
Subject: [PATCH 49/84] fix: each connection of the restart proxy has its own
 connection to the broker

---
 interoperability/mqtt/restart/netproxy.py | 24 ++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/interoperability/mqtt/restart/netproxy.py b/interoperability/mqtt/restart/netproxy.py
index a823017..65d2514 100755
--- a/interoperability/mqtt/restart/netproxy.py
+++ b/interoperability/mqtt/restart/netproxy.py
@@ -31,8 +31,8 @@ logger.setLevel(logging.INFO)
 
 break_connections = False
 
-global options, brokers, clients
-brokers = clients = None
+global options
+connections = [] # pairs of client and broker sockets
 options = {}
 options["control_connection"] = "localhost:7777"
 options["control_topic"] = "Eclipse/Paho/restart_test/proxy_control"
@@ -60,16 +60,16 @@ class ControlBrokers:
     self.client.subscribe(self.receiveTopic, 2)
 
   def on_message(self, client, userdata, msg):
-    global brokers, clients
     logger.info("Received "+str(msg.payload.decode()))
     self.messages.append((client, userdata, msg))
     break_connections = True
     logger.info("Terminating client")
-    try:
-        brokers.close()
-        clients.close()
-    except:
-        pass
+    for pair in connections[:]:
+      for s in pair:
+        try:
+          s.shutdown(socket.SHUT_RDWR) # the handler notices, and closes them
+        except:
+          pass
 
   def on_publish(self, client, userdata, data):
     self.published = True
@@ -94,16 +94,16 @@ class ControlBrokers:
 class MQTTHandler(socketserver.StreamRequestHandler):
 
   def handle(self):
-    global brokers, clients, options, break_connections, control_broker
     if not hasattr(self, "ids"):
       self.ids = {}
     if not hasattr(self, "versions"):
       self.versions = {}
     inbuf = True
     i = o = e = None
+    clients = self.request
+    brokers = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
+    connections.append((clients, brokers))
     try:
-      clients = self.request
-      brokers = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
       brokers.connect((brokerhost, brokerport))
       while inbuf != None:
         (i, o, e) = select.select([clients, brokers], [], [])
@@ -137,6 +137,8 @@ class MQTTHandler(socketserver.StreamRequestHandler):
     except:
       #logger.debug(repr((i, o, e)) + " " + repr(inbuf))
       traceback.print_exc()
+    connections.remove((clients, brokers))
+    brokers.close()
     if id(clients) in self.ids.keys():
       del self.ids[id(clients)]
     elif id(clients) in self.versions.keys():
-- 
2.43.0


From 7dc958827bcb309a3e2e4e01a2575402945f757c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:03 +0000
Subject: [PATCH 50/84] fix: the restart proxy passes on all of a packet

---
 interoperability/mqtt/restart/netproxy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/restart/netproxy.py b/interoperability/mqtt/restart/netproxy.py
index 65d2514..4f616e1 100755
--- a/interoperability/mqtt/restart/netproxy.py
+++ b/interoperability/mqtt/restart/netproxy.py
@@ -122,7 +122,7 @@ class MQTTHandler(socketserver.StreamRequestHandler):
               #logger.debug(inbuf)
             except:
               traceback.print_exc()
-            brokers.send(inbuf)       # pass it on
+            brokers.sendall(inbuf)       # pass it on
           elif s == brokers:
             inbuf = MQTTV3.getPacket(brokers) # get one packet
             if inbuf == None:
@@ -131,7 +131,7 @@ class MQTTHandler(socketserver.StreamRequestHandler):
               logger.debug("S to C "+self.ids[id(clients)]+" "+repr(MQTTV3.unpackPacket(inbuf)))
             except:
               traceback.print_exc()
-            clients.send(inbuf)
+            clients.sendall(inbuf)
       if id(clients) in self.ids.keys():
         logger.info("client "+self.ids[id(clients)]+" connection closing")
     except:
-- 
2.43.0


From 2c45747757348448d0648a3fa57196c1cf46a0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:03 +0000
Subject: [PATCH 51/84] fix: the trace proxy closes the connection to the
 broker when the client has gone

---
 interoperability/mqtt/proxy/mqttsas.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/proxy/mqttsas.py b/interoperability/mqtt/proxy/mqttsas.py
index c888263..dfbfb1a 100755
--- a/interoperability/mqtt/proxy/mqttsas.py
+++ b/interoperability/mqtt/proxy/mqttsas.py
@@ -40,9 +40,9 @@ class MyHandler(socketserver.StreamRequestHandler):
       self.versions = {}
     inbuf = True
     i = o = e = None
+    clients = self.request
+    brokers = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
     try:
-      clients = self.request
-      brokers = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
       brokers.connect((brokerhost, brokerport))
       while inbuf is not None:
         (i, o, e) = select.select([clients, brokers], [], [])
@@ -82,6 +82,7 @@ class MyHandler(socketserver.StreamRequestHandler):
     except:
       print(repr((i, o, e)), repr(inbuf))
       traceback.print_exc()
+    brokers.close()
     if id(clients) in self.ids.keys():
       del self.ids[id(clients)]
     elif id(clients) in self.versions.keys():
-- 
2.43.0


From 92a66ba3c7a811a7a889949e6454c45193956cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:43 +0000
Subject: [PATCH 52/84] fix: the client libraries send the rest of a packet of
 which the socket took a part

---
 interoperability/mqtt/clients/V311/main.py | 2 +-
 interoperability/mqtt/clients/V5/main.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/clients/V311/main.py b/interoperability/mqtt/clients/V311/main.py
index e691dd5..67a55a6 100755
--- a/interoperability/mqtt/clients/V311/main.py
+++ b/interoperability/mqtt/clients/V311/main.py
@@ -39,7 +39,7 @@ def sendtosocket(mysocket, data):
   sent = 0
   length = len(data)
   while sent < length:
-    sent += mysocket.send(data)
+    sent += mysocket.send(data[sent:])
 
 class Callback:
 
diff --git a/interoperability/mqtt/clients/V5/main.py b/interoperability/mqtt/clients/V5/main.py
index 36e33aa..e5cb57c 100755
--- a/interoperability/mqtt/clients/V5/main.py
+++ b/interoperability/mqtt/clients/V5/main.py
@@ -40,7 +40,7 @@ def sendtosocket(mysocket, data):
   length = len(data)
   try:
     while sent < length:
-      sent += mysocket.send(data)
+      sent += mysocket.send(data[sent:])
   except:
     pass # could be socket error
   return sent
-- 
2.43.0


From 679777f46f36b49c3ec89aab6bfcc371323015a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:43 +0000
Subject: [PATCH 53/84] fix: the client libraries finish a packet when the
 socket is full for a while

---
 interoperability/mqtt/clients/V311/main.py | 5 ++++-
 interoperability/mqtt/clients/V5/main.py   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/clients/V311/main.py b/interoperability/mqtt/clients/V311/main.py
index 67a55a6..4856428 100755
--- a/interoperability/mqtt/clients/V311/main.py
+++ b/interoperability/mqtt/clients/V311/main.py
@@ -39,7 +39,10 @@ def sendtosocket(mysocket, data):
   sent = 0
   length = len(data)
   while sent < length:
-    sent += mysocket.send(data[sent:])
+    try:
+      sent += mysocket.send(data[sent:])
+    except socket.timeout:
+      pass # half a packet must not be left behind
 
 class Callback:
 
diff --git a/interoperability/mqtt/clients/V5/main.py b/interoperability/mqtt/clients/V5/main.py
index e5cb57c..93f7433 100755
--- a/interoperability/mqtt/clients/V5/main.py
+++ b/interoperability/mqtt/clients/V5/main.py
@@ -40,7 +40,10 @@ def sendtosocket(mysocket, data):
   length = len(data)
   try:
     while sent < length:
-      sent += mysocket.send(data[sent:])
+      try:
+        sent += mysocket.send(data[sent:])
+      except socket.timeout:
+        pass # half a packet must not be left behind
   except:
     pass # could be socket error
   return sent
-- 
2.43.0


From 9d7d6896ff4c40d5faa1f77f48b4f452142c8f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:54 +0000
Subject: [PATCH 54/84] fix: packets which the threads of a client send at the
 same time are not mixed up

---
 .../mqtt/clients/V311/internal.py             | 29 ++++++++++++----
 interoperability/mqtt/clients/V311/main.py    | 28 +++++++---------
 interoperability/mqtt/clients/V5/internal.py  | 33 +++++++++++++++----
 interoperability/mqtt/clients/V5/main.py      | 32 +++++++-----------
 4 files changed, 72 insertions(+), 50 deletions(-)

diff --git a/interoperability/mqtt/clients/V311/internal.py b/interoperability/mqtt/clients/V311/internal.py
index 6aab0b4..6ea2886 100755
--- a/interoperability/mqtt/clients/V311/internal.py
+++ b/interoperability/mqtt/clients/V311/internal.py
@@ -17,15 +17,26 @@
 """
 
 
-import time, sys, socket, traceback, logging
+import time, sys, socket, threading, traceback, logging
 
 from mqtt.formats import MQTTV311 as MQTTV3
 
+def sendtosocket(mysocket, data):
+  logging.debug("out: %s", str(data))
+  sent = 0
+  length = len(data)
+  while sent < length:
+    try:
+      sent += mysocket.send(data[sent:])
+    except socket.timeout:
+      pass # half a packet must not be left behind
+
 class Receivers:
 
-  def __init__(self, socket):
+  def __init__(self, socket, lock=None):
     logging.debug("initializing receiver")
     self.socket = socket
+    self.lock = lock or threading.RLock()
     self.stopping = False
     self.paused = False
 
@@ -38,6 +49,10 @@ class Receivers:
     self.pubcomp = MQTTV3.Pubcomps()
     self.running = False
 
+  def send(self, packet):
+    with self.lock:
+      sendtosocket(self.socket, packet.pack())
+
   def receive(self, callback=None):
     packet = None
     try:
@@ -75,7 +90,7 @@ class Receivers:
         self.outMsgs[packet.messageIdentifier].pubrec_received == True
         self.pubrel.messageIdentifier = packet.messageIdentifier
         logging.debug("out: %s", str(self.pubrel))
-        self.socket.send(self.pubrel.pack())
+        self.send(self.pubrel)
       else:
         raise Exception("PUBREC received for unknown msg id "+ \
                     str(packet.messageIdentifier))
@@ -93,7 +108,7 @@ class Receivers:
           del self.inMsgs[packet.messageIdentifier]
           self.pubcomp.messageIdentifier = packet.messageIdentifier
           logging.debug("out: %s", str(self.pubcomp))
-          self.socket.send(self.pubcomp.pack())
+          self.send(self.pubcomp)
         if callback == None:
           return (pub.topicName, pub.data, 2,
                            pub.fh.RETAIN, pub.messageIdentifier)
@@ -127,12 +142,12 @@ class Receivers:
                            packet.fh.RETAIN, packet.messageIdentifier):
             self.puback.messageIdentifier = packet.messageIdentifier
             logging.debug("out: %s", str(self.puback))
-            self.socket.send(self.puback.pack())
+            self.send(self.puback)
       elif packet.fh.QoS == 2:
         self.inMsgs[packet.messageIdentifier] = packet
         self.pubrec.messageIdentifier = packet.messageIdentifier
         logging.debug("out: %s", str(self.pubrec))
-        self.socket.send(self.pubrec.pack())
+        self.send(self.pubrec)
 
     else:
       raise Exception("Unexpected packet"+str(packet))
@@ -146,7 +161,7 @@ class Receivers:
       else:
         packet.fh.DUP = True
       logging.debug("out: %s", str(packet))
-      rc = self.socket.send(packet.pack())
+      self.send(packet)
 
   def __call__(self, callback):
     self.running = True
diff --git a/interoperability/mqtt/clients/V311/main.py b/interoperability/mqtt/clients/V311/main.py
index 4856428..347a340 100755
--- a/interoperability/mqtt/clients/V311/main.py
+++ b/interoperability/mqtt/clients/V311/main.py
@@ -17,9 +17,10 @@
 """
 
 
-import socket, time, _thread, logging
+import socket, time, _thread, threading, logging
 
 from . import internal
+from .internal import sendtosocket
 
 from mqtt.formats import MQTTV311 as MQTTV3
 
@@ -34,16 +35,6 @@ ch.setFormatter(formatter)
 ch.setLevel(logging.INFO)
 logger.addHandler(ch)
 
-def sendtosocket(mysocket, data):
-  logger.debug("out: %s", str(data))
-  sent = 0
-  length = len(data)
-  while sent < length:
-    try:
-      sent += mysocket.send(data[sent:])
-    except socket.timeout:
-      pass # half a packet must not be left behind
-
 class Callback:
 
   def connectionLost(self, cause):
@@ -71,6 +62,7 @@ class Client:
     self.msgid = 1
     self.callback = None
     self.__receiver = None
+    self.__lock = threading.RLock() # what is sent by different threads must not be mixed up
     self.cleansession = True
 
 
@@ -137,7 +129,7 @@ class Client:
     self.cleansession = cleansession
     assert response.returnCode == 0, "connect was %s" % str(response)
     if self.cleansession or self.__receiver == None:
-      self.__receiver = internal.Receivers(self.sock)
+      self.__receiver = internal.Receivers(self.sock, self.__lock)
     else:
       self.__receiver.socket = self.sock
     if self.callback:
@@ -152,7 +144,8 @@ class Client:
     for t in topics:
       subscribe.data.append((t, qoss[count]))
       count += 1
-    sendtosocket(self.sock, subscribe.pack())
+    with self.__lock:
+      sendtosocket(self.sock, subscribe.pack())
     return subscribe.messageIdentifier
 
 
@@ -160,7 +153,8 @@ class Client:
     unsubscribe = MQTTV3.Unsubscribes()
     unsubscribe.messageIdentifier = self.__nextMsgid()
     unsubscribe.data = topics
-    sendtosocket(self.sock, unsubscribe.pack())
+    with self.__lock:
+      sendtosocket(self.sock, unsubscribe.pack())
     return unsubscribe.messageIdentifier
 
 
@@ -177,7 +171,8 @@ class Client:
       self.__receiver.outMsgs[publish.messageIdentifier] = publish
     publish.topicName = topic
     publish.data = payload
-    sendtosocket(self.sock, publish.pack())
+    with self.__lock:
+      sendtosocket(self.sock, publish.pack())
     return publish.messageIdentifier
 
 
@@ -195,7 +190,8 @@ class Client:
         assert self.__receiver.inMsgs == {}, self.__receiver.inMsgs
         assert self.__receiver.outMsgs == {}, self.__receiver.outMsgs
     disconnect = MQTTV3.Disconnects()
-    sendtosocket(self.sock, disconnect.pack())
+    with self.__lock:
+      sendtosocket(self.sock, disconnect.pack())
     time.sleep(0.1)
     if self.cleansession:
       self.__receiver = None
diff --git a/interoperability/mqtt/clients/V5/internal.py b/interoperability/mqtt/clients/V5/internal.py
index 92c7989..896243e 100755
--- a/interoperability/mqtt/clients/V5/internal.py
+++ b/interoperability/mqtt/clients/V5/internal.py
@@ -17,18 +17,33 @@
 """
 
 
-import time, sys, socket, traceback, logging
+import time, sys, socket, threading, traceback, logging
 
 from mqtt.formats import MQTTV5
 
 logger = logging.getLogger("mqtt-client")
 logger.propagate = 1
 
+def sendtosocket(mysocket, data):
+  logger.debug("out: %s", str(data))
+  sent = 0
+  length = len(data)
+  try:
+    while sent < length:
+      try:
+        sent += mysocket.send(data[sent:])
+      except socket.timeout:
+        pass # half a packet must not be left behind
+  except:
+    pass # could be socket error
+  return sent
+
 class Receivers:
 
-  def __init__(self, socket):
+  def __init__(self, socket, lock=None):
     logger.debug("initializing receiver")
     self.socket = socket
+    self.lock = lock or threading.RLock()
     self.stopping = False
     self.paused = False
 
@@ -41,6 +56,10 @@ class Receivers:
     self.pubcomp = MQTTV5.Pubcomps()
     self.running = False
 
+  def send(self, packet):
+    with self.lock:
+      sendtosocket(self.socket, packet.pack())
+
   def receive(self, callback=None):
     packet = None
     try:
@@ -82,7 +101,7 @@ class Receivers:
         #self.outMsgs[packet.packetIdentifier].pubrec_received = True
         self.pubrel.packetIdentifier = packet.packetIdentifier
         logger.debug("out: %s", str(self.pubrel))
-        self.socket.send(self.pubrel.pack())
+        self.send(self.pubrel)
       else:
         raise Exception("PUBREC received for unknown msg id "+ \
                     str(packet.packetIdentifier))
@@ -100,7 +119,7 @@ class Receivers:
           del self.inMsgs[packet.packetIdentifier]
           self.pubcomp.packetIdentifier = packet.packetIdentifier
           logger.debug("out: %s", str(self.pubcomp))
-          self.socket.send(self.pubcomp.pack())
+          self.send(self.pubcomp)
         if callback == None:
           return (pub.topicName, pub.data, 2,
                            pub.fh.RETAIN, pub.packetIdentifier)
@@ -134,12 +153,12 @@ class Receivers:
                            packet.fh.RETAIN, packet.packetIdentifier, packet.properties):
             self.puback.packetIdentifier = packet.packetIdentifier
             logger.debug("out: %s", str(self.puback))
-            self.socket.send(self.puback.pack())
+            self.send(self.puback)
       elif packet.fh.QoS == 2:
         self.inMsgs[packet.packetIdentifier] = packet
         self.pubrec.packetIdentifier = packet.packetIdentifier
         logger.debug("out: %s", str(self.pubrec))
-        self.socket.send(self.pubrec.pack())
+        self.send(self.pubrec)
 
     else:
       raise Exception("Unexpected packet"+str(packet))
@@ -153,7 +172,7 @@ class Receivers:
       else:
         packet.fh.DUP = True
       logger.debug("out: %s", str(packet))
-      rc = self.socket.send(packet.pack())
+      self.send(packet)
 
   def __call__(self, callback):
     self.running = True
diff --git a/interoperability/mqtt/clients/V5/main.py b/interoperability/mqtt/clients/V5/main.py
index 93f7433..0f714a3 100755
--- a/interoperability/mqtt/clients/V5/main.py
+++ b/interoperability/mqtt/clients/V5/main.py
@@ -17,9 +17,10 @@
 """
 
 
-import socket, time, _thread, logging
+import socket, time, _thread, threading, logging
 
 from . import internal
+from .internal import sendtosocket
 
 from mqtt.formats import MQTTV5
 
@@ -34,20 +35,6 @@ ch.setFormatter(formatter)
 ch.setLevel(logging.INFO)
 logger.addHandler(ch)
 
-def sendtosocket(mysocket, data):
-  logger.debug("out: %s", str(data))
-  sent = 0
-  length = len(data)
-  try:
-    while sent < length:
-      try:
-        sent += mysocket.send(data[sent:])
-      except socket.timeout:
-        pass # half a packet must not be left behind
-  except:
-    pass # could be socket error
-  return sent
-
 class Callback:
 
   def connectionLost(self, cause):
@@ -81,6 +68,7 @@ class Client:
     self.msgid = 1
     self.callback = None
     self.__receiver = None
+    self.__lock = threading.RLock() # what is sent by different threads must not be mixed up
     self.cleanstart = True
     self.sessionexpiry = 0
 
@@ -154,7 +142,7 @@ class Client:
     self.cleanstart = cleanstart
     assert response.reasonCode.getName() == "Success", "connect was %s" % str(response)
     if self.cleanstart or self.__receiver == None:
-      self.__receiver = internal.Receivers(self.sock)
+      self.__receiver = internal.Receivers(self.sock, self.__lock)
     else:
       self.__receiver.socket = self.sock
     if self.callback:
@@ -171,7 +159,8 @@ class Client:
       count += 1
     if properties:
       subscribe.properties = properties
-    sendtosocket(self.sock, subscribe.pack())
+    with self.__lock:
+      sendtosocket(self.sock, subscribe.pack())
     return subscribe.packetIdentifier
 
 
@@ -179,7 +168,8 @@ class Client:
     unsubscribe = MQTTV5.Unsubscribes()
     unsubscribe.packetIdentifier = self.__nextMsgid()
     unsubscribe.topicFilters = topics
-    sendtosocket(self.sock, unsubscribe.pack())
+    with self.__lock:
+      sendtosocket(self.sock, unsubscribe.pack())
     return unsubscribe.packetIdentifier
 
 
@@ -198,7 +188,8 @@ class Client:
     if properties:
       publish.properties = properties
     publish.data = payload if type(payload) == type(b"") else bytes(payload, "utf8")
-    sendtosocket(self.sock, publish.pack())
+    with self.__lock:
+      sendtosocket(self.sock, publish.pack())
     return publish.packetIdentifier
 
 
@@ -218,7 +209,8 @@ class Client:
     disconnect = MQTTV5.Disconnects()
     if properties:
       disconnect.properties = properties
-    sendtosocket(self.sock, disconnect.pack())
+    with self.__lock:
+      sendtosocket(self.sock, disconnect.pack())
     time.sleep(1.1)
     if self.sessionexpiry == 0:
       self.__receiver = None
-- 
2.43.0


From 4f925e2c2dfb119690bd3c4c8320df2dcda015d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:14 +0000
Subject: [PATCH 55/84] fix: the threads of a client do not take the same
 message id

---
 interoperability/mqtt/clients/V311/main.py | 29 +++++++++++-----------
 interoperability/mqtt/clients/V5/main.py   | 29 +++++++++++-----------
 2 files changed, 30 insertions(+), 28 deletions(-)

diff --git a/interoperability/mqtt/clients/V311/main.py b/interoperability/mqtt/clients/V311/main.py
index 347a340..a2b19ee 100755
--- a/interoperability/mqtt/clients/V311/main.py
+++ b/interoperability/mqtt/clients/V311/main.py
@@ -73,13 +73,14 @@ class Client:
         id = 1
       return id
 
-    if len(self.__receiver.outMsgs) >= 65535:
-      raise "No slots left!!"
-    else:
-      self.msgid = getWrappedMsgid()
-      while self.msgid in self.__receiver.outMsgs.keys():
+    with self.__lock:
+      if len(self.__receiver.outMsgs) >= 65535:
+        raise "No slots left!!"
+      else:
         self.msgid = getWrappedMsgid()
-    return self.msgid
+        while self.msgid in self.__receiver.outMsgs.keys():
+          self.msgid = getWrappedMsgid()
+      return self.msgid
 
 
   def registerCallback(self, callback):
@@ -162,16 +163,16 @@ class Client:
     publish = MQTTV3.Publishes()
     publish.fh.QoS = qos
     publish.fh.RETAIN = retained
-    if qos == 0:
-      publish.messageIdentifier = 0
-    else:
-      publish.messageIdentifier = self.__nextMsgid()
-      if publish.fh.QoS == 2:
-        publish.pubrec_received = False
-      self.__receiver.outMsgs[publish.messageIdentifier] = publish
     publish.topicName = topic
     publish.data = payload
-    with self.__lock:
+    with self.__lock: # no other thread must get the same id, or send a later message first
+      if qos == 0:
+        publish.messageIdentifier = 0
+      else:
+        publish.messageIdentifier = self.__nextMsgid()
+        if publish.fh.QoS == 2:
+          publish.pubrec_received = False
+        self.__receiver.outMsgs[publish.messageIdentifier] = publish
       sendtosocket(self.sock, publish.pack())
     return publish.messageIdentifier
 
diff --git a/interoperability/mqtt/clients/V5/main.py b/interoperability/mqtt/clients/V5/main.py
index 0f714a3..cf3b2c4 100755
--- a/interoperability/mqtt/clients/V5/main.py
+++ b/interoperability/mqtt/clients/V5/main.py
@@ -80,13 +80,14 @@ class Client:
         id = 1
       return id
 
-    if len(self.__receiver.outMsgs) >= 65535:
-      raise "No slots left!!"
-    else:
-      self.msgid = getWrappedMsgid()
-      while self.msgid in self.__receiver.outMsgs.keys():
+    with self.__lock:
+      if len(self.__receiver.outMsgs) >= 65535:
+        raise "No slots left!!"
+      else:
         self.msgid = getWrappedMsgid()
-    return self.msgid
+        while self.msgid in self.__receiver.outMsgs.keys():
+          self.msgid = getWrappedMsgid()
+      return self.msgid
 
 
   def registerCallback(self, callback):
@@ -177,18 +178,18 @@ class Client:
     publish = MQTTV5.Publishes()
     publish.fh.QoS = qos
     publish.fh.RETAIN = retained
-    if qos == 0:
-      publish.packetIdentifier = 0
-    else:
-      publish.packetIdentifier = self.__nextMsgid()
-      if publish.fh.QoS == 2:
-        pass #publish.pubrec_received = False
-      self.__receiver.outMsgs[publish.packetIdentifier] = publish
     publish.topicName = topic
     if properties:
       publish.properties = properties
     publish.data = payload if type(payload) == type(b"") else bytes(payload, "utf8")
-    with self.__lock:
+    with self.__lock: # no other thread must get the same id, or send a later message first
+      if qos == 0:
+        publish.packetIdentifier = 0
+      else:
+        publish.packetIdentifier = self.__nextMsgid()
+        if publish.fh.QoS == 2:
+          pass #publish.pubrec_received = False
+        self.__receiver.outMsgs[publish.packetIdentifier] = publish
       sendtosocket(self.sock, publish.pack())
     return publish.packetIdentifier
 
-- 
2.43.0


From 194e21c6c4993e790b2773cb8f90f1a834e6bfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:14 +0000
Subject: [PATCH 56/84] fix: the client libraries answer a PUBREL of a message
 they have finished with PUBCOMP

---
 interoperability/mqtt/clients/V311/internal.py | 5 ++++-
 interoperability/mqtt/clients/V5/internal.py   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/clients/V311/internal.py b/interoperability/mqtt/clients/V311/internal.py
index 6ea2886..a65cb37 100755
--- a/interoperability/mqtt/clients/V311/internal.py
+++ b/interoperability/mqtt/clients/V311/internal.py
@@ -99,7 +99,10 @@ class Receivers:
       "release QOS 2 publication to client, & send PUBCOMP"
       msgid = packet.messageIdentifier
       if packet.messageIdentifier not in self.inMsgs.keys():
-        pass # what should we do here?
+        # the message has been given to the application, but the PUBCOMP was lost
+        self.pubcomp.messageIdentifier = packet.messageIdentifier
+        logging.debug("out: %s", str(self.pubcomp))
+        self.send(self.pubcomp)
       else:
         pub = self.inMsgs[packet.messageIdentifier]
         if callback == None or \
diff --git a/interoperability/mqtt/clients/V5/internal.py b/interoperability/mqtt/clients/V5/internal.py
index 896243e..9070f1a 100755
--- a/interoperability/mqtt/clients/V5/internal.py
+++ b/interoperability/mqtt/clients/V5/internal.py
@@ -110,7 +110,10 @@ class Receivers:
       "release QOS 2 publication to client, & send PUBCOMP"
       msgid = packet.packetIdentifier
       if packet.packetIdentifier not in self.inMsgs.keys():
-        pass # what should we do here?
+        # the message has been given to the application, but the PUBCOMP was lost
+        self.pubcomp.packetIdentifier = packet.packetIdentifier
+        logger.debug("out: %s", str(self.pubcomp))
+        self.send(self.pubcomp)
       else:
         pub = self.inMsgs[packet.packetIdentifier]
         if callback == None or \
-- 
2.43.0


From 6ead74b0bd13931370c33aa0a706eb632cd4c55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:14 +0000
Subject: [PATCH 57/84] fix: resend() sends PUBREL only, and always, for the
 messages whose PUBREC has arrived

---
 interoperability/mqtt/clients/V311/internal.py | 6 ++++--
 interoperability/mqtt/clients/V311/main.py     | 2 --
 interoperability/mqtt/clients/V5/internal.py   | 6 ++++--
 interoperability/mqtt/clients/V5/main.py       | 2 --
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/interoperability/mqtt/clients/V311/internal.py b/interoperability/mqtt/clients/V311/internal.py
index a65cb37..5d80519 100755
--- a/interoperability/mqtt/clients/V311/internal.py
+++ b/interoperability/mqtt/clients/V311/internal.py
@@ -42,6 +42,7 @@ class Receivers:
 
     self.inMsgs = {}
     self.outMsgs = {}
+    self.pubrecs = set() # ids of the messages in outMsgs for which a PUBREC has arrived
 
     self.puback = MQTTV3.Pubacks()
     self.pubrec = MQTTV3.Pubrecs()
@@ -87,7 +88,7 @@ class Receivers:
 
     elif packet.fh.MessageType == MQTTV3.PUBREC:
       if packet.messageIdentifier in self.outMsgs.keys():
-        self.outMsgs[packet.messageIdentifier].pubrec_received == True
+        self.pubrecs.add(packet.messageIdentifier)
         self.pubrel.messageIdentifier = packet.messageIdentifier
         logging.debug("out: %s", str(self.pubrel))
         self.send(self.pubrel)
@@ -120,6 +121,7 @@ class Receivers:
       "finished with this message id"
       if packet.messageIdentifier in self.outMsgs.keys():
         del self.outMsgs[packet.messageIdentifier]
+        self.pubrecs.discard(packet.messageIdentifier)
         if hasattr(callback, "published"):
           callback.published(packet.messageIdentifier)
       else:
@@ -158,7 +160,7 @@ class Receivers:
   def resend(self):
     for packetid in self.outMsgs.keys():
       packet = self.outMsgs[packetid]
-      if packet.fh.QoS == 2 and hasattr(packet, "pubrec_received"):
+      if packetid in self.pubrecs:
         self.pubrel.messageIdentifier = packet.messageIdentifier
         packet = self.pubrel
       else:
diff --git a/interoperability/mqtt/clients/V311/main.py b/interoperability/mqtt/clients/V311/main.py
index a2b19ee..011888a 100755
--- a/interoperability/mqtt/clients/V311/main.py
+++ b/interoperability/mqtt/clients/V311/main.py
@@ -170,8 +170,6 @@ class Client:
         publish.messageIdentifier = 0
       else:
         publish.messageIdentifier = self.__nextMsgid()
-        if publish.fh.QoS == 2:
-          publish.pubrec_received = False
         self.__receiver.outMsgs[publish.messageIdentifier] = publish
       sendtosocket(self.sock, publish.pack())
     return publish.messageIdentifier
diff --git a/interoperability/mqtt/clients/V5/internal.py b/interoperability/mqtt/clients/V5/internal.py
index 9070f1a..560d657 100755
--- a/interoperability/mqtt/clients/V5/internal.py
+++ b/interoperability/mqtt/clients/V5/internal.py
@@ -49,6 +49,7 @@ class Receivers:
 
     self.inMsgs = {}
     self.outMsgs = {}
+    self.pubrecs = set() # ids of the messages in outMsgs for which a PUBREC has arrived
 
     self.puback = MQTTV5.Pubacks()
     self.pubrec = MQTTV5.Pubrecs()
@@ -98,7 +99,7 @@ class Receivers:
 
     elif packet.fh.PacketType == MQTTV5.PacketTypes.PUBREC:
       if packet.packetIdentifier in self.outMsgs.keys():
-        #self.outMsgs[packet.packetIdentifier].pubrec_received = True
+        self.pubrecs.add(packet.packetIdentifier)
         self.pubrel.packetIdentifier = packet.packetIdentifier
         logger.debug("out: %s", str(self.pubrel))
         self.send(self.pubrel)
@@ -131,6 +132,7 @@ class Receivers:
       "finished with this message id"
       if packet.packetIdentifier in self.outMsgs.keys():
         del self.outMsgs[packet.packetIdentifier]
+        self.pubrecs.discard(packet.packetIdentifier)
         if hasattr(callback, "published"):
           callback.published(packet.packetIdentifier)
       else:
@@ -169,7 +171,7 @@ class Receivers:
   def resend(self):
     for packetid in self.outMsgs.keys():
       packet = self.outMsgs[packetid]
-      if packet.fh.QoS == 2 and hasattr(packet, "pubrec_received"):
+      if packetid in self.pubrecs:
         self.pubrel.packetIdentifier = packet.packetIdentifier
         packet = self.pubrel
       else:
diff --git a/interoperability/mqtt/clients/V5/main.py b/interoperability/mqtt/clients/V5/main.py
index cf3b2c4..6fd6687 100755
--- a/interoperability/mqtt/clients/V5/main.py
+++ b/interoperability/mqtt/clients/V5/main.py
@@ -187,8 +187,6 @@ class Client:
         publish.packetIdentifier = 0
       else:
         publish.packetIdentifier = self.__nextMsgid()
-        if publish.fh.QoS == 2:
-          pass #publish.pubrec_received = False
         self.__receiver.outMsgs[publish.packetIdentifier] = publish
       sendtosocket(self.sock, publish.pack())
     return publish.packetIdentifier
-- 
2.43.0


From 5e6b8e7f619b3937d4e162be499bcd83043d2824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:31 +0000
Subject: [PATCH 58/84] fix: the receiver thread of a client ends with its
 connection, and before the next connection starts

---
 interoperability/mqtt/clients/V311/internal.py | 15 +++++++++++++--
 interoperability/mqtt/clients/V311/main.py     |  4 ++++
 interoperability/mqtt/clients/V5/internal.py   | 15 +++++++++++++--
 interoperability/mqtt/clients/V5/main.py       |  4 ++++
 4 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/interoperability/mqtt/clients/V311/internal.py b/interoperability/mqtt/clients/V311/internal.py
index 5d80519..e68d2e0 100755
--- a/interoperability/mqtt/clients/V311/internal.py
+++ b/interoperability/mqtt/clients/V311/internal.py
@@ -17,7 +17,7 @@
 """
 
 
-import time, sys, socket, threading, traceback, logging
+import time, sys, socket, _thread, threading, traceback, logging
 
 from mqtt.formats import MQTTV311 as MQTTV3
 
@@ -49,6 +49,8 @@ class Receivers:
     self.pubrel = MQTTV3.Pubrels()
     self.pubcomp = MQTTV3.Pubcomps()
     self.running = False
+    self.thread = None # id of the thread running this
+    self.closed = False # the other side has closed the connection
 
   def send(self, packet):
     with self.lock:
@@ -58,6 +60,7 @@ class Receivers:
     packet = None
     try:
       packet = MQTTV3.unpackPacket(MQTTV3.getPacket(self.socket))
+      self.closed = packet == None
     except:
       if not self.stopping and sys.exc_info()[0] != socket.timeout:
         logging.error("receive: unexpected exception %s", str(sys.exc_info()))
@@ -168,10 +171,18 @@ class Receivers:
       logging.debug("out: %s", str(packet))
       self.send(packet)
 
+  def stop(self):
+    "wait for the end of the thread running this"
+    self.stopping = True
+    while self.running and self.thread != _thread.get_ident():
+      time.sleep(0.1)
+    self.stopping = False
+
   def __call__(self, callback):
     self.running = True
     try:
-      while not self.stopping:
+      self.thread = _thread.get_ident()
+      while not self.stopping and not self.closed:
         self.receive(callback)
     except:
       if not self.stopping and sys.exc_info()[0] != socket.error:
diff --git a/interoperability/mqtt/clients/V311/main.py b/interoperability/mqtt/clients/V311/main.py
index 011888a..16578c4 100755
--- a/interoperability/mqtt/clients/V311/main.py
+++ b/interoperability/mqtt/clients/V311/main.py
@@ -94,6 +94,8 @@ class Client:
         self.sock.close()
       except:
         pass
+      if self.__receiver:
+        self.__receiver.stop()
       self.sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
       self.sock.settimeout(.5)
       self.sock.connect((host, port))
@@ -133,7 +135,9 @@ class Client:
       self.__receiver = internal.Receivers(self.sock, self.__lock)
     else:
       self.__receiver.socket = self.sock
+      self.__receiver.closed = False
     if self.callback:
+      self.__receiver.running = True
       id = _thread.start_new_thread(self.__receiver, (self.callback,))
     return response
 
diff --git a/interoperability/mqtt/clients/V5/internal.py b/interoperability/mqtt/clients/V5/internal.py
index 560d657..de14550 100755
--- a/interoperability/mqtt/clients/V5/internal.py
+++ b/interoperability/mqtt/clients/V5/internal.py
@@ -17,7 +17,7 @@
 """
 
 
-import time, sys, socket, threading, traceback, logging
+import time, sys, socket, _thread, threading, traceback, logging
 
 from mqtt.formats import MQTTV5
 
@@ -56,6 +56,8 @@ class Receivers:
     self.pubrel = MQTTV5.Pubrels()
     self.pubcomp = MQTTV5.Pubcomps()
     self.running = False
+    self.thread = None # id of the thread running this
+    self.closed = False # the other side has closed the connection
 
   def send(self, packet):
     with self.lock:
@@ -65,6 +67,7 @@ class Receivers:
     packet = None
     try:
       packet = MQTTV5.unpackPacket(MQTTV5.getPacket(self.socket))
+      self.closed = packet == None
     except:
       if not self.stopping and sys.exc_info()[0] != socket.timeout:
         logger.info("receive: unexpected exception %s", str(sys.exc_info()))
@@ -179,10 +182,18 @@ class Receivers:
       logger.debug("out: %s", str(packet))
       self.send(packet)
 
+  def stop(self):
+    "wait for the end of the thread running this"
+    self.stopping = True
+    while self.running and self.thread != _thread.get_ident():
+      time.sleep(0.1)
+    self.stopping = False
+
   def __call__(self, callback):
     self.running = True
     try:
-      while not self.stopping:
+      self.thread = _thread.get_ident()
+      while not self.stopping and not self.closed:
         self.receive(callback)
     except:
       if not self.stopping and sys.exc_info()[0] != socket.error:
diff --git a/interoperability/mqtt/clients/V5/main.py b/interoperability/mqtt/clients/V5/main.py
index 6fd6687..2014dc1 100755
--- a/interoperability/mqtt/clients/V5/main.py
+++ b/interoperability/mqtt/clients/V5/main.py
@@ -102,6 +102,8 @@ class Client:
         self.sock.close()
       except:
         pass
+      if self.__receiver:
+        self.__receiver.stop()
       self.sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
       self.sock.settimeout(.5)
       self.sock.connect((host, port))
@@ -146,7 +148,9 @@ class Client:
       self.__receiver = internal.Receivers(self.sock, self.__lock)
     else:
       self.__receiver.socket = self.sock
+      self.__receiver.closed = False
     if self.callback:
+      self.__receiver.running = True
       id = _thread.start_new_thread(self.__receiver, (self.callback,))
     return response
 
-- 
2.43.0


From f8cdd6b42fb187b7ac8a7f4c0b8333c8af0a68cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:31 +0000
Subject: [PATCH 59/84] fix: the client libraries take up the session again
 when the server has kept it, and only then

---
 interoperability/mqtt/clients/V311/main.py | 3 ++-
 interoperability/mqtt/clients/V5/main.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/clients/V311/main.py b/interoperability/mqtt/clients/V311/main.py
index 16578c4..f488e1f 100755
--- a/interoperability/mqtt/clients/V311/main.py
+++ b/interoperability/mqtt/clients/V311/main.py
@@ -131,11 +131,12 @@ class Client:
 
     self.cleansession = cleansession
     assert response.returnCode == 0, "connect was %s" % str(response)
-    if self.cleansession or self.__receiver == None:
+    if self.cleansession or self.__receiver == None or not response.flags & 1:
       self.__receiver = internal.Receivers(self.sock, self.__lock)
     else:
       self.__receiver.socket = self.sock
       self.__receiver.closed = False
+      self.__receiver.resend()
     if self.callback:
       self.__receiver.running = True
       id = _thread.start_new_thread(self.__receiver, (self.callback,))
diff --git a/interoperability/mqtt/clients/V5/main.py b/interoperability/mqtt/clients/V5/main.py
index 2014dc1..5dd3bf6 100755
--- a/interoperability/mqtt/clients/V5/main.py
+++ b/interoperability/mqtt/clients/V5/main.py
@@ -144,11 +144,12 @@ class Client:
 
     self.cleanstart = cleanstart
     assert response.reasonCode.getName() == "Success", "connect was %s" % str(response)
-    if self.cleanstart or self.__receiver == None:
+    if self.cleanstart or self.__receiver == None or not response.sessionPresent:
       self.__receiver = internal.Receivers(self.sock, self.__lock)
     else:
       self.__receiver.socket = self.sock
       self.__receiver.closed = False
+      self.__receiver.resend()
     if self.callback:
       self.__receiver.running = True
       id = _thread.start_new_thread(self.__receiver, (self.callback,))
-- 
2.43.0


From c5792f721ee9d5065943d341838d7699d097df8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:31 +0000
Subject: [PATCH 60/84] fix: disconnect() lets the receiver thread finish the
 outstanding exchanges

---
 interoperability/mqtt/clients/V311/main.py | 2 +-
 interoperability/mqtt/clients/V5/main.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/clients/V311/main.py b/interoperability/mqtt/clients/V311/main.py
index f488e1f..699d997 100755
--- a/interoperability/mqtt/clients/V311/main.py
+++ b/interoperability/mqtt/clients/V311/main.py
@@ -182,7 +182,6 @@ class Client:
 
   def disconnect(self):
     if self.__receiver:
-      self.__receiver.stopping = True
       count = 0
       while (len(self.__receiver.inMsgs) > 0 or len(self.__receiver.outMsgs) > 0) and self.__receiver.paused == False:
         logger.debug("disconnecting %s %s", self.__receiver.inMsgs, self.__receiver.outMsgs)
@@ -193,6 +192,7 @@ class Client:
       if self.__receiver and self.__receiver.paused == False:
         assert self.__receiver.inMsgs == {}, self.__receiver.inMsgs
         assert self.__receiver.outMsgs == {}, self.__receiver.outMsgs
+      self.__receiver.stopping = True
     disconnect = MQTTV3.Disconnects()
     with self.__lock:
       sendtosocket(self.sock, disconnect.pack())
diff --git a/interoperability/mqtt/clients/V5/main.py b/interoperability/mqtt/clients/V5/main.py
index 5dd3bf6..d443ae1 100755
--- a/interoperability/mqtt/clients/V5/main.py
+++ b/interoperability/mqtt/clients/V5/main.py
@@ -199,7 +199,6 @@ class Client:
 
   def disconnect(self, properties=None):
     if self.__receiver:
-      self.__receiver.stopping = True
       count = 0
       while (len(self.__receiver.inMsgs) > 0 or len(self.__receiver.outMsgs) > 0) and self.__receiver.paused == False:
         logger.debug("disconnecting %s %s", self.__receiver.inMsgs, self.__receiver.outMsgs)
@@ -210,6 +209,7 @@ class Client:
       if self.__receiver and self.__receiver.paused == False:
         assert self.__receiver.inMsgs == {}, self.__receiver.inMsgs
         assert self.__receiver.outMsgs == {}, self.__receiver.outMsgs
+      self.__receiver.stopping = True
     disconnect = MQTTV5.Disconnects()
     if properties:
       disconnect.properties = properties
-- 
2.43.0


From 1098dfddbb0861a214f89918d7a0fc14f2db9458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:52 +0000
Subject: [PATCH 61/84] fix: a client does not lose its place in the stream
 when a packet arrives with a pause in it

---
 .../mqtt/clients/V311/internal.py             | 25 ++++++++++++++++++-
 interoperability/mqtt/clients/V5/internal.py  | 25 ++++++++++++++++++-
 2 files changed, 48 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/clients/V311/internal.py b/interoperability/mqtt/clients/V311/internal.py
index e68d2e0..bcec055 100755
--- a/interoperability/mqtt/clients/V311/internal.py
+++ b/interoperability/mqtt/clients/V311/internal.py
@@ -31,6 +31,29 @@ def sendtosocket(mysocket, data):
     except socket.timeout:
       pass # half a packet must not be left behind
 
+class PacketSockets:
+  "a socket which times out before a packet only, not within it"
+
+  def __init__(self, socket):
+    self.socket = socket
+    self.started = False
+
+  def __getattr__(self, name):
+    return getattr(self.socket, name)
+
+  def __str__(self):
+    return str(self.socket)
+
+  def recv(self, size):
+    while True:
+      try:
+        data = self.socket.recv(size)
+        self.started = True
+        return data
+      except socket.timeout:
+        if not self.started:
+          raise
+
 class Receivers:
 
   def __init__(self, socket, lock=None):
@@ -59,7 +82,7 @@ class Receivers:
   def receive(self, callback=None):
     packet = None
     try:
-      packet = MQTTV3.unpackPacket(MQTTV3.getPacket(self.socket))
+      packet = MQTTV3.unpackPacket(MQTTV3.getPacket(PacketSockets(self.socket)))
       self.closed = packet == None
     except:
       if not self.stopping and sys.exc_info()[0] != socket.timeout:
diff --git a/interoperability/mqtt/clients/V5/internal.py b/interoperability/mqtt/clients/V5/internal.py
index de14550..b0a9fb5 100755
--- a/interoperability/mqtt/clients/V5/internal.py
+++ b/interoperability/mqtt/clients/V5/internal.py
@@ -38,6 +38,29 @@ def sendtosocket(mysocket, data):
     pass # could be socket error
   return sent
 
+class PacketSockets:
+  "a socket which times out before a packet only, not within it"
+
+  def __init__(self, socket):
+    self.socket = socket
+    self.started = False
+
+  def __getattr__(self, name):
+    return getattr(self.socket, name)
+
+  def __str__(self):
+    return str(self.socket)
+
+  def recv(self, size):
+    while True:
+      try:
+        data = self.socket.recv(size)
+        self.started = True
+        return data
+      except socket.timeout:
+        if not self.started:
+          raise
+
 class Receivers:
 
   def __init__(self, socket, lock=None):
@@ -66,7 +89,7 @@ class Receivers:
   def receive(self, callback=None):
     packet = None
     try:
-      packet = MQTTV5.unpackPacket(MQTTV5.getPacket(self.socket))
+      packet = MQTTV5.unpackPacket(MQTTV5.getPacket(PacketSockets(self.socket)))
       self.closed = packet == None
     except:
       if not self.stopping and sys.exc_info()[0] != socket.timeout:
-- 
2.43.0


From 9ef70141b1ad3970bb25b9dd58ec9501757503da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:21 +0000
Subject: [PATCH 62/84] fix: the user name and password flags of a packed
 CONNECT are the right way round

---
 interoperability/mqtt/formats/MQTTV311/MQTTV311.py | 2 +-
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index 0b147a6..f8acb17 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -248,7 +248,7 @@ class Connects(Packets):
   def pack(self):
     connectFlags = bytes([(self.CleanSession << 1) | (self.WillFlag << 2) | \
                        (self.WillQoS << 3) | (self.WillRETAIN << 5) | \
-                       (self.usernameFlag << 6) | (self.passwordFlag << 7)])
+                       (self.usernameFlag << 7) | (self.passwordFlag << 6)])
     buffer = writeUTF(self.ProtocolName) + bytes([self.ProtocolVersion]) + \
               connectFlags + writeInt16(self.KeepAliveTimer)
     buffer += writeUTF(self.ClientIdentifier)
diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 12d0cc3..b0b3ff3 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -699,7 +699,7 @@ class Connects(Packets):
   def pack(self):
     connectFlags = bytes([(self.CleanStart << 1) | (self.WillFlag << 2) | \
                        (self.WillQoS << 3) | (self.WillRETAIN << 5) | \
-                       (self.usernameFlag << 6) | (self.passwordFlag << 7)])
+                       (self.usernameFlag << 7) | (self.passwordFlag << 6)])
     buffer = writeUTF(self.ProtocolName) + bytes([self.ProtocolVersion]) + \
               connectFlags + writeInt16(self.KeepAliveTimer)
     buffer += self.properties.pack()
-- 
2.43.0


From 1b16bbec5de4a5b89e3793dbb819e9efed9aff6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:37 +0000
Subject: [PATCH 63/84] fix: cmd/disconnectWithRC disconnects with the
 requested reason code and its properties

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index c404022..8ad57d1 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -747,11 +747,11 @@ class MQTTBrokers:
     """
     logger.info("Command Mode: Topic: %s, Payload: %s" % (topic, int(data)))
     if topic == "cmd/disconnectWithRC":
-        returnCode = int(data)
+        returnCode = MQTTV5.ReasonCodes(MQTTV5.PacketTypes.DISCONNECT, identifier=int(data)).getName()
         props = MQTTV5.Properties(MQTTV5.PacketTypes.DISCONNECT)
         props.ReasonString = "This is a custom Reason String"
         props.ServerReference = "tcp://localhost:1883"
-        props.UserPropertyList = [("key", "value")]
+        props.UserProperty = ("key", "value")
         self.disconnect(sock,
                         None,
                         sendWillMessage=False,
-- 
2.43.0


From 74bef96a60569b5dd7fa77ee76d15f333911b336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:37 +0000
Subject: [PATCH 64/84] fix: several unfinished publications to
 test_qos_1_2_errors_pubcomp all get their error

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 8ad57d1..8163b72 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -125,6 +125,7 @@ class MQTTClients:
       self.inbound = {} # stored inbound QoS 2 publications
     else:
       self.inbound = []
+    self.pubcomp_errors = set() # ids of inbound QoS 2 publications whose pubcomp must report an error
     # Keep alive
     self.keepalive = keepalive
     self.lastPacket = None # time of last packet
@@ -722,7 +723,7 @@ class MQTTBrokers:
                    packet.data, packet.fh.QoS, packet.fh.RETAIN, packet.properties,
                    packet.receivedTime)
               if packet.topicName == "test_qos_1_2_errors_pubcomp":
-                myclient.pubcomp_error = packet.packetIdentifier
+                myclient.pubcomp_errors.add(packet.packetIdentifier)
           resp = MQTTV5.Pubrecs()
           logger.info("[MQTT5-2.2.1-5-pubrec] pubrec message id same as publish")
           resp.packetIdentifier = packet.packetIdentifier
@@ -776,12 +777,11 @@ class MQTTBrokers:
       resp.reasonCode.set("Packet identifier not found")
       resp.properties.ReasonString = "Looking for packet id "+str(packet.packetIdentifier)
     elif (hasattr(pub, "topicName") and pub.topicName == "test_qos_1_2_errors_pubcomp") or \
-         (hasattr(myclient, "pubcomp_error") and myclient.pubcomp_error == packet.packetIdentifier):
+         packet.packetIdentifier in myclient.pubcomp_errors:
       resp.reasonCode.set("Packet identifier not found")
       if hasattr(packet.properties, "UserProperty"):
         resp.properties.UserProperty = packet.properties.UserProperty
-      if hasattr(myclient, "pubcomp_error"):
-        del myclient.pubcomp_error
+      myclient.pubcomp_errors.discard(packet.packetIdentifier)
     respond(sock, resp)
 
   def pingreq(self, sock, packet):
-- 
2.43.0


From 04ae428a7733b34c4f8c6270e8f6536d3f2873e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:34 +0000
Subject: [PATCH 65/84] fix: packets with lengths which reach beyond their end
 are malformed

---
 interoperability/mqtt/formats/MQTTV311/MQTTV311.py | 1 +
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py     | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index f8acb17..77d8cf9 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -203,6 +203,7 @@ def writeBytes(buffer):
 
 def readBytes(buffer):
   length = readInt16(buffer)
+  assert len(buffer) >= 2+length, "Length delimited data too long"
   return buffer[2:2+length]
 
 
diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index b0b3ff3..e6885a2 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -411,6 +411,8 @@ def writeBytes(buffer):
 
 def readBytes(buffer):
   length = readInt16(buffer)
+  if len(buffer) < 2+length:
+    raise MalformedPacket("Length delimited data too long")
   return buffer[2:2+length], length+2
 
 
@@ -644,6 +646,8 @@ class Properties(object):
     # deserialize properties into attributes from buffer received from network
     propslen, VBIlen = VBIs.decode(buffer)
     buffer = buffer[VBIlen:] # strip the bytes used by the VBI
+    if len(buffer) < propslen:
+      raise MalformedPacket("Properties longer than the packet")
     propslenleft = propslen
     while propslenleft > 0: # properties length is 0 if there are none
       identifier, identlen = VBIs.decode(buffer) # property identifier
@@ -658,6 +662,8 @@ class Properties(object):
       if not self.allowsMultiple(compressedName) and hasattr(self, compressedName):
         raise ProtocolError("Protocol error", "Property '%s' must not exist more than once" % propname)
       setattr(self, propname, value)
+    if propslenleft != 0:
+      raise MalformedPacket("A property does not fit in the length of the properties")
     return self, propslen + VBIlen
 
 
-- 
2.43.0


From 10ac96b7bc7e5b55fd9d90f5c8e977bd9954bbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:34 +0000
Subject: [PATCH 66/84] fix: acknowledgements with bytes after their end are
 malformed

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index e6885a2..6cffe62 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -1131,7 +1131,9 @@ class Acks(Packets):
       self.reasonCode.unpack(buffer[curlen:])
       curlen += 1
     if self.fh.remainingLength > 3:
-      self.properties.unpack(buffer[curlen:])
+      curlen += self.properties.unpack(buffer[curlen:])[1]
+    assert curlen == fhlen + self.fh.remainingLength, \
+        "%s packet is wrong length %d" % (self.ackName, self.fh.remainingLength)
     return fhlen + self.fh.remainingLength
 
   def __str__(self):
-- 
2.43.0


From faea18fd7248edfae8bbea790775fee7a7b6d853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:34 +0000
Subject: [PATCH 67/84] fix: an empty user name or password may be the last
 field of a CONNECT

---
 interoperability/mqtt/formats/MQTTV311/MQTTV311.py | 4 ++--
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index 77d8cf9..1f69a4f 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -316,7 +316,7 @@ class Connects(Packets):
         self.WillTopic = self.WillMessage = None
 
       if self.usernameFlag:
-        assert len(buffer) > curlen+2, "Buffer too short to read username length"
+        assert len(buffer) >= curlen+2, "Buffer too short to read username length"
         self.username = readUTF(buffer[curlen:], packlen - curlen)
         curlen += lenUTF(self.username)
         logger.info("[MQTT-3.1.2-19] username must be in payload if user name flag is 1")
@@ -325,7 +325,7 @@ class Connects(Packets):
         assert self.passwordFlag == False, "[MQTT-3.1.2-22] password flag must be 0 if username flag is 0"
 
       if self.passwordFlag:
-        assert len(buffer) > curlen+2, "Buffer too short to read password length"
+        assert len(buffer) >= curlen+2, "Buffer too short to read password length"
         self.password = readBytes(buffer[curlen:])
         curlen += len(self.password) + 2
         logger.info("[MQTT-3.1.2-21] password must be in payload if password flag is 0")
diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 6cffe62..71aa323 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -785,7 +785,7 @@ class Connects(Packets):
         self.WillTopic = self.WillMessage = None
 
       if self.usernameFlag:
-        assert len(buffer) > curlen+2, "Buffer too short to read username length"
+        assert len(buffer) >= curlen+2, "Buffer too short to read username length"
         self.username, valuelen = readUTF(buffer[curlen:], packlen - curlen)
         curlen += valuelen
         logger.info("[MQTT5-3.1.2-17] username must be in payload if user name flag is 1")
@@ -795,7 +795,7 @@ class Connects(Packets):
         assert self.passwordFlag == False, "[MQTT5-3.1.2-22] password flag must be 0 if username flag is 0"
 
       if self.passwordFlag:
-        assert len(buffer) > curlen+2, "Buffer too short to read password length"
+        assert len(buffer) >= curlen+2, "Buffer too short to read password length"
         self.password, valuelen = readBytes(buffer[curlen:])
         curlen += valuelen
         logger.info("[MQTT5-3.1.2-19] password must be in payload if password flag is 1")
-- 
2.43.0


From d81169cef9b2a536e39437346c5569dad5db382e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:57 +0000
Subject: [PATCH 68/84] fix: property values which MQTT 5 does not allow are
 protocol errors

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 71aa323..1e1bb4e 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -24,7 +24,7 @@ so that the tests that use this package can send invalid data for error testing.
 
 """
 
-import logging, struct
+import logging, struct, traceback
 
 logger = logging.getLogger('MQTT broker')
 
@@ -661,6 +661,9 @@ class Properties(object):
       compressedName = propname.replace(' ', '')
       if not self.allowsMultiple(compressedName) and hasattr(self, compressedName):
         raise ProtocolError("Protocol error", "Property '%s' must not exist more than once" % propname)
+      if (compressedName in ["PayloadFormatIndicator", "RequestProblemInformation", "RequestResponseInformation"] and value > 1) or \
+         (compressedName in ["ReceiveMaximum", "MaximumPacketSize", "SubscriptionIdentifier"] and value == 0):
+        raise ProtocolError("Protocol error", "Property '%s' must not be %d" % (propname, value))
       setattr(self, propname, value)
     if propslenleft != 0:
       raise MalformedPacket("A property does not fit in the length of the properties")
-- 
2.43.0


From c2fb9a07f036d92c8bc2911806ff1282a3e09eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:57 +0000
Subject: [PATCH 69/84] fix: subscribe options and identifiers which MQTT 5
 does not allow are refused

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 1e1bb4e..59e78d0 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -1213,6 +1213,7 @@ class SubscribeOptions(object):
     self.retainAsPublished = True if ((b0 >> 3) & 0x01) == 1 else False
     self.noLocal = True if ((b0 >> 2) & 0x01) == 1 else False
     self.QoS = (b0 & 0x03)
+    assert (b0 & 0xC0) == 0, "[MQTT5-3.8.3-5] reserved bits of the subscription options must be 0"
     assert self.retainHandling in [0, 1, 2], "Retain handling should be 0, 1 or 2, not %d" % self.retainHandling
     assert self.QoS in [0, 1, 2], "QoS should be 0, 1 or 2, not %d" % self.QoS
     return 1
@@ -1276,7 +1277,11 @@ class Subscribes(Packets):
       options = SubscribeOptions()
       options.unpack(buffer[-leftlen:])
       leftlen -= 1
+      if options.noLocal and topic.startswith("$share/"):
+        raise ProtocolError("Protocol error", "[MQTT5-3.8.3-4] no local on a shared subscription")
       self.data.append((topic, options))
+    if len(getattr(self.properties, "SubscriptionIdentifier", [])) > 1:
+      raise ProtocolError("Protocol error", "more than one subscription identifier")
     assert len(self.data) > 0, "[MQTT5-3.8.3-1] at least one topic, qos pair must be in subscribe"
     assert leftlen == 0
     assert self.fh.DUP == False, "[MQTT5-2.1.3-1] DUP must be false in subscribe"
-- 
2.43.0


From 16319614b8c13f4e63a99d3535f466ee9ef6cc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:57 +0000
Subject: [PATCH 70/84] fix: an UNSUBSCRIBE without topic filters is malformed

---
 interoperability/mqtt/formats/MQTTV311/MQTTV311.py | 1 +
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index 1f69a4f..81200ab 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -792,6 +792,7 @@ class Unsubscribes(Packets):
       topic = readUTF(buffer[-leftlen:], leftlen)
       leftlen -= lenUTF(topic)
       self.data.append(topic)
+    assert len(self.data) > 0, "[MQTT-3.10.3-2] at least one topic filter must be in unsubscribe"
     assert leftlen == 0
     assert self.fh.DUP == False, "[MQTT-2.1.2-1]"
     assert self.fh.QoS == 1, "[MQTT-2.1.2-1]"
diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 59e78d0..4df5adc 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -1428,6 +1428,7 @@ class Unsubscribes(Packets):
       topic, topiclen = readUTF(buffer[-leftlen:], leftlen)
       leftlen -= topiclen
       self.topicFilters.append(topic)
+    assert len(self.topicFilters) > 0, "[MQTT5-3.10.3-2] at least one topic filter must be in unsubscribe"
     assert leftlen == 0
     assert self.fh.DUP == False, "[MQTT5-2.1.3-1]"
     assert self.fh.QoS == 1, "[MQTT5-2.1.3-1]"
-- 
2.43.0


From c56144069c17d34e8ed32c65b8198537d235922f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:29 +0000
Subject: [PATCH 71/84] fix: MQTT 5 allows a password without a user name

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 4df5adc..9cf943e 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -795,7 +795,6 @@ class Connects(Packets):
         logger.info("[MQTT5-3.1.3-12] username must be next and UTF-8 encoded string")
       else:
         logger.info("[MQTT5-3.1.2-16] username must not be in payload if user name flag is 0")
-        assert self.passwordFlag == False, "[MQTT5-3.1.2-22] password flag must be 0 if username flag is 0"
 
       if self.passwordFlag:
         assert len(buffer) >= curlen+2, "Buffer too short to read password length"
-- 
2.43.0


From de1ec9f4b49a77c112d1e0ed25ccc7e5d0722ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:29 +0000
Subject: [PATCH 72/84] fix: a PUBLISH of a client must not carry a
 subscription identifier

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 8163b72..4afdd4c 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -662,6 +662,8 @@ class MQTTBrokers:
     packet.receivedTime = time.monotonic()
     if packet.topicName.find("+") != -1 or packet.topicName.find("#") != -1:
       raise MQTTV5.AcksProtocolError("Topic name invalid", packet.topicName)
+    if hasattr(packet.properties, "SubscriptionIdentifier"):
+      raise MQTTV5.ProtocolError("Protocol error", "[MQTT5-3.3.4-6] Subscription identifier in a client's publish")
     # Test Topic to disconnect the client
     if packet.topicName.startswith("cmd/"):
         self.handleBehaviourPublish(sock, packet.topicName, packet.data)
-- 
2.43.0


From c648c625091950755bba27388d2879851f936608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:20 +0000
Subject: [PATCH 73/84] fix: every topic filter of a packet is checked before
 any takes effect

An UNSUBSCRIBE (and, for MQTT 3.1.1, a SUBSCRIBE) with an invalid topic
filter ended the connection after the filters before it had taken effect.
Share names with wildcards were taken.
---
 interoperability/mqtt/brokers/V311/Brokers.py |  7 +++++++
 interoperability/mqtt/brokers/V5/Brokers.py   | 13 ++++++++++---
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/Brokers.py b/interoperability/mqtt/brokers/V311/Brokers.py
index a2bb060..cf2f430 100644
--- a/interoperability/mqtt/brokers/V311/Brokers.py
+++ b/interoperability/mqtt/brokers/V311/Brokers.py
@@ -154,13 +154,20 @@ class Brokers:
       i += 1
 
   def subscribe(self, aClientid, topic, qos):
+    self.__checkFilters__(topic)
     rc = self.se.subscribe(aClientid, topic, qos)
     self.__doRetained__(aClientid, topic, qos)
     return rc
 
   def unsubscribe(self, aClientid, topic):
+    self.__checkFilters__(topic)
     self.se.unsubscribe(aClientid, topic)
 
+  def __checkFilters__(self, topic):
+    "all topic filters of a packet have to be valid before any of them has an effect"
+    for t in topic if type(topic) == type([]) else [topic]:
+      Topics.isValidTopicName(t)
+
   def getSubscriptions(self, aClientid=None):
     return self.se.getSubscriptions(aClientid)
  
diff --git a/interoperability/mqtt/brokers/V5/Brokers.py b/interoperability/mqtt/brokers/V5/Brokers.py
index e8f5e96..16a60cc 100644
--- a/interoperability/mqtt/brokers/V5/Brokers.py
+++ b/interoperability/mqtt/brokers/V5/Brokers.py
@@ -270,17 +270,24 @@ class Brokers:
       i += 1
 
   def subscribe(self, aClientid, topic, optionsprops):
-    for t in topic if type(topic) == type([]) else [topic]:
-      if Topics.isValidTopicName(t) and t.startswith('$share/') and (t.count('/') < 2 or '' in t.split('/', 2)):
-        raise ProtocolError("Topic filter invalid", t)
+    self.__checkFilters__(topic)
     rc = self.se.subscribe(aClientid, topic, optionsprops)
     resubscribeds = [resubscribed for (x, resubscribed) in rc]
     self.__doRetained__(aClientid, topic, optionsprops, resubscribeds)
     return rc
 
   def unsubscribe(self, aClientid, topic):
+    self.__checkFilters__(topic)
     return self.se.unsubscribe(aClientid, topic)
 
+  def __checkFilters__(self, topic):
+    "all topic filters of a packet have to be valid before any of them has an effect"
+    for t in topic if type(topic) == type([]) else [topic]:
+      if Topics.isValidTopicName(t) and (t + '/').startswith('$share/'):
+        parts = t.split('/', 2)
+        if len(parts) < 3 or '' in parts or '+' in parts[1] or '#' in parts[1]:
+          raise ProtocolError("Topic filter invalid", t)
+
   def getSubscriptions(self, aClientid=None):
     return self.se.getSubscriptions(aClientid)
 
-- 
2.43.0


From 2925baba2412e22823fa78d96db0f73eb221bef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:40 +0000
Subject: [PATCH 74/84] fix: topic aliases are resolved when a PUBLISH arrives

With QoS 2 the packet identifier was remembered before the alias was
found to be wrong, so the session took the next message with it for a
duplicate; with publish_on_pubrel aliases were set at the PUBREL, and
retransmissions were not checked.
---
 interoperability/mqtt/brokers/V5/Brokers.py   | 25 ++++++-------------
 .../mqtt/brokers/V5/MQTTBrokers.py            |  8 +++---
 2 files changed, 11 insertions(+), 22 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/Brokers.py b/interoperability/mqtt/brokers/V5/Brokers.py
index 16a60cc..c805099 100644
--- a/interoperability/mqtt/brokers/V5/Brokers.py
+++ b/interoperability/mqtt/brokers/V5/Brokers.py
@@ -122,13 +122,14 @@ class Brokers:
     for c in self.__clients.keys()[:]: # copy the array because disconnect will remove an element
       self.disconnect(c)
 
-  def getAliasTopic(self, aClientid, topicAlias):
-    mytopic = None
-    if topicAlias > 0 and topicAlias in self.__clients[aClientid].topicAliasToNames.keys():
-      mytopic = self.__clients[aClientid].topicAliasToNames[topicAlias]  
-    else:
+  def aliasedTopic(self, aClientid, topic, topicAlias):
+    "the topic name of a received publish with a topic alias, which may set the alias"
+    names = self.__clients[aClientid].topicAliasToNames
+    if topicAlias == 0 or topicAlias > self.topicAliasMaximum or (len(topic) == 0 and topicAlias not in names):
       raise ProtocolError("Topic alias invalid", topicAlias)
-    return mytopic
+    if len(topic) > 0: # set incoming topic alias
+      names[topicAlias] = topic
+    return names[topicAlias]
 
   def publish(self, aClientid, topic, message, qos, retained, properties, receivedTime):
     """publish to all subscribed connected clients
@@ -150,18 +151,6 @@ class Brokers:
       outretain = retained if options.retainAsPublished else False
       self.__clients[subscriber].publishArrived(topic, message, out_qos, outproperties, receivedTime, outretain)
 
-    # topic alias
-    if hasattr(properties, "TopicAlias"):
-      if properties.TopicAlias == 0:
-        raise ProtocolError("Topic alias invalid", properties.TopicAlias)
-      if len(topic) == 0:
-        topic = self.getAliasTopic(aClientid, properties.TopicAlias)
-      else: # set incoming topic alias
-        if properties.TopicAlias in self.__clients[aClientid].topicAliasToNames.keys() or \
-            properties.TopicAlias <= self.topicAliasMaximum:
-          self.__clients[aClientid].topicAliasToNames[properties.TopicAlias] = topic
-        else:
-          raise ProtocolError("Topic alias invalid", self.__clients[aClientid].topicAliasMaximum)
     assert len(topic) > 0
 
     if retained:
diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 4afdd4c..88b1fac 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -664,6 +664,10 @@ class MQTTBrokers:
       raise MQTTV5.AcksProtocolError("Topic name invalid", packet.topicName)
     if hasattr(packet.properties, "SubscriptionIdentifier"):
       raise MQTTV5.ProtocolError("Protocol error", "[MQTT5-3.3.4-6] Subscription identifier in a client's publish")
+    if hasattr(packet.properties, "TopicAlias"):
+      packet.topicName = self.broker.aliasedTopic(self.clients[sock].id, packet.topicName, packet.properties.TopicAlias)
+    if len(packet.topicName) == 0:
+      raise MQTTV5.ProtocolError("Protocol error", "Publish without a topic name or topic alias")
     # Test Topic to disconnect the client
     if packet.topicName.startswith("cmd/"):
         self.handleBehaviourPublish(sock, packet.topicName, packet.data)
@@ -707,8 +711,6 @@ class MQTTBrokers:
                 logger.info("[MQTT-3.3.1-2] DUP flag is 1 on redelivery")
             else:
               myclient.inbound[packet.packetIdentifier] = packet
-              if len(packet.topicName) == 0 and hasattr(packet.properties, "TopicAlias"):
-                packet.topicName = self.broker.getAliasTopic(self.clients[sock].id, packet.properties.TopicAlias)
               subscribers = self.broker.se.getSubscriptions(packet.topicName)
           else:
             if packet.packetIdentifier in myclient.inbound:
@@ -719,8 +721,6 @@ class MQTTBrokers:
             else:
               myclient.inbound.append(packet.packetIdentifier)
               logger.info("[MQTT-4.3.3-2] server must store message in accordance with QoS 2")
-              if len(packet.topicName) == 0 and hasattr(packet.properties, "TopicAlias"):
-                packet.topicName = self.broker.getAliasTopic(self.clients[sock].id, packet.properties.TopicAlias)
               subscribers = self.broker.publish(self.clients[sock].id, packet.topicName,
                    packet.data, packet.fh.QoS, packet.fh.RETAIN, packet.properties,
                    packet.receivedTime)
-- 
2.43.0


From c010f3ec02de15525a55dd66c5aaedda563ee2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:14 +0000
Subject: [PATCH 75/84] fix: V311 broker refuses an empty topic before it
 remembers the packet identifier

---
 interoperability/mqtt/brokers/V311/MQTTBrokers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interoperability/mqtt/brokers/V311/MQTTBrokers.py b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
index 5a7a632..441cdcd 100644
--- a/interoperability/mqtt/brokers/V311/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
@@ -399,6 +399,8 @@ class MQTTBrokers:
     packet.receivedTime = time.monotonic()
     if packet.topicName.find("+") != -1 or packet.topicName.find("#") != -1:
       raise MQTTV3.MQTTException("[MQTT-3.3.2-2][MQTT-4.7.1-1] wildcards not allowed in topic name")
+    if len(packet.topicName) == 0: # before the packet identifier is remembered
+      raise MQTTV3.MQTTException("[MQTT-4.7.3-1] all topic names and filters must be at least 1 char")
     if packet.fh.QoS == 0:
       self.broker.publish(self.clients[sock].id,
              packet.topicName, packet.data, packet.fh.QoS, packet.fh.RETAIN, packet.receivedTime)
-- 
2.43.0


From 55ec80d2ede13021e9623498fa3ae3e9530059b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:13 +0000
Subject: [PATCH 76/84] fix: a delayed will is sent when a DISCONNECT ends the
 session at once

---
 interoperability/mqtt/brokers/V5/Brokers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interoperability/mqtt/brokers/V5/Brokers.py b/interoperability/mqtt/brokers/V5/Brokers.py
index c805099..e7e520f 100644
--- a/interoperability/mqtt/brokers/V5/Brokers.py
+++ b/interoperability/mqtt/brokers/V5/Brokers.py
@@ -102,6 +102,8 @@ class Brokers:
     if aClientid in self.__clients.keys():
       self.__clients[aClientid].connected = False
       if sessionExpiryInterval == 0:
+        if aClientid in self.willMessageClients:
+          self.sendWillMessage(aClientid) # the will delay ends with the session
         self.cleanSession(aClientid)
         del self.__clients[aClientid]
       else:
-- 
2.43.0


From 78c187178d644fd9b4323c89b3daed99edde6815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:03 +0000
Subject: [PATCH 77/84] fix: a clean start ends the delay of a pending will

With Clean Start 1 the old session ends, and the will message must be
published then; it was dropped.
---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 88b1fac..8d6cc13 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -515,6 +515,8 @@ class MQTTBrokers:
       if me:
         logger.info("[MQTT5-3.1.3-2] clientid used to retrieve client state")
         logger.info("[MQTT5-3.2.2-3] session present must be set to 1")
+    if clean and packet.ClientIdentifier in self.broker.willMessageClients:
+      self.broker.sendWillMessage(packet.ClientIdentifier) # the will delay ends with the session
     resp.sessionPresent = True if me else False
     # Connack topic alias maximum for incoming client created topic aliases
     if self.options["topicAliasMaximum"] > 0:
-- 
2.43.0


From 569b3678163ec643fcdd66114455445a9fec282d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:48 +0000
Subject: [PATCH 78/84] fix: a refused QoS 2 message is finished with, no
 PUBREL follows

A PUBREC with a reason code of 0x80 or above ends the exchange: the broker
answered it with a PUBREL, and kept the message and its place in the
receive maximum until a PUBCOMP.
---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 8d6cc13..29bfb19 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -256,12 +256,15 @@ class MQTTClients:
     else:
       logger.error("%s: Puback received for msgid %d, but no message found", self.id, msgid)
 
-  def pubrec(self, msgid):
+  def pubrec(self, msgid, refused=False):
     rc = False
     if msgid in self.outmsgs.keys():
       pub = self.outmsgs[msgid]
       if pub.fh.QoS == 2:
-        if pub.qos2state == "PUBREC":
+        if pub.qos2state == "PUBREC" and refused: # the message is finished with, no pubrel follows
+          self.removeOutbound(pub)
+          self.sendQueued()
+        elif pub.qos2state == "PUBREC":
           pub.qos2state = "PUBCOMP"
           rc = True
         else:
@@ -801,7 +804,7 @@ class MQTTBrokers:
   def pubrec(self, sock, packet):
     "confirmed reception of qos 2"
     myclient = self.clients[sock]
-    if myclient.pubrec(packet.packetIdentifier):
+    if myclient.pubrec(packet.packetIdentifier, packet.reasonCode.value >= 0x80):
       logger.info("[MQTT-3.5.4-1] must reply with pubrel in response to pubrec")
       resp = MQTTV5.Pubrels()
       logger.info("[MQTT5-2.2.1-5-pubrel] pubrel message id same as publish")
-- 
2.43.0


From d239f9c990e1a4dcc652dac05df93708184a78f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:48 +0000
Subject: [PATCH 79/84] fix: the V5 client takes a PUBREC with an error as the
 end of the exchange

It sent a PUBREL, which must not follow such a PUBREC.
---
 interoperability/mqtt/clients/V5/internal.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/clients/V5/internal.py b/interoperability/mqtt/clients/V5/internal.py
index b0a9fb5..398e3d8 100755
--- a/interoperability/mqtt/clients/V5/internal.py
+++ b/interoperability/mqtt/clients/V5/internal.py
@@ -124,7 +124,12 @@ class Receivers:
         raise Exception("No QoS 1 with that message id sent")
 
     elif packet.fh.PacketType == MQTTV5.PacketTypes.PUBREC:
-      if packet.packetIdentifier in self.outMsgs.keys():
+      if packet.packetIdentifier in self.outMsgs.keys() and packet.reasonCode.value >= 0x80:
+        # the message was refused, so there is no pubrel
+        del self.outMsgs[packet.packetIdentifier]
+        if hasattr(callback, "published"):
+          callback.published(packet.packetIdentifier)
+      elif packet.packetIdentifier in self.outMsgs.keys():
         self.pubrecs.add(packet.packetIdentifier)
         self.pubrel.packetIdentifier = packet.packetIdentifier
         logger.debug("out: %s", str(self.pubrel))
-- 
2.43.0


From a75a42bc40f73eef4b54dff11f8e36790b6bc9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:12 +0000
Subject: [PATCH 80/84] fix: reports of packets to visual subscribers are not
 themselves reported

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 29bfb19..e67ee13 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -72,7 +72,8 @@ def respond(sock, packet, maximumPacketSize=None):
   if hasattr(sock, "handlePacket"):
     sock.handlePacket(packet)
   else:
-    if mybroker.options["visual"]:
+    if mybroker.options["visual"] and not mybroker.reporting: # the reports themselves are not reported
+      mybroker.reporting = True
       try:
         data = {"direction" : "StoC", "socket" : sock.fileno(), 
             "clientid":  mybroker.clients[sock].id if sock in mybroker.clients.keys() else "", 
@@ -83,6 +84,8 @@ def respond(sock, packet, maximumPacketSize=None):
                 0, 0, None, time.monotonic())
       except:
         traceback.print_exc()
+      finally:
+        mybroker.reporting = False
     try:
       bytes_sent = sock.send(packed) # Could get socket error on send
       if sock.websockets:
@@ -352,6 +355,7 @@ class MQTTBrokers:
 
     self.broker = Brokers(self.options["overlapping_single"], self.options["topicAliasMaximum"], sharedData=sharedData)
     self.clients = {}   # socket -> clients
+    self.reporting = False # is a packet being reported, with the visual option?
     if lock:
       logger.info("Using shared lock %d", id(lock))
       self.lock = lock
@@ -407,10 +411,13 @@ class MQTTBrokers:
               data = {"direction" : "CtoS", "socket" : sock.fileno(), 
                     "clientid":  clientid, "packet" : packet.json() }
               databytes = bytes(json.dumps(data), 'utf-8')
+              self.reporting = True
               self.broker.publish('$internal', '$SYS/clients-packets', databytes,
                    0, 0, None, time.monotonic())
             except:
               traceback.print_exc()
+            finally:
+              self.reporting = False
           if packet:
             terminate = self.handlePacket(packet, sock)
           else:
-- 
2.43.0


From 0e0d2b7cd06c4860bdd71991aec3c3162c8a884f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:50 +0000
Subject: [PATCH 81/84] fix: a CONNECT packet with a password can be shown as
 json

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 9cf943e..69fca0f 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -852,7 +852,7 @@ class Connects(Packets):
     if self.username:
       data["username"] = self.username
     if self.password:
-      data["password"] = self.password
+      data["password"] = str(self.password) # bytes can't be in json
     data["Properties"] = self.properties.json()
     return data
 
-- 
2.43.0


From 7a1a35c28c00c7fde966ab644b1f9e031b181704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:50 +0000
Subject: [PATCH 82/84] fix: received packets with correlation data can be
 shown as json

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 69fca0f..b2e0f5f 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -553,7 +553,7 @@ class Properties(object):
       compressedName = name.replace(' ', '')
       if hasattr(self, compressedName):
         data[compressedName] = getattr(self, compressedName)
-        if type(data[compressedName]) == type(b''): # can't json serialize bytes
+        if type(data[compressedName]) in (bytes, bytearray): # can't json serialize bytes
           data[compressedName] = str(data[compressedName])
     return data
 
-- 
2.43.0


From 9b15d7454273e45e0adf57f078604bf2009e3cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:36 +0000
Subject: [PATCH 83/84] fix: a client that does not finish the TLS handshake
 does not hold up the listener

---
 interoperability/mqtt/brokers/listeners/TCPListeners.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/brokers/listeners/TCPListeners.py b/interoperability/mqtt/brokers/listeners/TCPListeners.py
index 26725ea..4d835da 100644
--- a/interoperability/mqtt/brokers/listeners/TCPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/TCPListeners.py
@@ -292,7 +292,8 @@ def create(port, host="", TLS=False, serve_forever=False,
     if ca_certs:
       context.load_verify_locations(ca_certs)
     context.verify_mode = cert_reqs
-    server.socket = context.wrap_socket(server.socket, server_side=True)
+    # each connection's own thread does the handshake, so that one does not hold up the others
+    server.socket = context.wrap_socket(server.socket, server_side=True, do_handshake_on_connect=False)
   server.request_queue_size = 50
   server.terminate = False
   server.allow_reuse_address = True
-- 
2.43.0


From 9e218410ba2dcbdc0a211708e163d01231f5edef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:45 +0000
Subject: [PATCH 84/84] fix: the second packet of a TLS record does not wait
 for more data

---
 interoperability/mqtt/brokers/listeners/TCPListeners.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interoperability/mqtt/brokers/listeners/TCPListeners.py b/interoperability/mqtt/brokers/listeners/TCPListeners.py
index 4d835da..ff6944d 100644
--- a/interoperability/mqtt/brokers/listeners/TCPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/TCPListeners.py
@@ -174,6 +174,8 @@ class WebSocketTCPHandler(socketserver.StreamRequestHandler):
           logger.debug("Waiting for request")
         if sock.websockets and len(sock.buffer) > 0: # the rest of a frame
           (i, o, e) = ([sock], [], [])
+        elif hasattr(sock, "pending") and sock.pending() > 0: # the rest of a TLS record
+          (i, o, e) = ([sock], [], [])
         else:
           (i, o, e) = select.select([sock], [], [], 1)
         if i == [sock]:
-- 
2.43.0

