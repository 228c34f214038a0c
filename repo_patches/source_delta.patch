From 80391529039843233383d318813cfe38d93c7b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:50 +0000
Subject: [PATCH 01/28] fix: reject node variable index 0 in NVSET and NVSETRD

---
 src/NodeVariableService.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/NodeVariableService.cpp b/src/NodeVariableService.cpp
index bab8fff..4656311 100644
--- a/src/NodeVariableService.cpp
+++ b/src/NodeVariableService.cpp
@@ -90,7 +90,7 @@ void NodeVariableService::handleSetNV(const VlcbMessage *msg, unsigned int nn)
     }
 
     Configuration *module_config = controller->getModuleConfig();
-    if (msg->data[3] > module_config->EE_NUM_NVS)
+    if (msg->data[3] == 0 || msg->data[3] > module_config->EE_NUM_NVS)
     {
       controller->sendGRSP(OPC_NVSET, getServiceID(), CMDERR_INV_NV_IDX);
       controller->sendCMDERR(CMDERR_INV_NV_IDX);
@@ -120,7 +120,7 @@ void NodeVariableService::handleSetAndReadNV(const VlcbMessage *msg, unsigned in
 
     byte nvindex = msg->data[3];
     Configuration *module_config = controller->getModuleConfig();
-    if (nvindex > module_config->EE_NUM_NVS)
+    if (nvindex == 0 || nvindex > module_config->EE_NUM_NVS)
     {
       controller->sendGRSP(OPC_NVSETRD, getServiceID(), CMDERR_INV_NV_IDX);
       controller->sendCMDERR(CMDERR_INV_NV_IDX);
-- 
2.43.0


From a76ccdfa577f505bc965cb695a6ff5eb3da26af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:29 +0000
Subject: [PATCH 02/28] fix: learn mode via MODE only obeys messages addressed
 to this node

---
 src/EventTeachingService.cpp | 10 ++++++++--
 src/EventTeachingService.h   |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/EventTeachingService.cpp b/src/EventTeachingService.cpp
index aec6cab..98bf8c0 100644
--- a/src/EventTeachingService.cpp
+++ b/src/EventTeachingService.cpp
@@ -45,7 +45,7 @@ void EventTeachingService::handleMessage(const VlcbMessage *msg)
   {
   case OPC_MODE:
     // 76 - Set Operating Mode
-    handleLearnMode(msg);
+    handleLearnMode(msg, nn);
     break;
 
   case OPC_NNLRN:
@@ -111,8 +111,14 @@ void EventTeachingService::handleMessage(const VlcbMessage *msg)
   }
 }
 
-void EventTeachingService::handleLearnMode(const VlcbMessage *msg)
+void EventTeachingService::handleLearnMode(const VlcbMessage *msg, unsigned int nn)
 {
+  // Short messages are reported by the minimum node service.
+  if (!isThisNodeNumber(nn) || msg->len < 4)
+  {
+    return;
+  }
+
   //DEBUG_SERIAL << F("ets> MODE -- request op-code received for NN = ") << nn << endl;
   byte requestedMode = msg->data[3];
   switch (requestedMode)
diff --git a/src/EventTeachingService.h b/src/EventTeachingService.h
index 0b6ddf4..55e2ba1 100644
--- a/src/EventTeachingService.h
+++ b/src/EventTeachingService.h
@@ -28,7 +28,7 @@ private:
   bool bLearn = false;
 
   void handleMessage(const VlcbMessage *msg);
-  void handleLearnMode(const VlcbMessage *msg);
+  void handleLearnMode(const VlcbMessage *msg, unsigned int nn);
   void handleLearn(unsigned int nn);
   void handleUnlearnEvent(const VlcbMessage *msg, unsigned int nn, unsigned int en);
   void handleUnlearn(unsigned int nn);
-- 
2.43.0


From 843b947df46c743b166bc8f4de0884003c7a493b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:40 +0000
Subject: [PATCH 03/28] fix: NENRD refuses unused event slots and short
 requests

---
 src/EventTeachingService.cpp | 13 ++++++++++---
 src/EventTeachingService.h   |  2 +-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/EventTeachingService.cpp b/src/EventTeachingService.cpp
index 98bf8c0..b6df3b8 100644
--- a/src/EventTeachingService.cpp
+++ b/src/EventTeachingService.cpp
@@ -75,7 +75,7 @@ void EventTeachingService::handleMessage(const VlcbMessage *msg)
 
   case OPC_NENRD:
     // 72 - request read stored event by event index
-    handleReadEventIndex(nn, msg->data[3]);
+    handleReadEventIndex(msg, nn);
     break;
 
   case OPC_REVAL:
@@ -244,14 +244,21 @@ void EventTeachingService::handleReadEvents(unsigned int nn)
   }      // for me
 }
 
-void EventTeachingService::handleReadEventIndex(unsigned int nn, byte eventIndex)
+void EventTeachingService::handleReadEventIndex(const VlcbMessage *msg, unsigned int nn)
 {
   // DEBUG_SERIAL << F("ets> NERD : request all stored events for nn = ") << nn << endl;
 
   if (isThisNodeNumber(nn))
   {
+    if (msg->len < 4)
+    {
+      controller->sendGRSP(OPC_NENRD, getServiceID(), CMDERR_INV_CMD);
+      return;
+    }
+
+    byte eventIndex = msg->data[3];
     Configuration *module_config = controller->getModuleConfig();
-    if ((eventIndex >= module_config->EE_MAX_EVENTS) && (module_config->getEvTableEntry(eventIndex) == 0))
+    if ((eventIndex >= module_config->EE_MAX_EVENTS) || (module_config->getEvTableEntry(eventIndex) == 0))
     {
       controller->sendCMDERR(CMDERR_INV_EN_IDX);
       controller->sendGRSP(OPC_NENRD, getServiceID(), CMDERR_INV_EN_IDX);
diff --git a/src/EventTeachingService.h b/src/EventTeachingService.h
index 55e2ba1..09a6dc4 100644
--- a/src/EventTeachingService.h
+++ b/src/EventTeachingService.h
@@ -34,7 +34,7 @@ private:
   void handleUnlearn(unsigned int nn);
   void handleRequestEventCount(unsigned int nn);
   void handleReadEvents(unsigned int nn);
-  void handleReadEventIndex(unsigned int nn, byte eventIndex);
+  void handleReadEventIndex(const VlcbMessage *msg, unsigned int nn);
   void handleReadEventVariable(const VlcbMessage *msg, unsigned int nn);
   void handleClearEvents(unsigned int nn);
   void handleGetFreeEventSlots(unsigned int nn);
-- 
2.43.0


From d2dd7770115d28f76f0faf5c22d1f2ee426378ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:13 +0000
Subject: [PATCH 04/28] fix: EVLRN stores the event when a new event is taught
 starting with EV 2 or higher

---
 src/EventTeachingService.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/EventTeachingService.cpp b/src/EventTeachingService.cpp
index b6df3b8..523cbb7 100644
--- a/src/EventTeachingService.cpp
+++ b/src/EventTeachingService.cpp
@@ -446,9 +446,10 @@ void EventTeachingService::handleLearnEvent(const VlcbMessage *msg, unsigned int
   // search for this NN, EN as we may just be adding an EV to an existing learned event 
   //DEBUG_SERIAL << F("ets> searching for existing event to update") << endl;
   byte index = module_config->findExistingEvent(nn, en);
+  bool newEvent = index >= module_config->EE_MAX_EVENTS;
 
   // not found - it's a new event
-  if (index >= module_config->EE_MAX_EVENTS)
+  if (newEvent)
   {
     // DEBUG_SERIAL << F("ets> existing event not found - creating a new one if space available") << endl;
     index = module_config->findEventSpace();
@@ -467,8 +468,8 @@ void EventTeachingService::handleLearnEvent(const VlcbMessage *msg, unsigned int
   // write the event to EEPROM at this location -- EVs are indexed from 1 but storage offsets start at zero !!
   // DEBUG_SERIAL << F("ets> writing EV = ") << evnum << F(", at index = ") << index << F(", offset = ") << (module_config->EE_EVENTS_START + (index * module_config->EE_BYTES_PER_EVENT)) << endl;
 
-  // don't repeat this for subsequent EVs
-  if (evnum <= 1)
+  // don't repeat this for subsequent EVs of an event that is already stored
+  if (newEvent || evnum <= 1)
   {
     module_config->writeEvent(index, &msg->data[1]);
   }
-- 
2.43.0


From 72d7323353a05a9cf5f31dffbc0e16267e5a18e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:34 +0000
Subject: [PATCH 05/28] fix: initialise the produced event request handler

---
 src/EventProducerService.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/EventProducerService.h b/src/EventProducerService.h
index 9cd78d5..528c220 100644
--- a/src/EventProducerService.h
+++ b/src/EventProducerService.h
@@ -37,7 +37,7 @@ public:
   
 
 private:
-  void (*requesteventhandler)(byte index, const VlcbMessage *msg);
+  void (*requesteventhandler)(byte index, const VlcbMessage *msg) = nullptr;
   void handleProdSvcMessage(const VlcbMessage *msg);
   
   void setProducedEvents();
-- 
2.43.0


From f40c11cd04a47c8283d1d3c6dd6ac193a598d214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:34 +0000
Subject: [PATCH 06/28] fix: creating 255 produced events terminates

---
 src/EventProducerService.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/EventProducerService.cpp b/src/EventProducerService.cpp
index 986cf17..c561847 100644
--- a/src/EventProducerService.cpp
+++ b/src/EventProducerService.cpp
@@ -33,7 +33,7 @@ void EventProducerService::begin()
 
 void EventProducerService::setProducedEvents()
 { 
-  for (byte i = 1; i <= controller->getModuleConfig()->EE_PRODUCED_EVENTS; i++)
+  for (unsigned int i = 1; i <= controller->getModuleConfig()->EE_PRODUCED_EVENTS; i++)
   {
     createDefaultEvent(i);    
   }    
-- 
2.43.0


From 08642539aa68f2aa31f1f3b25af4199800c724b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:35 +0000
Subject: [PATCH 07/28] fix: producing an event with a full event table does
 not write outside the table

---
 src/EventProducerService.cpp | 37 +++++++++++++++++++++++++++++++-----
 src/EventProducerService.h   |  2 +-
 2 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/EventProducerService.cpp b/src/EventProducerService.cpp
index c561847..e516cd6 100644
--- a/src/EventProducerService.cpp
+++ b/src/EventProducerService.cpp
@@ -47,6 +47,11 @@ byte EventProducerService::createDefaultEvent(byte evValue)
   
   byte index = module_config->findEventSpace();
   //TODO: Consider full event table error message. Should error come from Configuration?
+  if (index >= module_config->EE_MAX_EVENTS)
+  {
+    // No space to store the event.
+    return index;
+  }
   
   // Find next available event number.
   unsigned int eventNum;
@@ -92,13 +97,18 @@ void EventProducerService::process(const Action * action)
   }
 }
 
-void EventProducerService::findOrCreateEventByEv(byte evIndex, byte evValue, byte nn_en[4])
+// Returns false if the event does not exist and there is no space to create it.
+bool EventProducerService::findOrCreateEventByEv(byte evIndex, byte evValue, byte nn_en[4])
 {
   Configuration *module_config = controller->getModuleConfig();
   byte index = module_config->findExistingEventByEv(evIndex, evValue);
   if (index >= module_config->EE_MAX_EVENTS)
   {
     index = createDefaultEvent(evValue);
+    if (index >= module_config->EE_MAX_EVENTS)
+    {
+      return false;
+    }
   }
 
   module_config->readEvent(index, nn_en);
@@ -108,8 +118,13 @@ void EventProducerService::findOrCreateEventByEv(byte evIndex, byte evValue, byt
     // This table entry was not initalised correctly.
     // This may happen if an event is deleted but the hash table is not updated.
     index = createDefaultEvent(evValue);
+    if (index >= module_config->EE_MAX_EVENTS)
+    {
+      return false;
+    }
     module_config->readEvent(index, nn_en);
   }
+  return true;
 }
 
 void EventProducerService::sendMessage(VlcbMessage &msg, byte opCode, const byte *nn_en)
@@ -125,7 +140,10 @@ void EventProducerService::sendMessage(VlcbMessage &msg, byte opCode, const byte
 void EventProducerService::sendEvent(bool state, byte evValue)
 {
   byte nn_en[4];
-  findOrCreateEventByEv(1, evValue, nn_en);
+  if (!findOrCreateEventByEv(1, evValue, nn_en))
+  {
+    return;
+  }
 
   byte opCode;
   if ((nn_en[0] == 0) && (nn_en[1] == 0))
@@ -147,7 +165,10 @@ void EventProducerService::sendEvent(bool state, byte evValue)
 void EventProducerService::sendEvent(bool state, byte evValue, byte data1)
 {
   byte nn_en[4];
-  findOrCreateEventByEv(1, evValue, nn_en);
+  if (!findOrCreateEventByEv(1, evValue, nn_en))
+  {
+    return;
+  }
 
   byte opCode;
   if ((nn_en[0] == 0) && (nn_en[1] == 0))
@@ -170,7 +191,10 @@ void EventProducerService::sendEvent(bool state, byte evValue, byte data1)
 void EventProducerService::sendEvent(bool state, byte evValue, byte data1, byte data2)
 {
   byte nn_en[4];
-  findOrCreateEventByEv(1, evValue, nn_en);
+  if (!findOrCreateEventByEv(1, evValue, nn_en))
+  {
+    return;
+  }
 
   byte opCode;
   if ((nn_en[0] == 0) && (nn_en[1] == 0))
@@ -194,7 +218,10 @@ void EventProducerService::sendEvent(bool state, byte evValue, byte data1, byte
 void EventProducerService::sendEvent(bool state, byte evValue, byte data1, byte data2, byte data3)
 {
   byte nn_en[4];
-  findOrCreateEventByEv(1, evValue, nn_en);
+  if (!findOrCreateEventByEv(1, evValue, nn_en))
+  {
+    return;
+  }
 
   byte opCode;
   if ((nn_en[0] == 0) && (nn_en[1] == 0))
diff --git a/src/EventProducerService.h b/src/EventProducerService.h
index 528c220..5249ba0 100644
--- a/src/EventProducerService.h
+++ b/src/EventProducerService.h
@@ -42,7 +42,7 @@ private:
   
   void setProducedEvents();
   byte createDefaultEvent(byte evValue);
-  void findOrCreateEventByEv(byte evIndex, byte evValue, byte tarr[]);
+  bool findOrCreateEventByEv(byte evIndex, byte evValue, byte tarr[]);
   void sendMessage(VlcbMessage &msg, byte opCode, const byte *nn_en);
 
   bool uninit = false;
-- 
2.43.0


From e0b14e9f5161b20af4f0432eb4a25ddc37e3226b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:54 +0000
Subject: [PATCH 08/28] fix: sending a long message with all send contexts busy
 is refused

---
 src/LongMessageService.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index 23eb939..f781835 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -417,7 +417,7 @@ bool LongMessageServiceEx::sendLongMessage(const void *msg, const unsigned int m
 		}
 	}
 
-	if (i > _num_send_contexts)
+	if (i >= _num_send_contexts)
   {
 		// DEBUG_SERIAL << F("> Lex: ERROR: unable to find free send context") << endl;
 		return false;
-- 
2.43.0


From a656a9d9f23e37d1622d70be7b4c16a755af38f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:54 +0000
Subject: [PATCH 09/28] fix: long message contexts copy the whole message, not
 up to its first zero byte

---
 src/LongMessageService.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index f781835..e62159a 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -426,9 +426,14 @@ bool LongMessageServiceEx::sendLongMessage(const void *msg, const unsigned int m
 	// DEBUG_SERIAL << F("> Lex: using send context = ") << i << endl;
 
 	// initialise context
-	_send_context[i]->in_use = true;
 	// _send_context[i]->buffer = (byte *)msg;
-	_send_context[i]->buffer = (byte *)strdup((char *)msg);														// copy the message to the send content, will free later
+	_send_context[i]->buffer = (byte *)malloc(msg_len);																// copy the message to the send content, will free later
+	if (_send_context[i]->buffer == NULL && msg_len > 0)
+  {
+		return false;
+	}
+	memcpy(_send_context[i]->buffer, msg, msg_len);
+	_send_context[i]->in_use = true;
 	_send_context[i]->send_buffer_len = msg_len;
 	_send_context[i]->send_stream_id = stream_id;
   _send_context[i]->send_buffer_index = 0;
-- 
2.43.0


From 4a7426b3a672dffc5ea2ed43cfafe7b662910410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:55 +0000
Subject: [PATCH 10/28] fix: initialise the fragment timer of a long message
 send context

---
 src/LongMessageService.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index e62159a..bc7add8 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -455,6 +455,7 @@ bool LongMessageServiceEx::sendLongMessage(const void *msg, const unsigned int m
 
 	bool ret = sendMessageFragment(&frame);					// send the header packet
 	_send_context[i]->send_sequence_num = 1;																	  			// the next send sequence number - it's fine if it wraps around
+	_send_context[i]->last_fragment_sent = millis();
 
 	// DEBUG_SERIAL << F("> Lex: message header sent, stream id = ") << stream_id << F(", message length = ") << msg_len << F(", ret = ") << ret << endl;
 	return (ret);
-- 
2.43.0


From 451090c9bcfdad669fb8616626d04c9f2bddb726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:55 +0000
Subject: [PATCH 11/28] fix: long message CRC is only compared when CRC
 checking is enabled

---
 src/LongMessageService.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index bc7add8..ed8a9e4 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -679,7 +679,7 @@ void LongMessageServiceEx::processReceivedMessageFragment(const VlcbMessage *fra
           tmpcrc = crc16((uint8_t *) _receive_context[i]->buffer, _receive_context[i]->receive_buffer_index);
         }
 
-        if (_receive_context[i]->incoming_message_crc != tmpcrc)
+        if (_use_crc && _receive_context[i]->incoming_message_crc != tmpcrc)
         {
           // DEBUG_SERIAL << F("> Lex: message CRC error, expected = ") << _receive_context[i]->incoming_message_crc << F(", calculated = ") << tmpcrc << endl;
           status = LONG_MESSAGE_CRC_ERROR;
-- 
2.43.0


From 1e92cf187d230545e9a6ff55a9d26117dd52f8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:56 +0000
Subject: [PATCH 12/28] fix: long message reception is not disturbed by
 fragments of other streams

---
 src/LongMessageService.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index ed8a9e4..d94c843 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -152,8 +152,6 @@ void LongMessageService::processReceivedMessageFragment(const VlcbMessage *frame
 
 	// DEBUG_SERIAL << F("> L: processing received long message packet, message length = ") << _incoming_message_length << F(", rcvd so far = ") << _incoming_bytes_received << endl;
 
-	_last_fragment_received = millis();
-
 	byte i, j;
 
   if (!_is_receiving)
@@ -181,7 +179,8 @@ void LongMessageService::processReceivedMessageFragment(const VlcbMessage *frame
             _incoming_bytes_received = 0;
             memset(_receive_buffer, 0, _receive_buffer_len);
             _receive_buffer_index = 0;
-            _expected_next_receive_sequence_num = 0;
+            _expected_next_receive_sequence_num = 1;
+            _last_fragment_received = millis();
             // DEBUG_SERIAL << F("> L: received header packet for stream id = ") << _receive_stream_id << F(", message length = ") << _incoming_message_length << F(", user buffer len = ") << _receive_buffer_len << endl;
             break;
           }
@@ -204,10 +203,15 @@ void LongMessageService::processReceivedMessageFragment(const VlcbMessage *frame
     {
       // it's the same stream id
 
+      _last_fragment_received = millis();
+
       if (frame->data[2] == _expected_next_receive_sequence_num)
       {
         // and it's the expected sequence id
 
+        // the sequence number may wrap from 255 to 0, which is absolutely fine
+        ++_expected_next_receive_sequence_num;
+
         // DEBUG_SERIAL << F("> L: received continuation packet, seq = ") << _expected_next_receive_sequence_num << endl;
 
         // for each of the maximum five payload bytes, up to the total message length and the user buffer length
@@ -261,9 +265,6 @@ void LongMessageService::processReceivedMessageFragment(const VlcbMessage *frame
     }
 	}	// it's a continuation fragment
 
-	// the sequence number may wrap from 255 to 0, which is absolutely fine
-	++_expected_next_receive_sequence_num;
-
 	/// finally, once the message has been completely received ...
 
 	if (_incoming_message_length > 0 && _incoming_bytes_received >= _incoming_message_length)
-- 
2.43.0


From 3c70be9b598462155c08c5dd9087ba7c619bd3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:16 +0000
Subject: [PATCH 13/28] fix: long messages with more than 255 fragments are
 received

---
 src/LongMessageService.cpp | 20 ++++++++++++++++++--
 src/LongMessageService.h   |  8 ++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/LongMessageService.cpp b/src/LongMessageService.cpp
index d94c843..47a43f7 100644
--- a/src/LongMessageService.cpp
+++ b/src/LongMessageService.cpp
@@ -561,6 +561,21 @@ byte LongMessageServiceEx::is_sending()
 	return num_streams;
 }
 
+//
+/// is a message being received on this stream with the given next sequence number?
+//
+bool LongMessageServiceEx::isExpectingSequence(byte stream_id, byte sequence_num)
+{
+  for (byte i = 0; i < _num_receive_contexts; i++)
+  {
+    if (_receive_context[i]->in_use && _receive_context[i]->receive_stream_id == stream_id)
+    {
+      return _receive_context[i]->expected_next_receive_sequence_num == sequence_num;
+    }
+  }
+  return false;
+}
+
 //
 /// handle an incoming long message Controller message fragment
 //
@@ -572,9 +587,10 @@ void LongMessageServiceEx::processReceivedMessageFragment(const VlcbMessage *fra
 	// DEBUG_SERIAL << F("> Lex: handling incoming message fragment") << endl;
 	// DEBUG_SERIAL.flush();
 
-  if (frame->data[2] == 0)
+  if (frame->data[2] == 0 && !isExpectingSequence(frame->data[1], 0))
   {
-    // sequence zero = a header packet with start of new stream
+    // sequence zero = a header packet with start of new stream,
+    // unless the sequence number of a message in progress has wrapped around
 
     if (frame->data[7] == 0)
     {
diff --git a/src/LongMessageService.h b/src/LongMessageService.h
index 87855d3..822e8cb 100644
--- a/src/LongMessageService.h
+++ b/src/LongMessageService.h
@@ -65,7 +65,8 @@ protected:
   byte _msg_delay = LONG_MESSAGE_DEFAULT_DELAY;
   unsigned int _send_buffer_len = 0, _incoming_message_length = 0, _receive_buffer_len = 0, _receive_buffer_index = 0;
   unsigned int _send_buffer_index = 0, _incoming_message_crc = 0, _incoming_bytes_received = 0;
-  unsigned int _receive_timeout = LONG_MESSAGE_RECEIVE_TIMEOUT, _send_sequence_num = 0, _expected_next_receive_sequence_num = 0;
+  unsigned int _receive_timeout = LONG_MESSAGE_RECEIVE_TIMEOUT, _send_sequence_num = 0;
+  byte _expected_next_receive_sequence_num = 0;
   unsigned long _last_fragment_sent = 0UL, _last_fragment_received = 0UL;
 
   void (*_messagehandler)(void *fragment, const unsigned int fragment_len, const byte stream_id, const byte status);        // user callback function to receive long message fragments
@@ -80,7 +81,8 @@ struct receive_context_t {
   bool in_use;
   byte receive_stream_id;
   byte *buffer;
-  unsigned int receive_buffer_index, incoming_bytes_received, incoming_message_length, expected_next_receive_sequence_num, incoming_message_crc;
+  byte expected_next_receive_sequence_num;
+  unsigned int receive_buffer_index, incoming_bytes_received, incoming_message_length, incoming_message_crc;
   unsigned long last_fragment_received;
 };
 
@@ -109,6 +111,8 @@ public:
 
 private:
 
+  bool isExpectingSequence(byte stream_id, byte sequence_num);
+
   bool _use_crc = false;
   byte _num_receive_contexts = NUM_EX_CONTEXTS, _num_send_contexts = NUM_EX_CONTEXTS;
   receive_context_t **_receive_context = NULL;
-- 
2.43.0


From 11ae39a8f7f871fd32db39f7da10cb3308c75f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:30 +0000
Subject: [PATCH 14/28] fix: listing 255 node variables on the serial console
 terminates

---
 src/SerialUserInterface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SerialUserInterface.cpp b/src/SerialUserInterface.cpp
index b3a52e1..08720c2 100644
--- a/src/SerialUserInterface.cpp
+++ b/src/SerialUserInterface.cpp
@@ -111,7 +111,7 @@ void SerialUserInterface::processSerialInput()
         Serial << F("   NV   Val") << endl;
         Serial << F("  --------------------") << endl;
 
-        for (byte j = 1; j <= modconfig->EE_NUM_NVS; j++)
+        for (unsigned int j = 1; j <= modconfig->EE_NUM_NVS; j++)
         {
           byte v = modconfig->readNV(j);
           sprintf(msgstr, " - %02d : %3hd | 0x%02hx", j, v, v);
-- 
2.43.0


From 1f2828b1b2eb885ef6db1acb1ee169604b3fd540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:58 +0000
Subject: [PATCH 15/28] fix: messages too short to contain an event are not
 consumed

---
 src/EventConsumerService.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/EventConsumerService.cpp b/src/EventConsumerService.cpp
index dc8ea29..6b02e81 100644
--- a/src/EventConsumerService.cpp
+++ b/src/EventConsumerService.cpp
@@ -66,6 +66,12 @@ void EventConsumerService::process(const Action *action)
 
 void EventConsumerService::handleConsumedMessage(const VlcbMessage *msg)
 {
+  if (msg->len < 5)
+  {
+    // Too short to contain an event.
+    return;
+  }
+
   //DEBUG_SERIAL << ">Handle Message " << endl;
   unsigned int opc = msg->data[0];
   unsigned int nn = Configuration::getTwoBytes(&msg->data[1]);
-- 
2.43.0


From cf8c3722ec54d07c9b84dddb04b5996c2190b13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:58 +0000
Subject: [PATCH 16/28] fix: event requests too short to contain an event are
 ignored

---
 src/EventProducerService.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/EventProducerService.cpp b/src/EventProducerService.cpp
index e516cd6..2bf7f93 100644
--- a/src/EventProducerService.cpp
+++ b/src/EventProducerService.cpp
@@ -249,7 +249,8 @@ void EventProducerService::handleProdSvcMessage(const VlcbMessage *msg)
   unsigned int nn = Configuration::getTwoBytes(&msg->data[1]);
   unsigned int en = Configuration::getTwoBytes(&msg->data[3]);
   
-  if (requesteventhandler != nullptr)
+  // Messages with less than 5 bytes are too short to contain an event.
+  if (requesteventhandler != nullptr && msg->len >= 5)
   {
     switch (opc)
     {
-- 
2.43.0


From 70325a19c3239c86a716719c6b4b1e886cad6ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:58 +0000
Subject: [PATCH 17/28] fix: event table requests too short to contain the node
 number are ignored

---
 src/EventTeachingService.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/EventTeachingService.cpp b/src/EventTeachingService.cpp
index 523cbb7..e7499c4 100644
--- a/src/EventTeachingService.cpp
+++ b/src/EventTeachingService.cpp
@@ -41,6 +41,12 @@ void EventTeachingService::handleMessage(const VlcbMessage *msg)
   unsigned int en = Configuration::getTwoBytes(&msg->data[3]);
   //DEBUG_SERIAL << "ets>VlcbSvc handling message op=" << _HEX(opc) << " nn=" << nn << " en" << en << endl;
 
+  if (msg->len < 3 && opc >= OPC_NNLRN && opc <= OPC_RQEVN)
+  {
+    // These requests are addressed by node number but are too short to contain it.
+    return;
+  }
+
   switch (opc)
   {
   case OPC_MODE:
-- 
2.43.0


From 55a8e63b6b827b32fd1e210ad36281595bd9686d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:58 +0000
Subject: [PATCH 18/28] fix: truncated NNRSM and NNRST do not reset the module

---
 src/MinimumNodeService.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MinimumNodeService.cpp b/src/MinimumNodeService.cpp
index 326410c..424d027 100644
--- a/src/MinimumNodeService.cpp
+++ b/src/MinimumNodeService.cpp
@@ -240,7 +240,7 @@ void MinimumNodeService::handleMessage(const VlcbMessage *msg)
 
     case OPC_NNRSM:
       //4F - reset to manufacturer's defaults 
-      if (isThisNodeNumber(nn))
+      if (msg->len >= 3 && isThisNodeNumber(nn))
       {        
         controller->sendMessageWithNN(OPC_NNREL);  // release node number first
         module_config->resetModule();        
@@ -249,7 +249,7 @@ void MinimumNodeService::handleMessage(const VlcbMessage *msg)
       
     case OPC_NNRST:
       //5E - software reset
-      if (isThisNodeNumber(nn))
+      if (msg->len >= 3 && isThisNodeNumber(nn))
       {
         module_config->reboot();
       }
-- 
2.43.0


From feef50597e2158e724fd184755c19fafcaf972bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:58 +0000
Subject: [PATCH 19/28] fix: truncated CANID and ENUM requests are ignored

---
 src/CanService.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/CanService.cpp b/src/CanService.cpp
index d13cb83..1e6c17f 100644
--- a/src/CanService.cpp
+++ b/src/CanService.cpp
@@ -59,12 +59,18 @@ void CanService::handleCanServiceMessage(const VlcbMessage *msg)
   {
     case OPC_CANID:
       // CAN -- set CANID
-      handleSetCANID(msg, nn);
+      if (msg->len >= 4)
+      {
+        handleSetCANID(msg, nn);
+      }
       break;
 
     case OPC_ENUM:
       // received ENUM -- start CAN bus self-enumeration
-      handleEnumeration(nn);
+      if (msg->len >= 3)
+      {
+        handleEnumeration(nn);
+      }
       break;
   }
 }
-- 
2.43.0


From 9610c25cc28ac05faac72ca4020023b257b6f315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:58 +0000
Subject: [PATCH 20/28] fix: no debug output on the serial port for an invalid
 service request

---
 src/MinimumNodeService.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/MinimumNodeService.cpp b/src/MinimumNodeService.cpp
index 424d027..94a6b46 100644
--- a/src/MinimumNodeService.cpp
+++ b/src/MinimumNodeService.cpp
@@ -400,7 +400,6 @@ void MinimumNodeService::handleRequestServiceDefinitions(const VlcbMessage *msg,
     }
     else
     {
-      Serial << "RQSD wrong svcIx=" << serviceIndex << endl;
       // Couldn't find the service.
       controller->sendGRSP(OPC_RQSD, getServiceID(), GRSP_INVALID_SERVICE);
     }
-- 
2.43.0


From 4cdae7dd50b150420dd8cb7766b97aebbd4ceaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:36 +0000
Subject: [PATCH 21/28] fix: high watermark of buffers with more than 127
 entries

---
 src/CircularBuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CircularBuffer.h b/src/CircularBuffer.h
index ba4bc4b..e9d8454 100644
--- a/src/CircularBuffer.h
+++ b/src/CircularBuffer.h
@@ -133,7 +133,7 @@ void CircularBuffer<E>::clear()
 template <typename E>
 uint8_t CircularBuffer<E>::bufUse()
 {
-  int8_t size = capacity;
+  int size = capacity;
   if (!full)
   {
     size = head - tail;
-- 
2.43.0


From 4ccccf1bef1e1a1a109d674cc859b8e634df75a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:13 +0000
Subject: [PATCH 22/28] fix: External EEPROM writeBytes splits writes at EEPROM
 page boundaries and the I2C buffer size

---
 src/EepromExternalStorage.cpp | 39 +++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/EepromExternalStorage.cpp b/src/EepromExternalStorage.cpp
index 24093ec..8497e1b 100644
--- a/src/EepromExternalStorage.cpp
+++ b/src/EepromExternalStorage.cpp
@@ -118,24 +118,31 @@ void EepromExternalStorage::write(unsigned int eeaddress, byte data)
 //
 void EepromExternalStorage::writeBytes(unsigned int eeaddress, const byte src[], byte numbytes)
 {
-  // *** TODO *** handle greater than 32 bytes -> the Arduino I2C write buffer size
-  // max write = EEPROM pagesize - 64 bytes
+  // A transmission is limited by the Arduino I2C write buffer (32 bytes including the address)
+  // and a page write wraps around at the end of an EEPROM page (32 bytes or more).
+  const byte maxChunk = 16;
 
-  I2Cbus->beginTransmission(external_address);
-  I2Cbus->write((int) (eeaddress >> 8));   // MSB
-  I2Cbus->write((int) (eeaddress & 0xFF)); // LSB
-
-  for (byte i = 0; i < numbytes; i++)
-  {
-    I2Cbus->write(src[i]);
-  }
-
-  int r = I2Cbus->endTransmission();
-  delay(5);
-
-  if (r < 0)
+  byte i = 0;
+  while (i < numbytes)
   {
-    // DEBUG_SERIAL << F("> writeBytes: I2C write error = ") << r << endl;
+    I2Cbus->beginTransmission(external_address);
+    I2Cbus->write((int) (eeaddress >> 8));   // MSB
+    I2Cbus->write((int) (eeaddress & 0xFF)); // LSB
+
+    do
+    {
+      I2Cbus->write(src[i++]);
+      ++eeaddress;
+    }
+    while (i < numbytes && eeaddress % maxChunk != 0);
+
+    int r = I2Cbus->endTransmission();
+    delay(5);
+
+    if (r < 0)
+    {
+      // DEBUG_SERIAL << F("> writeBytes: I2C write error = ") << r << endl;
+    }
   }
 }
 
-- 
2.43.0


From 35a683d9bd5852e1566c5cc9e5e0c3848d2e3902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:13 +0000
Subject: [PATCH 23/28] fix: Flash storage write crossing a page boundary wrote
 outside the page cache

---
 src/FlashStorage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FlashStorage.cpp b/src/FlashStorage.cpp
index d24cf70..d557068 100644
--- a/src/FlashStorage.cpp
+++ b/src/FlashStorage.cpp
@@ -215,7 +215,7 @@ bool flash_write_bytes(const uint16_t address, const uint8_t *data, const uint16
       buffer_index = 0;                                 // set cache buffer index to zero
     }
 
-    cache_page.data[buffer_index + a] = data[a];
+    cache_page.data[buffer_index++] = data[a];
   }
 
   // set page dirty flag
-- 
2.43.0


From 3ceda1c4d9dbd3ef5eeee614a00e233e6e76f315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:13 +0000
Subject: [PATCH 24/28] fix: Due storage reset() clears the stored data as the
 other storages do

---
 src/DueEepromEmulationStorage.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/DueEepromEmulationStorage.cpp b/src/DueEepromEmulationStorage.cpp
index fdcaf75..be205d5 100644
--- a/src/DueEepromEmulationStorage.cpp
+++ b/src/DueEepromEmulationStorage.cpp
@@ -90,7 +90,13 @@ void DueEepromEmulationStorage::setChipEEPROMVal(unsigned int eeaddress, byte va
 //
 void DueEepromEmulationStorage::reset()
 {
-
+  for (unsigned int addr = 10; addr < 4096; addr++)
+  {
+    if (read(addr) != 0xff)   // avoid needless flash writes
+    {
+      write(addr, 0xff);
+    }
+  }
 }
 
 }
\ No newline at end of file
-- 
2.43.0


From 6ad2e58c5c71f320f4d5c809bad5c432cf6561a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:30 +0000
Subject: [PATCH 25/28] fix: CAN2515 reset() keeps polling mode and the SPI bus

---
 src/CAN2515.cpp | 3 ++-
 src/CAN2515.h   | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/CAN2515.cpp b/src/CAN2515.cpp
index 86fddef..519744d 100644
--- a/src/CAN2515.cpp
+++ b/src/CAN2515.cpp
@@ -42,6 +42,7 @@ bool CAN2515::begin(bool poll, SPIClass & spi)
   _numMsgsSent = 0;
   _numMsgsRcvd = 0;
   _poll = poll;
+  _spi = &spi;
 
   ACAN2515Settings settings(_osc_freq, CANBITRATE);
 
@@ -185,7 +186,7 @@ void CAN2515::reset()
 {
   canp->end();
   delete canp;
-  begin();
+  begin(_poll, *_spi);
 }
 
 //
diff --git a/src/CAN2515.h b/src/CAN2515.h
index 547b355..1422fcf 100644
--- a/src/CAN2515.h
+++ b/src/CAN2515.h
@@ -74,7 +74,10 @@ private:
   bool _poll;
 
 #ifdef ARDUINO_ARCH_RP2040
+  SPIClassRP2040 *_spi;
   byte _mosi_pin, _miso_pin, _sck_pin;
+#else
+  SPIClass *_spi;
 #endif
 };
 
-- 
2.43.0


From adbfe387c4292119730e5572852974c0a8a4639e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:59 +0000
Subject: [PATCH 26/28] fix: losing power while a node number is stored left a
 wrong number in normal mode

---
 src/Configuration.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Configuration.cpp b/src/Configuration.cpp
index 74cec09..f0dd6b7 100644
--- a/src/Configuration.cpp
+++ b/src/Configuration.cpp
@@ -79,8 +79,11 @@ void Configuration::setModuleUninitializedMode()
 
 void Configuration::setModuleNormalMode(unsigned int nodeNumber)
 {
-  setModuleMode(MODE_NORMAL);
+  // The mode is stored as normal only after the complete node number.
+  // If power is lost in between then the module restarts uninitialised.
+  setModuleMode(MODE_UNINITIALISED);
   setNodeNum(nodeNumber);
+  setModuleMode(MODE_NORMAL);
 }
 
 void Configuration::setModuleMode(VlcbModeParams f)
-- 
2.43.0


From 80b3f6d764c6773fbceff046c904f9a8d1396d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:35 +0000
Subject: [PATCH 27/28] fix: emulated EEPROM on ESP32 and ESP8266 compiles and
 gets its full size

---
 src/EepromInternalStorage.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/EepromInternalStorage.cpp b/src/EepromInternalStorage.cpp
index c414aa9..b7459a7 100644
--- a/src/EepromInternalStorage.cpp
+++ b/src/EepromInternalStorage.cpp
@@ -16,11 +16,7 @@ void EepromInternalStorage::begin()
 {
   // these devices require an explicit begin with the desired emulated size
 
-#if defined ESP32 || defined ESP8266
-  EEPROM.begin(EE_EVENTS_START + (EE_MAX_EVENTS * EE_BYTES_PER_EVENT));
-#endif
-
-#ifdef ARDUINO_ARCH_RP2040
+#if defined ESP32 || defined ESP8266 || defined ARDUINO_ARCH_RP2040
   EEPROM.begin(4096);
 #endif
 }
-- 
2.43.0


From 0fc4b3d4742b0c5d8e44cea91e7ca8637eb65669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:13 +0000
Subject: [PATCH 28/28] fix: uninitialised mode is shown by name

---
 src/Configuration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Configuration.cpp b/src/Configuration.cpp
index f0dd6b7..38a1e73 100644
--- a/src/Configuration.cpp
+++ b/src/Configuration.cpp
@@ -294,7 +294,7 @@ void Configuration::updateEvHashEntry(byte idx)
 // Return a readable string for a mode value
 const char * Configuration::modeString(VlcbModeParams mode)
 {
-  switch (mode & 0x07)
+  switch (mode)
   {
     case MODE_NORMAL: return "Normal";
     case MODE_UNINITIALISED: return "Uninitialised";
-- 
2.43.0

