"""planted changes: edits against /repo/src and the body of a demonstration"""
SEEDS = {}


def S(id, prop, edits, needs, breaks, demo):
    SEEDS[id] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)


S("nv-addr-wrap", "P05", [("Configuration.cpp", "storage->write(EE_NVS_START + (idx - 1), val);", "byte addr = EE_NVS_START + (idx - 1);\n  storage->write(addr, val);")],
  "a layout where the NV start plus index exceeds 255", "NV writes beyond storage address 255 wrap to low addresses and overwrite module settings",
  r'''
  NodeVariableService nv; Controller c = mk(MODE_NORMAL, &nv); c.begin();
  configuration->EE_NVS_START = 200; configuration->EE_NUM_NVS = 100; configuration->EE_EVENTS_START = 400;
  feed(c, {0x96, 1, 4, 90, 42});
  check(configuration->readNV(90) == 42, "NV 90 holds the written value");
  check(configuration->nodeNum == 0x0104, "node number kept");
''')
S("snn-uninit", "P06", [("MinimumNodeService.cpp", "  if (instantMode == MODE_SETUP)\n  {\n    if (msg->len < 3)", "  if (instantMode != MODE_NORMAL)\n  {\n    if (msg->len < 3)")],
  "a node number assignment broadcast while the module is uninitialised and not in setup",
  "an uninitialised module takes a node number meant for another module",
  r'''
  MinimumNodeService m; Controller c = mk(MODE_UNINITIALISED, &m); c.begin();
  feed(c, {0x42, 2, 7});
  check(configuration->nodeNum == 0, "SNN ignored outside setup");
  check(configuration->currentMode == MODE_UNINITIALISED, "still uninitialised");
''')
S("heartbeat-wrap", "P22", [("MinimumNodeService.cpp", "if ((millis() - lastHeartbeat) > heartRate)", "if (millis() > lastHeartbeat + heartRate)")],
  "the millisecond clock wrapping around", "after the clock wraps the heartbeat is sent on every loop or withheld",
  r'''
  MinimumNodeService m; Controller c = mk(MODE_NORMAL, &m); c.begin(); m.setHeartBeat(true);
  addMillis(0ul - 100ul);
  process(c); process(c); tr->clearMessages();
  for (int i = 0; i < 20; ++i) { addMillis(1); process(c); }
  int n = 0; for (auto &x : tr->sent_messages) n += x.data[0] == 0xAB;
  check(n <= 1, "no burst of heartbeats within 20 ms");
''')
S("clear-holes", "P09", [("EventTeachingService.cpp", "for (byte e = 0; e < module_config->EE_MAX_EVENTS; e++)", "for (byte e = 0, used = module_config->numEvents(); e < used; e++)")],
  "a table with a free slot before a used one when all events are cleared", "events stored behind a free slot survive a clear and reappear after a restart",
  r'''
  EventTeachingService t; Controller c = mk(MODE_NORMAL, &t); c.begin();
  t.enableLearn();
  feed(c, {0xD2, 5, 6, 7, 8, 1, 9});
  feed(c, {0xD2, 5, 6, 7, 9, 1, 10});
  feed(c, {0x95, 5, 6, 7, 8});
  feed(c, {0x55, 1, 4});
  byte e[4]; configuration->readEvent(1, e);
  check(e[0] == 0xFF && e[1] == 0xFF && e[2] == 0xFF && e[3] == 0xFF, "no event survives in storage");
''')
S("learn-other", "P11", [("EventTeachingService.cpp", "  else  //if we are learning and another node is put in learn mode, stop learn.\n  {\n    if (bLearn)\n    {\n      inhibitLearn();", "  else  //if we are learning and another node is put in learn mode, stop learn.\n  {\n    if (bLearn && nn != 0)\n    {\n      inhibitLearn();")],
  "a learn request naming node 0 while this node is learning", "two nodes can be in learn mode at once",
  r'''
  EventTeachingService t; Controller c = mk(MODE_NORMAL, &t); c.begin();
  feed(c, {0x53, 1, 4});
  feed(c, {0x53, 0, 0});
  feed(c, {0xD2, 5, 6, 7, 8, 1, 9});
  check(configuration->findEventSpace() == 0, "no longer learning");
''')
S("enum-stale", "P23", [("CanService.cpp", "  memset(enum_responses, 0, sizeof(enum_responses));\n  startedFromEnumMessage", "  if (fromENUM)\n  {\n    memset(enum_responses, 0, sizeof(enum_responses));\n  }\n  startedFromEnumMessage")],
  "two enumerations, the second started by a clash, after a node that answered the first has gone",
  "answers of an earlier enumeration still block CAN IDs in a later one",
  r'''
  MinimumNodeService m; static MockCanTransport ct; CanService s(&ct);
  Controller c = ::createController(MODE_NORMAL, {&m, &s}); c.begin();
  auto fd = [&](CANFrame f) { ct.setNextMessage(f); for (int i = 0; i < 6; ++i) process(c); };
  configuration->setCANID(0x40);
  fd({0x11, false, false, 3, {0x5D, 1, 4}});
  fd({0x01, false, false, 0, {}}); fd({0x02, false, false, 0, {}});
  addMillis(101); process(c); process(c);
  check(configuration->CANID == 3, "first free id after the first enumeration");
  fd({0x03, false, false, 3, {0x0D, 0, 0}});   // clash
  process(c);
  fd({0x01, false, false, 0, {}});
  addMillis(101); process(c); process(c);
  check(configuration->CANID == 2, "id 2 is free again in the second enumeration");
''')
S("rtr-dlc", "P24", [("CanService.cpp", "  if (canFrame.rtr)\n", "  if (canFrame.rtr && canFrame.len == 0)\n")],
  "a remote request frame with a non-zero length code", "a remote request carrying a length is taken for a message and gets no answer",
  r'''
  MinimumNodeService m; static MockCanTransport ct; CanService s(&ct);
  Controller c = ::createController(MODE_NORMAL, {&m, &s}); c.begin();
  for (int i = 0; i < 4; ++i) process(c);
  ct.clearMessages();
  ct.setNextMessage({0x11, false, true, 3, {0x0D, 0, 0}});
  for (int i = 0; i < 6; ++i) process(c);
  check(ct.sent_frames.size() == 1 && ct.sent_frames[0].len == 0 && !ct.sent_frames[0].rtr, "answered with one empty frame");
''')
S("lm-len8", "P27", [("LongMessageService.h", "_incoming_message_crc = 0, _incoming_bytes_received = 0;", "_incoming_message_crc = 0;\n  byte _incoming_bytes_received = 0;")],
  "a long message of more than 255 bytes", "messages longer than 255 bytes are never reported complete",
  r'''
  static byte ids[] = {7}; static byte buf[400]; static int done = -1; static byte first, lastb;
  LongMessageService l; Controller c = mk(MODE_NORMAL, &l); c.begin();
  l.subscribe(ids, 1, buf, sizeof buf, [](void *p, const unsigned int n, const byte, const byte st) { if (st == LONG_MESSAGE_COMPLETE) { done = n; first = ((byte *)p)[0]; lastb = ((byte *)p)[n - 1]; } });
  int len = 300;
  feed(c, {0xE9, 7, 0, len >> 8, len & 255, 0, 0, 0});
  for (int k = 0, q = 1; k < len; k += 5, ++q) feed(c, {0xE9, 7, q & 255, k & 255, (k + 1) & 255, (k + 2) & 255, (k + 3) & 255, (k + 4) & 255});
  check(done == 300 && first == 0 && lastb == (299 & 255), "the whole message is handed over");
''')
S("lmx-seqerr", "P27", [("LongMessageService.cpp", "                                _receive_context[i]->receive_stream_id, LONG_MESSAGE_SEQUENCE_ERROR);\n      _receive_context[i]->in_use = false;\n      return;", "                                _receive_context[i]->receive_stream_id, LONG_MESSAGE_SEQUENCE_ERROR);\n      _receive_context[i]->in_use = (frame->data[2] > _receive_context[i]->expected_next_receive_sequence_num);\n      return;")],
  "a lost fragment followed by the rest of the message", "after a lost fragment the receiver keeps its context and reports the rest of the same message again and again",
  r'''
  static byte ids[] = {7}; static int errs = 0, all = 0;
  LongMessageServiceEx l; Controller c = mk(MODE_NORMAL, &l); c.begin();
  l.allocateContexts(1, 64, 1);
  l.subscribe(ids, 1, [](void *, unsigned int, byte, byte st) { ++all; errs += st == LONG_MESSAGE_SEQUENCE_ERROR; });
  feed(c, {0xE9, 7, 0, 0, 30, 0, 0, 0});
  feed(c, {0xE9, 7, 1, 1, 2, 3, 4, 5});
  feed(c, {0xE9, 7, 3, 1, 2, 3, 4, 5});
  feed(c, {0xE9, 7, 4, 1, 2, 3, 4, 5});
  feed(c, {0xE9, 7, 5, 1, 2, 3, 4, 5});
  check(errs == 1 && all == 1, "one report for one broken message");
''')
S("short-nn-hi", "P14", [("EventProducerService.cpp", "  if ((nn_en[0] == 0) && (nn_en[1] == 0))\n  {\n    opCode = (state ? OPC_ASON3 : OPC_ASOF3);", "  if (nn_en[0] == 0)\n  {\n    opCode = (state ? OPC_ASON3 : OPC_ASOF3);")],
  "an event of a node numbered 1 to 255 sent with three data bytes", "a long event is sent as a short event of this node",
  r'''
  EventTeachingService t; EventProducerService p; Controller c = mk(MODE_NORMAL, &t, &p); c.begin();
  t.enableLearn(); feed(c, {0xD2, 0, 9, 0, 5, 1, 77}); feed(c, {0x54, 1, 4});
  tr->clearMessages();
  p.sendEvent(true, 77, 1, 2, 3);
  for (int i = 0; i < 4; ++i) process(c);
  check(tr->sent_messages.size() == 1, "one event");
  check(tr->sent_messages[0].data[0] == 0xF0 && tr->sent_messages[0].data[1] == 0 && tr->sent_messages[0].data[2] == 9, "ACON3 of node 9");
''')
S("asof3-long", "P15", [("EventConsumerService.cpp", "    case OPC_ASOF:\n    case OPC_ASOF1:\n    case OPC_ASOF2:\n    case OPC_ASOF3:\n", "    case OPC_ASOF:\n    case OPC_ASOF1:\n    case OPC_ASOF2:\n"),
    ("EventConsumerService.cpp", "    case OPC_ARON:\n    case OPC_AROF:", "    case OPC_ASOF3:\n    case OPC_ARON:\n    case OPC_AROF:")],
  "a short off event with three data bytes from another node", "short off events with three data bytes are looked up under the sender's node number",
  r'''
  static int n = 0;
  EventTeachingService t; EventConsumerService e; Controller c = mk(MODE_NORMAL, &t, &e); c.begin();
  e.setEventHandler([](byte, const VlcbMessage *) { ++n; });
  t.enableLearn(); feed(c, {0xD2, 0, 0, 0, 5, 1, 77}); feed(c, {0x54, 1, 4});
  feed(c, {0x99, 2, 2, 0, 5}); check(n == 1, "ASOF consumed");
  feed(c, {0xF9, 2, 2, 0, 5, 1, 2, 3}); check(n == 2, "ASOF3 consumed");
''')
S("resp-short", "P16", [("EventProducerService.cpp", "    opCode = (state ? OPC_ARSON2 : OPC_ARSOF2);\n    Configuration::setTwoBytes(&nn_en[0], controller->getModuleConfig()->nodeNum);", "    opCode = (state ? OPC_ARSON2 : OPC_ARSOF2);")],
  "answering a request for a short event with two data bytes", "the answer to a short event request does not name this node",
  r'''
  EventTeachingService t; EventProducerService p; Controller c = mk(MODE_NORMAL, &t, &p); c.begin();
  t.enableLearn(); feed(c, {0xD2, 0, 0, 0, 5, 1, 77}); feed(c, {0x54, 1, 4});
  tr->clearMessages();
  p.sendEventResponse(true, 0, 1, 2);
  for (int i = 0; i < 4; ++i) process(c);
  check(tr->sent_messages.size() == 1 && tr->sent_messages[0].data[1] == 1 && tr->sent_messages[0].data[2] == 4, "answer names this node");
''')
S("hash-zero", "P12", [("Configuration.cpp", "  hash = (hash == 0) ? 255 : hash;\n", ""), ("Configuration.cpp", "    evhashtbl[idx] = makeHash(evarray);", "    evhashtbl[idx] = makeHash(evarray);\n    if (evhashtbl[idx] == 0)\n    {\n      evhashtbl[idx] = 255;\n    }")],
  "an event whose node and event number give hash value zero", "an event that hashes to zero is stored but never found",
  r'''
  EventTeachingService t; Controller c = mk(MODE_NORMAL, &t); c.begin();
  t.enableLearn();
  for (int en = 1; en < 256; ++en) {
    feed(c, {0xD2, 5, 6, 0, en, 1, 9});
    if (configuration->findExistingEvent(0x506, en) >= 20) check(false, "learned event is found");
    feed(c, {0x95, 5, 6, 0, en});
  }
  check(true, "every learned event is found");
''')
S("ev-addr8", "P13", [("Configuration.cpp", "  return EE_EVENTS_START + (idx * EE_BYTES_PER_EVENT) + EE_HASH_BYTES + evnum - 1;", "  byte offset = idx * EE_BYTES_PER_EVENT;\n  return EE_EVENTS_START + offset + EE_HASH_BYTES + evnum - 1;")],
  "a table of events longer than 255 bytes", "event variables of entries far into the table overwrite those of the first entries",
  r'''
  EventTeachingService t; Controller c = mk(MODE_NORMAL, &t); c.begin();
  configuration->EE_NUM_EVS = 20; configuration->EE_BYTES_PER_EVENT = 24;
  configuration->writeEventEV(1, 15, 11);
  for (int i = 2; i < 20; ++i) for (int v = 1; v <= 20; ++v) configuration->writeEventEV(i, v, 99);
  check(configuration->getEventEVval(1, 15) == 11, "event variable of entry 1 kept");
''')
S("cb-pop-full", "P28", [("CircularBuffer.h", "  uint8_t oldTail = tail;\n  full = false;", "  uint8_t oldTail = tail;\n  full = full && (numGets == 0xFF);")],
  "a full buffer read for the 256th time", "a buffer read 256 times still counts as full and repeats items",
  r'''
  CircularBuffer<int> b(4);
  for (int i = 0; i < 255; ++i) { b.put(i); b.pop(); }
  for (int i = 0; i < 4; ++i) b.put(i);
  check(b.pop() == 0, "oldest item first");
  b.put(4);
  for (int i = 1; i < 5; ++i) { check(b.available(), "an item is left"); check(b.pop() == i, "items in order"); }
  check(!b.available(), "empty after reading all");
''')
S("proc-alias", "P33", [("Controller.cpp", "  Action action;\n  if (actionQueue.available())\n  {\n    action = actionQueue.pop();\n    pAction = &action;\n  }", "  if (actionQueue.available())\n  {\n    pAction = &actionQueue.pop();\n  }")],
  "a handler that queues as many actions as the queue holds", "the services later in the list see a different action than the first ones",
  r'''
  struct Fill : Service { Controller *c = nullptr; VlcbServiceTypes getServiceID() const override { return (VlcbServiceTypes)0; } byte getServiceVersionID() const override { return 1; }
    void process(const Action *a) override { if (a && a->actionType == ACT_MESSAGE_IN && a->vlcbMessage.data[0] == 0x77) { VlcbMessage m = {1, {0x66}}; for (int i = 0; i < 30; ++i) c->sendMessage(&m); } } };
  struct See : Service { int seen = 0; VlcbServiceTypes getServiceID() const override { return (VlcbServiceTypes)0; } byte getServiceVersionID() const override { return 1; }
    void process(const Action *a) override { if (a && a->actionType == ACT_MESSAGE_IN && a->vlcbMessage.data[0] == 0x77) ++seen; } };
  Fill f; See s; Controller c = mk(MODE_NORMAL, &f, &s); f.c = &c; c.begin();
  feed(c, {0x77});
  check(s.seen == 1, "the second service sees the same message");
''')
S("combi-flag", "P36", [("Controller.cpp", "    _mparams[PAR_FLAGS] &= ~flag;", "    _mparams[PAR_FLAGS] -= (_mparams[PAR_FLAGS] & flag) ? flag : 0;")],
  "clearing a flag made of several bits when only one of them is set", "clearing a combined flag corrupts the other flags",
  r'''
  MinimumNodeService m; EventConsumerService e; Controller c = mk(MODE_NORMAL, &m, &e); c.begin();
  c.setParamFlag(PF_COMBI, false);
  check((c.getParam(PAR_FLAGS) & PF_COMBI) == 0, "no flag of the combination is left");
  check((c.getParam(PAR_FLAGS) & PF_VLCB) != 0, "other flags are kept");
''')
S("rqnpn-last", "P19", [("MinimumNodeService.cpp", "for (byte i = 0; i <= controller->getParam(PAR_NUM); i++)", "for (byte i = 0, last = controller->getParam(0); i <= last && controller->getParam(i) != 0xFF; i++)")],
  "a module with a parameter whose value is 255", "listing all parameters stops at the first parameter with value 255",
  r'''
  MinimumNodeService m; Controller c = mk(MODE_NORMAL, &m); c.begin();
  Parameters p(*configuration); p.setVersion(1, 255, 'a'); p.setModuleId(5); c.setParams(p.getParams());
  auto r = feed(c, {0x73, 1, 4, 0});
  check(r.size() == 21, "all parameters are listed");
''')
S("gc-len-odd", "P25", [("GridConnect.cpp", "    frame->len = dataLength / 2;", "    frame->len = dataLength < 2 ? 0 : dataLength / 2;\n    if (frame->len == 8 && frame->rtr)\n    {\n      frame->len = 0;\n    }")],
  "a remote request with eight data bytes", "a frame is decoded with a length that is not that of the text",
  r'''
  CANFrame g = {};
  check(decodeGridConnect(":S1234R0102030405060708;", &g), "accepted");
  check(g.len == 8 && g.rtr, "length survives");
''')
S("sui-nv", "P29", [("SerialUserInterface.cpp", "for (byte ev = 1; ev <= modconfig->EE_NUM_EVS; ev++)", "for (byte ev = 1; ev <= (byte)(modconfig->EE_NUM_EVS | 1); ev += 2)")],
  "x", "x", "")
del SEEDS["sui-nv"]
S("evs-loop", "P14", [("EventProducerService.cpp", "  for (byte i = 2; i <= module_config->EE_NUM_EVS; i++)\n  {\n    module_config->writeEventEV(index, i, 0);\n  }", "  for (byte i = module_config->EE_NUM_EVS; i != 1; i--)\n  {\n    module_config->writeEventEV(index, i, 0);\n  }")],
  "a module whose events have no event variables", "creating an event on a module without event variables writes 255 bytes downwards through the table",
  r'''
  EventProducerService p; Controller c = mk(MODE_NORMAL, &p); c.begin();
  EventTeachingService t;
  configuration->EE_NUM_EVS = 0; configuration->EE_BYTES_PER_EVENT = 4;
  configuration->EE_EVENTS_START = 20;
  for (int a = 0; a < 4; ++a) configuration->writeNV(a + 1, a + 50);
  byte other[4] = {9, 9, 9, 9};
  configuration->writeEvent(5, other); configuration->updateEvHashEntry(5);
  p.sendEvent(true, 3); process(c); process(c);
  byte e[4]; configuration->readEvent(5, e);
  check(memcmp(e, other, 4) == 0, "another event is untouched");
''')
S("enum-bound", "P30", [("CanService.cpp", "bitWrite(enum_responses[(remoteCANID / 8)], remoteCANID % 8, 1);", "bitWrite(enum_responses[((canFrame.id & 0xff) / 8)], remoteCANID % 8, 1);")],
  "an answer to an enumeration with a priority whose low bit is set", "an enumeration answer is written behind the array of answers",
  r'''
  MinimumNodeService m; static MockCanTransport ct; CanService s(&ct);
  Controller c = ::createController(MODE_NORMAL, {&m, &s}); c.begin();
  auto fd = [&](CANFrame f) { ct.setNextMessage(f); for (int i = 0; i < 6; ++i) process(c); };
  fd({0x11, false, false, 3, {0x5D, 1, 4}});
  fd({0x81, false, false, 0, {}});        // id 1, priority with low bit
  addMillis(101); process(c); process(c);
  check(configuration->CANID == 2, "id 1 is recorded as taken");
''')
S("look-up-len", "P30", [("Configuration.cpp", "  if (tindex < EE_MAX_EVENTS)\n  {\n    return evhashtbl[tindex];", "  if (tindex <= numEvents())\n  {\n    return evhashtbl[tindex];")],
  "a completely filled event table queried one past its end", "a query reads behind the event look-up table and misses entries behind free slots",
  r'''
  EventTeachingService t; Controller c = mk(MODE_NORMAL, &t); c.begin();
  t.enableLearn();
  for (int i = 0; i < 3; ++i) feed(c, {0xD2, 5, 6, 7, 8 + i, 1, 9 + i});
  feed(c, {0x95, 5, 6, 7, 8}); feed(c, {0x95, 5, 6, 7, 9});
  check(configuration->getEvTableEntry(2) != 0, "entry behind free slots is reported");
''')
S("led-last", "P32", [("LED.cpp", "    if ((millis() - _lastTime) >= BLINK_RATE)", "    if (millis() >= _lastTime + BLINK_RATE)")],
  "the millisecond clock wrapping around while an LED blinks", "a blinking LED flickers on every loop around the clock's wrap",
  r'''
  LED l(5); l.blink();
  addMillis(0ul - 100ul); l.run();
  int n = 0; bool s = l.getState();
  for (int i = 0; i < 50; ++i) { addMillis(1); l.run(); n += l.getState() != s; s = l.getState(); }
  check(n == 0, "no toggling within 50 ms");
''')
S("switch-held", "P32", [("Switch.cpp", "    _lastStateDuration = millis() - _lastStateChangeTime;", "    _lastStateDuration = (unsigned int)(millis() & 0xFFFF) - (unsigned int)(_lastStateChangeTime & 0xFFFF);\n    _lastStateDuration &= 0xFFFF;")],
  "a button held longer than 65.5 seconds", "a very long press counts as a short one and starts an enumeration",
  r'''
  setDigitalRead(4, HIGH); Switch s(4); s.run();
  addMillis(100); setDigitalRead(4, LOW); s.run();
  addMillis(65600); setDigitalRead(4, HIGH); s.run();
  check(s.stateChanged() && s.getLastStateDuration() == 65600, "duration of a long press");
''')
S("prod-uninit", "P34", [("EventProducerService.h", "bool uninit = false;", "bool uninit;")],
  "a module that starts in normal mode", "a producer acts on a flag that was never given a value and creates its default events again",
  r'''
  alignas(EventProducerService) static unsigned char mem[sizeof(EventProducerService)]; memset(mem, 1, sizeof mem);
  EventProducerService *p = new (mem) EventProducerService;
  Controller c = mk(MODE_NORMAL, p); c.begin();
  process(c);
  check(configuration->numEvents() == 0, "no events are created on a configured module");
''')
S("eeprom-page", "P38", [("EepromExternalStorage.cpp", "for (unsigned int addr = 10; addr < 4096; addr++)", "for (unsigned int addr = 10; addr < 4095; addr++)")],
  "a reset with data in the last byte of the memory", "a reset leaves data behind in the external memory",
  r'''
  static EepromExternalStorage s(0x50); s.begin();
  memset(mem, 7, sizeof mem);
  s.reset();
  check(mem[4095] == 0xff && mem[10] == 0xff && mem[9] == 7, "all of the data area is erased");
''')
S("flash-page", "P38", [("FlashStorage.cpp", "    curr_page_num = new_page_num;                       // set new cache page num\n    flash_cache_page(curr_page_num);                    // cache the new page data from flash", "    if (new_page_num > curr_page_num)\n    {\n      flash_cache_page(new_page_num);\n    }\n    curr_page_num = new_page_num;                       // set new cache page num")],
  "writes that go back to an earlier page", "a write to an earlier page stores the contents of another page over it",
  r'''
  FlashStorage s; s.begin();
  s.write(5, 55); s.write(6, 66); s.write(600, 77); s.write(7, 88);
  check(s.read(5) == 55 && s.read(6) == 66 && s.read(7) == 88 && s.read(600) == 77, "every byte as written");
''')
S("can-rtr", "P39", [("CAN2515.cpp", "  frame.rtr = message.rtr;", "  frame.rtr = message.rtr && !message.ext;")],
  "an extended remote request", "an extended remote request arrives as a data frame",
  r'''
  CAN2515 d; d.setNumBuffers(2, 2); d.begin();
  next = {0x1234567, true, true, 0, {}};
  CANFrame f = d.getNextCanFrame();
  check(f.ext && f.rtr && f.id == 0x1234567, "frame as received");
''')
S("reval-other", "P03", [("EventTeachingService.cpp", "  if (!isThisNodeNumber(nn))\n  {\n    return;\n  }\n\n  if (msg->len < 5)\n  {\n    //DEBUG_SERIAL << F(\"ets> REVAL", "  if (!isThisNodeNumber(nn) && !(nn == 0 && bLearn))\n  {\n    return;\n  }\n\n  if (msg->len < 5)\n  {\n    //DEBUG_SERIAL << F(\"ets> REVAL")],
  "x", "x", "")
del SEEDS["reval-other"]
S("mode-len", "P03", [("MinimumNodeService.cpp", "  if (!isThisNodeNumber(nn))\n  {\n    return;\n  }\n\n  if (msg->len < 4)\n  {\n    // DEBUG", "  if (!isThisNodeNumber(nn))\n  {\n    return;\n  }\n\n  if (msg->len < 4)\n  {\n    // DEBUG")],
  "x", "x", "")
del SEEDS["mode-len"]
S("flags-clobber", "P07", [("Configuration.cpp", "  byte mode = storage->read(LOCATION_FLAGS);\n  bitWrite(mode, HEARTBEAT_BIT, beat);", "  byte mode = 0;\n  bitWrite(mode, HEARTBEAT_BIT, beat);")],
  "switching heartbeats on a module with event acknowledgement enabled, then a restart", "changing the heartbeat setting forgets the event acknowledgement setting",
  r'''
  MinimumNodeService m; Controller c = mk(MODE_NORMAL, &m); c.begin();
  configuration->setEventAck(true);
  feed(c, {0x76, 1, 4, 0x0D});
  configuration->begin();
  check(configuration->eventAck, "event acknowledgement survives the restart");
''')
S("reset-nvs", "P08", [("Configuration.cpp", "  for (byte i = 0; i < EE_NUM_NVS; i++)\n  {\n    writeNV(i + 1, 0);\n  }", "  for (byte i = 1; i < EE_NUM_NVS; i++)\n  {\n    writeNV(i, 0);\n  }")],
  "a factory reset of a module whose last NV is set", "the last node variable survives a factory reset",
  r'''
  MinimumNodeService m; NodeVariableService nv; Controller c = mk(MODE_NORMAL, &m, &nv); c.begin();
  feed(c, {0x96, 1, 4, 4, 42});
  rebootFunc = [] {};
  configuration->resetModule();
  check(configuration->readNV(4) == 0, "last NV is cleared");
''')
S("dgn-stop", "P21", [("MinimumNodeServiceWithDiagnostics.cpp", "        // Not a real service, skip it.\n        continue;", "        // Not a real service, skip it.\n        break;")],
  "a module with a hidden service before others, asked for the diagnostics of all services", "diagnostics of services behind a hidden one are not reported",
  r'''
  MinimumNodeServiceWithDiagnostics m; NodeVariableService nv; MockUserInterface ui;
  Controller c = mk(MODE_NORMAL, &m, &ui, &nv); c.begin();
  auto r = feed(c, {0x87, 1, 4, 0, 0});
  bool seen = false; for (auto &x : r) seen |= x[0] == 0xC7 && x[3] == 3;
  check(seen, "the third service reports");
''')
S("sd-index", "P20", [("MinimumNodeService.cpp", "        ++svcIndex;\n        if (svc->getServiceID() > 0)\n        {", "        if (svc->getServiceID() > 0)\n        {\n          ++svcIndex;")],
  "a module with a hidden service before others", "services behind a hidden one are announced with the index of another service",
  r'''
  MinimumNodeService m; NodeVariableService nv; MockUserInterface ui;
  Controller c = mk(MODE_NORMAL, &m, &ui, &nv); c.begin();
  auto r = feed(c, {0x78, 1, 4, 0});
  bool ok = false; for (auto &x : r) ok |= x[0] == 0xAC && x[3] == 3 && x[4] == 2;
  check(ok, "the node variable service is announced at its index");
''')
S("renegotiate-nn", "P35", [("MinimumNodeService.cpp", "        module_config->reboot();", "        if (instantMode == MODE_NORMAL)\n        {\n          module_config->reboot();\n        }")],
  "x", "x", "")
del SEEDS["renegotiate-nn"]
S("evans-index", "P10", [("EventTeachingService.cpp", "      response.data[6] = module_config->getEventEVval(index, i);\n      controller->sendMessage(&response);", "      response.data[6] = module_config->getEventEVval(index, i);\n      controller->sendMessage(&response);\n      index = module_config->findExistingEvent(nn, (response.data[3] << 8) + response.data[5 - 1]);")],
  "x", "x", "")
del SEEDS["evans-index"]
S("neval-cache", "P10", [("EventTeachingService.cpp", "  if (evnum > module_config->EE_NUM_EVS)\n  {\n    controller->sendCMDERR(CMDERR_INV_EV_IDX);\n    controller->sendGRSP(OPC_REVAL", "  if (evnum > module_config->EE_NUM_EVS && eventIndex != 0)\n  {\n    controller->sendCMDERR(CMDERR_INV_EV_IDX);\n    controller->sendGRSP(OPC_REVAL")],
  "a request for an event variable beyond the last one of the first event", "a byte of the next event is reported as an event variable",
  r'''
  EventTeachingService t; Controller c = mk(MODE_NORMAL, &t); c.begin();
  t.enableLearn(); feed(c, {0xD2, 5, 6, 7, 8, 1, 9}); feed(c, {0x54, 1, 4});
  auto r = feed(c, {0x9C, 1, 4, 0, 3});
  for (auto &x : r) check(x[0] != 0xB5, "no value is reported");
  check(r.size() == 2, "the request is refused");
''')
S("learn-full", "P09", [("EventTeachingService.cpp", "  if (newEvent || evnum <= 1)\n", "  if (evnum <= 1)\n")],
  "x", "x", "")
del SEEDS["learn-full"]
S("learn-idx-hash", "P09", [("EventTeachingService.cpp", "        if (!Configuration::nnenEquals(eventTableNNEN, &msg->data[1]))\n        {\n          module_config->writeEvent(index, &msg->data[1]);", "        if (!Configuration::nnenEquals(eventTableNNEN, &msg->data[1]) && module_config->findExistingEvent((msg->data[1] << 8) + msg->data[2], (msg->data[3] << 8) + msg->data[4]) >= module_config->EE_MAX_EVENTS)\n        {\n          module_config->writeEvent(index, &msg->data[1]);")],
  "teaching an event by index that is stored in another slot already", "an acknowledged event is not stored at the requested index",
  r'''
  EventTeachingService t; Controller c = mk(MODE_NORMAL, &t); c.begin();
  t.enableLearn(); feed(c, {0xD2, 5, 6, 7, 8, 1, 9});
  auto r = feed(c, {0xF5, 5, 6, 7, 8, 3, 1, 9});
  byte e[4]; configuration->readEvent(3, e);
  check(e[0] == 5 && e[1] == 6 && e[2] == 7 && e[3] == 8, "event stored at the index");
''')
S("coe-resp", "P03", [("EventProducerService.cpp", "  msg.len = 8;\n  msg.data[5] = data1;\n  msg.data[6] = data2;\n  msg.data[7] = data3;\n  sendMessage(msg, opCode, nn_en);\n  ++diagEventsProduced;", "  msg.len = (data3 == 0) ? 7 : 8;\n  msg.data[5] = data1;\n  msg.data[6] = data2;\n  msg.data[7] = data3;\n  sendMessage(msg, opCode, nn_en);\n  ++diagEventsProduced;")],
  "an event with three data bytes of which the last is zero", "the length of a sent message does not fit its opcode",
  r'''
  EventTeachingService t; EventProducerService p; Controller c = mk(MODE_NORMAL, &t, &p); c.begin();
  tr->clearMessages(); p.sendEvent(true, 7, 1, 2, 0);
  for (int i = 0; i < 4; ++i) process(c);
  check(tr->sent_messages.size() == 1 && tr->sent_messages[0].len == (tr->sent_messages[0].data[0] >> 5) + 1, "length fits the opcode");
''')
S("clr-learn", "P01", [("EventTeachingService.cpp", "void EventTeachingService::handleClearEvents(unsigned int nn)\n{\n  if (isThisNodeNumber(nn))\n", "void EventTeachingService::handleClearEvents(unsigned int nn)\n{\n  if (isThisNodeNumber(nn) || (bLearn && nn == 0))\n")],
  "this module in learn mode and a clear request for node 0", "a clear request for another node erases all events",
  r'''
  EventTeachingService t; Controller c = mk(MODE_NORMAL, &t); c.begin();
  t.enableLearn(); feed(c, {0xD2, 5, 6, 7, 8, 1, 9});
  auto r = feed(c, {0x55, 0, 0});
  check(r.empty() && configuration->numEvents() == 1, "request for another node has no effect");
''')
S("short-mode", "P02", [("NodeVariableService.cpp", "    if (msg->len < 5)\n    {\n      controller->sendGRSP(OPC_NVSET, getServiceID(), CMDERR_INV_CMD);", "    if (msg->len < 5 && msg->data[3] != 0)\n    {\n      controller->sendGRSP(OPC_NVSET, getServiceID(), CMDERR_INV_CMD);")],
  "a truncated NV write for index 0", "a truncated NV write is answered as if it were complete",
  r"""
  NodeVariableService nv; Controller c = mk(MODE_NORMAL, &nv); c.begin();
  auto r = feed(c, {0x96, 1, 4, 0});
  bool other = false; for (auto &x : r) other |= !(x[0] == 0xAF && x[5] == 1);
  check(!other && r.size() == 1, "only an invalid-command response");
""")
S("pnn-low", "P18", [("MinimumNodeService.cpp", "      if (module_config->nodeNum > 0)\n      {\n        // DEBUG_SERIAL << (\"> responding with PNN", "      if (lowByte(module_config->nodeNum) > 0)\n      {\n        // DEBUG_SERIAL << (\"> responding with PNN")],
  "a module whose node number is a multiple of 256", "such a module does not answer node number queries",
  r'''
  MinimumNodeService m; Controller c = mk(MODE_NORMAL, &m); c.begin();
  configuration->setNodeNum(0x0200);
  auto r = feed(c, {0x0D});
  check(r.size() == 1 && r[0][0] == 0xB6 && r[0][1] == 2 && r[0][2] == 0, "module answers");
''')
S("esd-count", "P20", [("MinimumNodeService.cpp", "    else if (serviceIndex <= controller->getServices().size())", "    else if (serviceIndex <= countServices(controller->getServices()))")],
  "a module with hidden services, asked about its last service", "the last services cannot be discovered",
  r'''
  MinimumNodeService m; MockUserInterface ui; NodeVariableService nv;
  tr.reset(new MockTransportService);
  Controller c = ::createController(MODE_NORMAL, {&m, tr.get(), &ui, &nv}); c.begin();
  int hidden = (tr->getServiceID() == 0) + (ui.getServiceID() == 0);
  auto r = feed(c, {0x78, 1, 4, 4});
  check(hidden > 0 && r.size() == 1 && r[0][0] == 0xE7 && r[0][4] == nv.getServiceID(), "last service described");
''')
S("dgn-high", "P21", [("MinimumNodeServiceWithDiagnostics.cpp", "highByte(diagNodeNumberChanges), lowByte(diagNodeNumberChanges)", "0, diagNodeNumberChanges")],
  "more than 255 node number changes", "the node number change counter is reported without its high byte",
  r'''
  MinimumNodeServiceWithDiagnostics m; Controller c = mk(MODE_NORMAL, &m); c.begin();
  for (int i = 0; i < 257; ++i) { m.setSetupMode(); feed(c, {0x42, 1, 4}); }
  auto r = feed(c, {0x87, 1, 4, 1, 5});
  check(r.size() == 1 && r[0][5] == 1 && r[0][6] == 1, "257 changes reported");
''')
S("lm-seq-wrap", "P26", [("LongMessageService.cpp", "		// DEBUG_SERIAL << F(\"> L: process: sent message fragment, seq = \") << _send_sequence_num << F(\", size = \") << i << endl;\n\n		++_send_sequence_num;", "		// DEBUG_SERIAL << F(\"> L: process: sent message fragment, seq = \") << _send_sequence_num << F(\", size = \") << i << endl;\n\n		if ((++_send_sequence_num & 0xFF) == 0)\n    {\n      // sequence number 0 is the header\n			++_send_sequence_num;\n    }")],
  "a message of more than 1275 bytes", "fragment 256 does not carry the next sequence number",
  r'''
  LongMessageService s; Controller c = mk(MODE_NORMAL, &s); c.begin();
  static byte big[1400]; s.setDelay(0); s.sendLongMessage(big, 1400, 3);
  tr->clearMessages();
  for (int i = 0; i < 400; ++i) { s.process(); process(c); }
  std::vector<int> q; for (auto &m : tr->sent_messages) if (m.data[0] == 0xE9) q.push_back(m.data[2]);
  bool ok = q.size() >= 280; for (size_t i = 1; i < q.size(); ++i) ok &= q[i] == ((q[i - 1] + 1) & 255);
  check(ok, "sequence numbers follow each other");
''')
S("free-slots", "P29", [("EventTeachingService.cpp", "    for (byte i = 0; i < module_config->EE_MAX_EVENTS; i++)\n    {\n      if (module_config->getEvTableEntry(i) == 0)\n      {\n        ++free_slots;", "    for (byte i = 1; i <= module_config->EE_MAX_EVENTS; i++)\n    {\n      if (module_config->getEvTableEntry(i - 1) == 0)\n      {\n        ++free_slots;")],
  "a module with 255 event slots", "the request for free slots never completes",
  r'''
  EventTeachingService t; Controller c = mk(MODE_NORMAL, &t);
  configuration->EE_MAX_EVENTS = 255; c.begin();
  auto r = feed(c, {0x56, 1, 4});
  check(r.size() == 1, "request is answered");
''')
S("rst-mode", "P35", [("MinimumNodeService.cpp", "        controller->sendMessageWithNN(OPC_NNREL);  // release node number first\n        module_config->resetModule();        ", "        if (instantMode == MODE_NORMAL)\n        {\n          controller->sendMessageWithNN(OPC_NNREL);  // release node number first\n        }\n        module_config->resetModule();        ")],
  "a reset request while the module is in setup mode", "the node number is not released before the module forgets it",
  r'''
  MinimumNodeService m; Controller c = mk(MODE_NORMAL, &m); c.begin(); m.setSetupMode();
  auto r = feed(c, {0x4F, 1, 4});
  bool rel = false; for (auto &x : r) rel |= x[0] == 0x51;
  check(rel, "node number released");
''')
S("neval-gap", "P10", [("EventTeachingService.cpp", "      byte value = module_config->getEventEVval(eventIndex, i);\n      controller->sendMessageWithNN(OPC_NEVAL, eventIndex, i, value);", "      byte value = module_config->getEventEVval(eventIndex, i);\n      if (value == 0xFF)\n      {\n        continue; // never set\n      }\n      controller->sendMessageWithNN(OPC_NEVAL, eventIndex, i, value);")],
  "an event with a variable that holds 255", "a variable is left out when all variables of an event are read by index",
  r"""
  EventTeachingService t; Controller c = mk(MODE_NORMAL, &t); c.begin();
  t.enableLearn(); feed(c, {0xD2, 5, 6, 7, 8, 1, 9}); feed(c, {0xD2, 5, 6, 7, 8, 2, 255});
  auto r = feed(c, {0x9C, 1, 4, 0, 0});
  check(r.size() == 3 && r[2][4] == 2 && r[2][5] == 255, "every variable is reported");
""")
SEEDS["flash-page"]["files"] = {"Flash.h": "// stand-in, see demo.cpp\n"}
S("uninit-order", "P40", [("Configuration.cpp", "  setModuleMode(MODE_UNINITIALISED);\n  setNodeNum(0);\n  setCANID(0);", "  setNodeNum(0);\n  setCANID(0);\n  setModuleMode(MODE_UNINITIALISED);")],
  "power lost between two of the stored bytes while the module gives up its node number", "the module restarts in normal mode with a mutilated node number",
  r'''
  struct Cut : MockStorage { int left = 1 << 30; void write(unsigned int a, byte d) override { if (left-- > 0) MockStorage::write(a, d); } };
  for (int k = 0; k < 5; ++k)
  {
    Cut s; auto set = [](Configuration &x) { x.EE_NVS_START = 10; x.EE_NUM_NVS = 4; x.EE_EVENTS_START = 20; x.EE_MAX_EVENTS = 20; x.EE_NUM_EVS = 2; };
    Configuration a(&s); set(a); a.begin(); a.setModuleNormalMode(0x0304);
    s.left = k; a.setModuleUninitializedMode(); s.left = 1 << 30;
    Configuration b(&s); set(b); b.begin();
    check(b.currentMode == MODE_UNINITIALISED || b.nodeNum == 0x0304, "after an interruption: uninitialised or still the old number");
  }
''')
S("reset-order", "P40", [("Configuration.cpp", "  storage->write(LOCATION_MODE, MODE_UNINITIALISED);\n  storage->write(LOCATION_CANID, 0);\n  storage->write(LOCATION_NODE_NUMBER_HIGH, 0);\n  storage->write(LOCATION_NODE_NUMBER_LOW, 0);", "  storage->write(LOCATION_CANID, 0);\n  storage->write(LOCATION_NODE_NUMBER_HIGH, 0);\n  storage->write(LOCATION_NODE_NUMBER_LOW, 0);\n  storage->write(LOCATION_MODE, MODE_UNINITIALISED);")],
  "power lost during a factory reset on a storage whose reset leaves the settings area (EEPROM)", "the module restarts in normal mode with a node number nobody assigned",
  r'''
  struct Cut : MockStorage { int left = 1 << 30; void write(unsigned int a, byte d) override { if (left-- > 0) MockStorage::write(a, d); }
    void reset() override { for (int a = 10; a < 80; ++a) write(a, 0xff); } };
  for (int k = 0; k < 90; ++k)
  {
    Cut s; auto set = [](Configuration &x) { x.EE_NVS_START = 10; x.EE_NUM_NVS = 4; x.EE_EVENTS_START = 20; x.EE_MAX_EVENTS = 10; x.EE_NUM_EVS = 2; };
    Configuration a(&s); set(a); a.begin(); a.setModuleNormalMode(0x0304);
    s.left = k; a.resetModule(); s.left = 1 << 30;
    Configuration b(&s); set(b); b.begin();
    check(b.currentMode == MODE_UNINITIALISED || b.nodeNum == 0x0304, "after an interruption: uninitialised or still the old number");
  }
''')
S("arson-consumed", "P04", [("EventConsumerService.cpp", "    case OPC_ASOF:\n    case OPC_ASOF1:\n    case OPC_ASOF2:\n    case OPC_ASOF3:\n", "    case OPC_ASOF:\n    case OPC_ASOF1:\n    case OPC_ASOF2:\n    case OPC_ASOF3:\n\n    case OPC_ARSON:\n    case OPC_ARSOF:\n    case OPC_ARSON1:\n    case OPC_ARSOF1:\n    case OPC_ARSON2:\n    case OPC_ARSOF2:\n    case OPC_ARSON3:\n    case OPC_ARSOF3:\n")],
  "a response to a status request of a short event that this module has learned", "answers to other modules' status requests are acted upon as if they were events",
  r'''
  EventConsumerService e; Controller c = mk(MODE_NORMAL, &e); c.begin();
  static int calls; e.setEventHandler([](byte, const VlcbMessage *) { ++calls; });
  byte key[] = {0, 0, 0, 9}; configuration->writeEvent(2, key); configuration->updateEvHashEntry(2);
  feed(c, {0x98, 5, 5, 0, 9}); check(calls == 1, "the event is consumed");
  feed(c, {0x9D, 5, 5, 0, 9}); check(calls == 1, "a short response is not an event");
  feed(c, {0xFD, 5, 5, 0, 9, 1, 2, 3}); check(calls == 1, "a short response with data is not an event");
''')
S("rqevn-flag", "P04", [("EventTeachingService.cpp", "    // respond with 0x74 NUMEV\n", "    // the event table has been looked at, it is not new any more\n    controller->getModuleConfig()->clearResetFlag();\n    // respond with 0x74 NUMEV\n")],
  "a query for the number of events between a factory reset and the sketch's own set-up after the next restart", "reading the number of events clears the stored reset mark",
  r'''
  EventTeachingService t; Controller c = mk(MODE_NORMAL, &t); c.begin();
  configuration->setResetFlag();
  feed(c, {0x58, 1, 4});
  check(configuration->isResetFlagSet(), "the reset mark is still stored");
''')
S("nnclr-rehash", "P17", [("Configuration.cpp", "  for (byte i = 0; i < EE_MAX_EVENTS; i++)\n  {\n    evhashtbl[i] = 0;\n  }", "  makeEvHashTable();")],
  "clearing all events repeatedly", "each clear allocates a new look-up table and loses the old one",
  r'''
  EventTeachingService t; Controller c = mk(MODE_NORMAL, &t); c.begin();
  feed(c, {0x53, 1, 4});
  feed(c, {0x55, 1, 4});
  size_t before = mallinfo2().uordblks;
  for (int i = 0; i < 500; ++i) { feed(c, {0x55, 1, 4}); }
  check(mallinfo2().uordblks < before + 5000, "memory in use does not grow");
''')
S("lmx-leak", "P17", [("LongMessageService.cpp", "			free(_send_context[context]->buffer);", "			if (_send_context[context]->send_buffer_len > 0)\n			{\n				free(_send_context[context]->buffer);\n			}")],
  "sending many long messages through the extended service", "the copy of each message is never given back because its length has already been cleared",
  r'''
  LongMessageServiceEx l; Controller c = mk(MODE_NORMAL, &l); c.begin();
  l.allocateContexts(1, 32, 1); l.setDelay(1);
  auto one = [&] { char m[200] = {}; check(l.sendLongMessage(m, sizeof m, 7), "accepted"); for (int i = 0; i < 60; ++i) { addMillis(2); process(c); l.process(); tr->clearMessages(); } check(!l.is_sending(), "sent"); };
  one(); one();
  size_t before = mallinfo2().uordblks;
  for (int i = 0; i < 50; ++i) one();
  check(mallinfo2().uordblks < before + 5000, "memory in use does not grow");
''')
S("nv-print", "P37", [("NodeVariableService.cpp", "      controller->sendGRSP(OPC_NVRD, getServiceID(), CMDERR_INV_NV_IDX);", "      DEBUG_SERIAL << F(\"nvs> invalid index \") << msg->data[3] << endl;\n      controller->sendGRSP(OPC_NVRD, getServiceID(), CMDERR_INV_NV_IDX);")], "a read of an invalid node variable on a module that uses its serial port for something else", "debug text is written to the serial port while a message is handled",
  r'''
  NodeVariableService nv; Controller c = mk(MODE_NORMAL, &nv); c.begin();
  std::stringstream out; auto *old = std::cout.rdbuf(out.rdbuf());
  for (int i = 0; i < 256; ++i) { feed(c, {0x71, 1, 4, i}); feed(c, {0x96, 1, 4, i, 3}); feed(c, {0x8E, 1, 4, i, 3}); }
  std::cout.rdbuf(old);
  check(out.str().empty(), "nothing is printed");
''')
S("nv-delay", "P37", [("Configuration.cpp", "storage->write(EE_NVS_START + (idx - 1), val);", "storage->write(EE_NVS_START + (idx - 1), val);\n  delay(5);     // let the memory finish")],
  "other work that is due while node variables are written", "every node variable write stops the whole module for 5 ms",
  r'''
  NodeVariableService nv; Controller c = mk(MODE_NORMAL, &nv); c.begin();
  unsigned long t = millis();
  for (int i = 1; i <= 4; ++i) feed(c, {0x96, 1, 4, i, 3});
  check(millis() == t, "no time is spent waiting");
''')
S("nnclr-defaults", "P44", [("EventTeachingService.cpp", "if (controller->getParam(PAR_FLAGS) & PF_PRODUCER)\n      {\n        module_config->setReset", "if ((controller->getParam(PAR_FLAGS) & PF_PRODUCER) && module_config->numEvents() > 0)\n      {\n        module_config->setReset")],
  "NNCLR sent to a producing module, then a restart", "the flag is never set since the events were counted after they were cleared, so the sketch does not create its default events again",
  r'''
  EventTeachingService t; EventProducerService p; EventConsumerService e; Controller c = mk(MODE_NORMAL, &t, &p, &e); c.begin();
  Configuration *cf = c.getModuleConfig(); cf->clearResetFlag();
  feed(c, {0x53, 1, 4});
  for (int i = 1; i < 4; ++i) feed(c, {0xD2, 1, 2, 0, i, 1, i});
  check(cf->numEvents() == 3 && !cf->isResetFlagSet(), "events taught");
  feed(c, {0x55, 1, 4});
  check(cf->numEvents() == 0, "cleared");
  check(cf->isResetFlagSet(), "the sketch is told to create its defaults");
''')
S("flag-lost", "P44", [("Configuration.cpp", "    resetModule();\n    clearResetFlag();\n    loadNVs();\n  }\n", "    resetModule();\n    loadNVs();\n  }\n  clearResetFlag();\n")],
  "a factory reset on a processor that really restarts, or events cleared and then a restart", "the flag is cleared by the start-up, before the sketch can look at it",
  r'''
  MinimumNodeService m; Controller c = mk(MODE_NORMAL, &m); c.begin();
  Configuration *cf = c.getModuleConfig();
  cf->resetModule();
  check(cf->isResetFlagSet(), "set by the reset");
  cf->begin();
  check(cf->isResetFlagSet(), "still set when the sketch looks after the restart");
''')
S("contexts-short", "P17", [("LongMessageService.cpp", "		if ((_receive_context[i]->buffer = (byte *)malloc(receive_buffer_len * sizeof(byte))) == NULL)\n    {\n			return false;\n		}\n", "		if ((_receive_context[i]->buffer = (byte *)malloc(receive_buffer_len * sizeof(byte))) == NULL)\n    {\n			// make do with the contexts there is memory for\n			_num_receive_contexts = i;\n			break;\n		}\n")],
  "too little memory for the receive buffers", "setting up the contexts reports success although there are fewer, or no, receive contexts",
  r'''
  struct rlimit r = { 512UL << 20, 512UL << 20 }; setrlimit(RLIMIT_AS, &r);
  LongMessageServiceEx l;
  check(l.allocateContexts(2, 100, 2), "enough memory");
  LongMessageServiceEx k;
  check(!k.allocateContexts(1, 0x7FFFFFFF, 1), "no memory for the buffer is reported");
''')
S("switch-high", "P45", [("Switch.cpp", "  _lastState = !_pressedState;", "  _lastState = HIGH;    // released")],
  "a switch that is pressed when its pin is high", "a switch pressed when high reports a change at its first run although nobody touched it, and misses a press held since the start",
  r'''
  setDigitalRead(4, LOW); Switch s(4, HIGH); s.run();
  check(!s.stateChanged() && !s.isPressed(), "a released switch has not changed");
  setDigitalRead(4, LOW); Switch t(4, HIGH); setDigitalRead(4, HIGH); t.run();
  check(t.stateChanged() && t.isPressed(), "a press is a change");
''')
S("led-pulse-on", "P45", [("LED.cpp", "  _write(_pin, _pulse || _state);", "  _write(_pin, _pulse ? !_state : _state);")],
  "a pulse of an LED that is on", "an LED that is on goes dark during a pulse",
  r'''
  LED l(5); l.on(); l.run();
  check(lit == 1, "on");
  l.pulse();
  check(lit == 1, "still on during the pulse");
''')
S("heartbeat-start", "P22", [("MinimumNodeService.cpp", "  noHeartbeat = !controller->getModuleConfig()->heartbeat;", "  noHeartbeat = instantMode == MODE_NORMAL && !controller->getModuleConfig()->heartbeat;")],
  "a module started without a node number, with heartbeats switched off, that is then set up", "heartbeats are sent although the stored setting has them off",
  r'''
  MinimumNodeService m; Controller c = mk(MODE_UNINITIALISED, &m);
  c.getModuleConfig()->setHeartbeat(false);
  c.begin(); process(c);
  c.putAction(ACT_CHANGE_MODE); process(c); process(c);
  feed(c, {0x42, 1, 4});
  check(c.getModuleConfig()->currentMode == MODE_NORMAL, "set up");
  addMillis(6000);
  for (auto &x : feed(c, {0x0D})) check(x[0] != 0xAB, "no heartbeat");
''')
SEEDS["switch-high"]["demo"] = '#include "demo.h"\n#include "Switch.cpp"\nint main()\n{' + SEEDS["switch-high"]["demo"] + "  return 0;\n}\n"
SEEDS["led-pulse-on"]["demo"] = '#include "demo.h"\n#include "LED.cpp"\nstatic int lit;\nvoid digitalWrite(int, int v) { lit = v; }\nint main()\n{' + SEEDS["led-pulse-on"]["demo"] + "  return 0;\n}\n"
SEEDS["contexts-short"]["demo"] = '#include "demo.h"\n#include <sys/resource.h>\nint main()\n{' + SEEDS["contexts-short"]["demo"] + "  return 0;\n}\n"
SEEDS["led-last"]["demo"] = '#include "demo.h"\n#include "LED.cpp"\nvoid digitalWrite(int, int) {}\nint main()\n{' + SEEDS["led-last"]["demo"] + "  return 0;\n}\n"
SEEDS["switch-held"]["demo"] = '#include "demo.h"\n#include "Switch.cpp"\nint main()\n{' + SEEDS["switch-held"]["demo"] + "  return 0;\n}\n"
SEEDS["reset-nvs"]["demo"] = '#include "demo.h"\nnamespace VLCB { extern void (*rebootFunc)(); }\nint main()\n{' + SEEDS["reset-nvs"]["demo"] + "  return 0;\n}\n"
SEEDS["eeprom-page"]["demo"] = r'''#include "demo.h"
#include "EepromExternalStorage.cpp"
// a 4 KB memory with 32 byte pages behind the bus
static byte mem[4096]; static std::vector<byte> out; static unsigned at; static int left;
void TwoWire::begin() {}
void TwoWire::beginTransmission(byte) { out.clear(); }
void TwoWire::write(int i) { if (out.size() < 32) out.push_back(i); }
byte TwoWire::endTransmission()
{
  if (out.size() < 2) return 0;
  at = (out[0] << 8 | out[1]) % 4096;
  for (size_t i = 2; i < out.size(); ++i) mem[(at & ~31u) | ((at + i - 2) & 31)] = out[i];
  return 0;
}
void TwoWire::requestFrom(int, int n) { left = n; }
bool TwoWire::available() { return left > 0; }
byte TwoWire::read() { --left; return mem[at++ % 4096]; }
TwoWire Wire;
int main()
{
''' + SEEDS["eeprom-page"]["demo"] + "  return 0;\n}\n"
SEEDS["flash-page"]["demo"] = r'''#define DXCORE
#define PROGMEM_SIZE 0x20000
#define FLASHWRITE_OK 0
#include <Arduino.h>
struct FlashClass
{
  byte m[0x20000];
  byte checkWritable() { return 0; }
  byte readByte(uint32_t a) { return m[a]; }
  byte erasePage(uint32_t a, byte) { memset(m + a / 512 * 512, 0xff, 512); return 0; }
  byte writeBytes(uint32_t a, const uint8_t *d, uint16_t n) { for (int i = 0; i < n; ++i) m[a + i] &= d[i]; return 0; }
};
static FlashClass Flash;
#include "demo.h"
#include "FlashStorage.cpp"
int main()
{
  memset(Flash.m, 0xff, sizeof Flash.m);
''' + SEEDS["flash-page"]["demo"] + "  return 0;\n}\n"
SEEDS["can-rtr"]["demo"] = r'''#include "demo.h"
#include "CAN2515.cpp"
static CANMessage next;
ACAN2515Settings::ACAN2515Settings(unsigned long, unsigned int) {}
ACAN2515::ACAN2515(uint8_t, SPIClass &, uint8_t) {}
unsigned short ACAN2515::begin(const ACAN2515Settings &, void (*)()) { return 0; }
void ACAN2515::isr() {}
void ACAN2515::poll() {}
bool ACAN2515::available() { return true; }
void ACAN2515::receive(CANMessage &m) { m = next; }
bool ACAN2515::tryToSend(const CANMessage &) { return true; }
void ACAN2515::end() {}
void SPIClass::begin() {}
SPIClass SPI;
int main()
{
''' + SEEDS["can-rtr"]["demo"] + "  return 0;\n}\n"
