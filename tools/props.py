"""The properties: statement, anchors and the check that decides each."""
TECH = "abstract interpretation / dataflow over the compiled LLVM IR of every path (joins and widened loop summaries, no execution, no solver), effects compared with a protocol specification"
NOTE = ("Every path of the analysed entry points is covered for all inputs of the stated contexts; obligations fail on any effect the analysis cannot prove equal to the specification. "
        "Trusted: clang's IR, the IR dumper and abstract interpreter in engine/, the effect boundary (storage, action queue, transport, clock, user callbacks). "
        "Assumes storage areas start at 10..32767, at most 251 EVs per event, CBUS frames of at most 8 bytes.")
PROPS = []


def P(id, title, stmt, over, qtext, why, files, mech, run=None, rule="", min=5, **k):
    PROPS.append(dict(id=id, title=title, stmt=stmt, over=over.split(), qtext=qtext, why=why,
                      files=["src/" + f for f in files.split()], mech=mech, run=run, rule=rule, min=min, **k))


P("P05", "Node variable reads and writes act exactly on the addressed variable",
  "For every node variable request addressed to this module, a valid index reads or writes exactly that stored variable and answers with its value or an acknowledgement; index 0 on a read reports the count followed by every variable once, and index 0 on a write or an index above the configured count is refused with an error response pair and changes nothing. Requests that are too short get a single invalid-command response, and no other message changes or reports node variables.",
  "inputs configurations", "every request opcode, length, node number, index 0..255, value, and every configured NV count and storage layout",
  "Tests sample a handful of indexes with one configuration of 4 NVs; off-by-one and aliasing errors at other counts or indexes are not reached.",
  "NodeVariableService.cpp Configuration.cpp", [("index range checks before storage access", "NodeVariableService.cpp"), ("NV address computation", "Configuration.cpp readNV/writeNV")],
  ("nv", "run"), "each NV request context is interpreted over all values; messages, storage writes and state of every final abstract state are compared with the NV protocol", 20)
P("P06", "The module mode changes only along the defined transitions",
  "The operating mode (uninitialised, setup, normal) changes only on a user mode request, a renegotiation, a mode request addressed to this node, a node number assignment received in setup, or another node entering setup while this one is in setup; every other message or event leaves mode, node number and stored identity unchanged. Each transition performs its protocol duties: request a node number when entering setup, release a non-zero number when leaving normal mode for uninitialised, persist mode and node number, acknowledge an assigned number, update the normal-mode flag and indicate the new mode. Refused mode requests are answered with an error and change nothing. Start-up puts the stored mode in force and indicates it.",
  "inputs histories configurations", "every mode × every message opcode, length, node number and payload, and every user action",
  "Tests drive a few transitions with one node number; the complete mode × event table, including the events that must not change anything, is not sampled.",
  "MinimumNodeService.cpp Controller.cpp Configuration.cpp", [("mode state machine", "MinimumNodeService.cpp"), ("mode persistence", "Configuration.cpp setModuleNormalMode/setModuleUninitializedMode")],
  ("mns", "P06"), "every (mode, action) and (mode, opcode, length, node number) context is interpreted over all values; mode, storage, flags, queued actions and messages of every final state are compared with the mode transition table", 150,
  state=[("instantMode", "current mode, volatile", "MinimumNodeService"), ("currentMode", "persisted mode", "Configuration")])
P("P09", "Teaching, unlearning and clearing touch exactly the addressed event",
  "In learn mode a teach request stores the event and its event variable in the existing record of that event or, if new, in a free record, and updates the event look-up for it; unlearning erases exactly that record; clearing erases all records; each success is acknowledged. Invalid variable indexes, unknown events, a full event table, and being outside learn mode are each refused with their error response pair and store nothing.",
  "inputs histories configurations", "every teach/unlearn/clear request, length, payload, learn state, table state (hit/miss/full) and configured table geometry",
  "Tests use one table geometry and a few events; error/success behaviour for all indexes, hit/miss combinations and short messages is not sampled.",
  "EventTeachingService.cpp Configuration.cpp", [("learn-mode gate and index checks", "EventTeachingService.cpp"), ("event record writes and look-up refresh", "Configuration.cpp")],
  ("teach", "P09"), "each teaching request context is interpreted over all payloads with the event look-up as a hit/miss contract (verified by P12); final storage, look-up refreshes and responses are compared with the protocol", 40)
P("P10", "Event read-back requests report the stored event table faithfully",
  "Requests for event counts, free space, stored events and event variables addressed to this node are answered with values equal to what is stored: every used record exactly once when listing all, every event variable in order when reading all of one event, and a single value otherwise. Unused or out-of-range records, out-of-range variables and unknown events are refused with an error response, and reading never changes stored data.",
  "inputs histories configurations", "every read-back request, index, node number, length, table content and geometry",
  "Tests compare against one or two stored events; all table contents, index boundaries and geometries are out of reach.",
  "EventTeachingService.cpp Configuration.cpp", [("read-back handlers", "EventTeachingService.cpp"), ("EV address computation", "Configuration.cpp getEventEVval/getEvTableEntry")],
  ("teach", "P10"), "each read-back context is interpreted with a symbolic event table; the reported bytes must be the stored bytes of the requested record and the iteration must cover every record exactly once", 30)
P("P11", "Events can be taught only after this node was put into learn mode",
  "Learn mode is entered and left only by the learn/unlearn requests or the learn mode requests addressed to this node number, and a learn request naming another node ends learn mode here. Every change of learn mode is reflected in the module's learn flag parameter, and no other message changes it.",
  "inputs histories", "every message opcode, node number, length and payload in both learn states",
  "Tests exercise one node number pair; absence of any other path into learn mode needs all messages.",
  "EventTeachingService.cpp Controller.cpp", [("learn flag and PF_LRN parameter", "EventTeachingService.cpp enableLearn/inhibitLearn")],
  ("teach", "P11"), "all opcodes × learn state × node number cases are interpreted; the final learn state and the learn flag parameter are compared with the rule", 30)
P("P18", "Node queries are answered with the module's own identity, in the right mode",
  "A node number query is answered by every module that has a node number, with its manufacturer, module type and flags; a module without a number stays silent. A parameters request is answered only in setup mode and a name request only in setup or learn mode, with the module's actual parameters or name.",
  "inputs configurations histories", "every mode, learn state, node number and module parameter content",
  "Tests check one parameter set and selected modes.",
  "MinimumNodeService.cpp Controller.cpp", [("QNN/RQNP/RQMN handlers", "MinimumNodeService.cpp")],
  ("mns", "P18"), "the query contexts are interpreted with symbolic parameters and name; each reported byte must be the corresponding parameter or name byte", 25)
P("P19", "Indexed parameter requests report the requested module parameter",
  "A parameter request addressed to this node with a valid index is answered with that parameter's value, index 0 with the count followed by every parameter exactly once, and an index above the count with an error response pair. Short requests are refused and other nodes' requests ignored.",
  "inputs configurations", "every index 0..255, parameter content, mode and node number",
  "Tests read a few indexes of one parameter block.",
  "MinimumNodeService.cpp Controller.cpp Parameters.cpp", [("RQNPN handler", "MinimumNodeService.cpp")],
  ("mns", "P19"), "the request contexts are interpreted with a symbolic parameter block; the reported byte must be the byte at the requested index", 8)
P("P22", "Heartbeats are sent exactly when enabled, due, and in normal operation",
  "A heartbeat is sent only when it is enabled, the module has a node number in normal mode and is not in setup, and the configured interval has passed since the last one; when all of that holds it is not withheld. Each heartbeat carries the next sequence number, starting at 0, and restarts the interval, which is 5 seconds. After a restart heartbeats are enabled exactly when the stored setting says so.",
  "histories inputs", "every mode, enabled state, clock value (including wrap-around), last heartbeat time and sequence number",
  "Tests advance a mock clock a few times from small values.",
  "MinimumNodeService.cpp", [("heartbeat timer", "MinimumNodeService.cpp heartbeat")],
  ("mns", "P22"), "the idle step is interpreted for every mode and enabled state with a symbolic clock; the send/no-send branch must be exactly now - last > interval", 40)
P("P35", "Restart and factory reset happen only on request and are complete",
  "A restart request addressed to this node restarts the module without changing stored data; a reset request addressed to this node releases the node number, erases all stored data, resets mode, CAN id, node number, flags and every node variable to their defaults and then restarts. No other message restarts the module or erases its storage.",
  "inputs histories configurations", "every message opcode, node number, mode and configured NV count",
  "Tests use one mock storage size and do not check every other opcode.",
  "MinimumNodeService.cpp Configuration.cpp", [("NNRST/NNRSM handlers", "MinimumNodeService.cpp"), ("resetModule", "Configuration.cpp")],
  ("mns", "P35"), "the restart/reset contexts are interpreted; the storage effects must be one reset followed by exactly the default values for every setting and NV, before the restart", 100)
P("P07", "The module's identity and settings are persistent",
  "Every change of the operating mode, node number, CAN id, heartbeat setting, event acknowledge setting and reset mark takes effect at once and is stored so that a restart restores exactly the same values, and changing one of them changes none of the others.",
  "histories configurations", "every previous content of the storage and every new value of each setting",
  "Tests check one or two values of some settings against a mock storage and do not restart.",
  "Configuration.cpp Configuration.h", [("setters and loadNVs", "Configuration.cpp setNodeNum/setCANID/setHeartbeat/setEventAck/loadNVs")],
  ("table", "P07"), "each setter is interpreted over all stored contents and arguments; memory and storage must agree with the specified encoding, and interpreting the start-up on the resulting storage must restore the value", 40)
P("P08", "Start-up keeps the data of a used module and initialises a blank one",
  "Start-up begins the storage once, before using it. Starting a module whose storage is in use loads mode, CAN id, node number and flags from it and changes nothing stored, except that a module left in setup mode comes up uninitialised. Only blank storage is reset: it is erased, every setting and node variable gets its default, and the module starts uninitialised without a node number.",
  "histories configurations", "every storage content and configured size",
  "Tests start from the mock storage's contents only.",
  "Configuration.cpp", [("blank storage detection and load", "Configuration.cpp begin/loadNVs/resetModule")],
  ("table", "P08"), "start-up is interpreted for each class of storage content; the storage effects and the loaded settings of every path are compared with the rule", 10)
P("P12", "The event look-up always finds stored events and free space",
  "Looking up an event finds a slot only if that slot stores exactly that event and reports absence only if no stored event matches; the same holds for look-up by event variable value and for free slots. After any record change, refreshing its entry makes it findable, and after a restart all stored events are found. The reported number of events is the number of used slots.",
  "histories configurations", "every table content (including hash collisions), key, slot and table size",
  "Tests use a few events whose hashes do not collide and fixed table sizes.",
  "Configuration.cpp", [("event hash table", "Configuration.cpp findExistingEvent/updateEvHashEntry/makeEvHashTable")],
  ("table", "P12"), "each search is interpreted over all table contents; a hit must be proved equal to the key, a passed-over slot must be proved different, the search loop must visit every slot, and refresh and search must agree on the entry value", 40)
P("P13", "Stored records and variables never overlap",
  "Each event record, event variable and node variable has its own place in storage: writing one changes exactly its bytes, reading returns exactly what was last written there, the event area starts behind the node variables unless the user places it, a record has room for its key and all its event variables, and the settings area is never touched by event or node variable writes.",
  "configurations inputs", "every slot, variable index, value, and configured counts and placement",
  "Tests use one geometry.",
  "Configuration.cpp Configuration.h", [("address computations", "Configuration.cpp writeEvent/writeEventEV/writeNV/begin")],
  ("table", "P13"), "each accessor is interpreted with symbolic index and geometry; the accessed addresses must equal the layout formula and no other storage may change", 25)
P("P14", "A produced event is sent as exactly the stored event",
  "Producing an event by its value sends exactly one event message: the stored event with that value, ON or OFF as asked, long with its node number or short (own node number) when it is stored with node number 0, carrying exactly the given data bytes. If no event is stored for the value, one is created in a free slot with the module's node number, an event number not yet used, the value as first event variable and the others cleared; with no free slot nothing is sent or stored. The default events are created exactly once, when a module that started uninitialised becomes normal.",
  "inputs histories configurations", "every event value, state, data, table content (hit, miss, full), own node number and table geometry",
  "Tests use one or two events in a small table; the combinations of table state, numbers in use and data length are not sampled.",
  "EventProducerService.cpp Configuration.cpp", [("sendEvent overloads and event creation", "EventProducerService.cpp"), ("opcode selection by node number", "EventProducerService.cpp")],
  ("events", "P14"), "each sendEvent overload is interpreted over all table contents; the message must carry the bytes of the looked-up record and creation must store exactly the default record, per path", 200)
P("P15", "A received event reaches the consumer exactly when it is stored",
  "An accessory event received with 0 to 3 data bytes calls the user's event handler exactly once, with the index of the stored event and the unchanged message, if that event (short events with node number 0) is stored; otherwise not. Own events are consumed the same way if and only if the module is set to consume own events. No other message or action reaches the handler and without a handler nothing happens.",
  "inputs histories configurations", "every opcode, node number, event number, data, table content and consume-own-events setting",
  "Tests send a few events against a table with one event; absence of calls for all other messages is not sampled.",
  "EventConsumerService.cpp Configuration.cpp", [("event dispatch", "EventConsumerService.cpp handleConsumedMessage/processAccessoryEvent")],
  ("events", "P15"), "every opcode and action is interpreted with the event look-up as a contract (verified by P12); the callbacks of each path are compared with the rule", 150)
P("P16", "Event status requests reach the producer and are answered as the stored event",
  "A request for the state of an event calls the user's request handler exactly once with the event's index and the unchanged message when that event is stored and produced by this module (short requests with this node's number or 0), otherwise not. A response sent for an event index carries the stored event, long or short, the given state and data.",
  "inputs histories configurations", "every request, node number, event number, table content, index and data",
  "Tests use one stored event and few numbers.",
  "EventProducerService.cpp Configuration.cpp", [("request dispatch and sendEventResponse", "EventProducerService.cpp")],
  ("events", "P16"), "every opcode and action and each response overload is interpreted over all table contents; callbacks and messages of each path are compared with the rule", 60)
P("P01", "Messages addressed to other modules have no effect on this module",
  "A request that carries the node number of another module changes nothing in this module: no reply, no storage or setting change, no restart, no user callback and no queued action, in any mode and any service. The one defined exception is that another module entering learn mode ends learn mode here.",
  "inputs histories configurations", "every service, every opcode with a node number field, every length, node number other than the own, payload and module state",
  "Tests send a few messages with one other node number to a few services; isolation must hold for every opcode and every service state.",
  "MinimumNodeService.cpp NodeVariableService.cpp EventTeachingService.cpp EventProducerService.cpp CanService.cpp Service.h", [("isThisNodeNumber checks in every handler", "MinimumNodeService.cpp NodeVariableService.cpp EventTeachingService.cpp CanService.cpp")],
  ("wire", "P01"), "every service is interpreted on every opcode with a symbolic node number assumed different from the own; any effect on any path fails the obligation", 1000)
P("P02", "Truncated messages are never acted upon",
  "A received message with fewer bytes than its opcode announces is never treated as the complete request: it changes no stored data, no setting and no service state, restarts nothing, invokes no user callback and is answered with nothing but an invalid-command error.",
  "inputs histories configurations", "every service, every opcode, every length shorter than the opcode's, every payload, stale byte content and module state",
  "Tests cover a short message for some opcodes; the stale bytes behind a truncated message make the outcome depend on what was received before.",
  "MinimumNodeService.cpp NodeVariableService.cpp EventTeachingService.cpp EventConsumerService.cpp EventProducerService.cpp CanService.cpp", [("length checks at the head of each handler", "MinimumNodeService.cpp NodeVariableService.cpp EventTeachingService.cpp EventConsumerService.cpp EventProducerService.cpp CanService.cpp")],
  ("wire", "P02"), "every service is interpreted on every opcode with every too short length and unknown bytes; any effect other than the invalid-command answer on any path fails the obligation", 5000)
P("P03", "Every message sent is well-formed and carries the module's own identity",
  "Every message the module queues for sending has a defined opcode, exactly the number of bytes that opcode announces, no uninitialised byte, and, for messages that name their sender, this module's current node number. This holds for every reply, event, diagnostic report, heartbeat and long message fragment.",
  "inputs histories configurations", "every service, received message, action, API call, table content and module state",
  "Tests compare a few messages; stack garbage in an unset byte or a wrong length in a rarely taken branch is not seen.",
  "Controller.cpp MinimumNodeService.cpp NodeVariableService.cpp EventTeachingService.cpp EventProducerService.cpp LongMessageService.cpp CanService.cpp", [("message construction", "Controller.cpp sendMessageWithNNandData"), ("hand-built messages", "MinimumNodeService.cpp EventProducerService.cpp LongMessageService.cpp EventTeachingService.cpp")],
  ("wire", "P03"), "all services are interpreted on all opcodes, actions and sending API calls; each queued message must have a known opcode, the length it announces, only initialised bytes and the own node number", 400)
P("P20", "Service discovery lists exactly the installed services",
  "A service discovery request to this node with index 0 is answered with the number of protocol services followed by one entry for each of them, in order, with its place in the list, its service id and version; a valid index is answered with the details of exactly that service; an index beyond the list or of a non-protocol service with the invalid service response. Discovery changes nothing, and each service class reports its defined id.",
  "inputs configurations", "every list of 1 to 30 services of any kinds, every index, length and module state",
  "Tests use two or three fixed service lists.",
  "MinimumNodeService.cpp Service.h Controller.h", [("RQSD handler", "MinimumNodeService.cpp handleRequestServiceDefinitions"), ("getServiceID/getServiceVersionID", "each service header")],
  ("diag", "P20"), "the request is interpreted with a symbolic service list of symbolic services; the loops must visit every element once and report exactly the protocol services with id, version and place", 30)
P("P21", "Diagnostics report the services' counters completely and correctly",
  "A diagnostics request to this node asks exactly the requested service, or every protocol service for index 0, and is refused for invalid indexes. Each service announces the number of its values and then sends each value once with its code; single codes report the same value, unknown codes are refused. Event, teaching and node number counters start at zero and advance by exactly one per event sent, consumed or taught or node number accepted and by nothing else, CAN values come from the corresponding transport counter, and the uptime is in seconds.",
  "inputs histories configurations", "every service class, code, index, list of services, message, table content and counter value",
  "Tests check single codes on some services after one or two events; the counters' behaviour on every other message is not observed.",
  "MinimumNodeServiceWithDiagnostics.cpp CanServiceWithDiagnostics.cpp EventProducerServiceWithDiagnostics.cpp EventConsumerServiceWithDiagnostics.cpp EventTeachingServiceWithDiagnostics.cpp Service.cpp", [("RDGN handler", "MinimumNodeServiceWithDiagnostics.cpp handleRequestDiagnostics"), ("report functions", "*WithDiagnostics.cpp"), ("counter increments", "EventProducerService.cpp EventConsumerService.cpp EventTeachingService.cpp MinimumNodeService.cpp")],
  ("diag", "P21"), "report functions are interpreted for every code; the counter behind a value is identified by dataflow and its change in every message and sending context must equal the number of counted events", 1000)
P("P23", "A module finds and keeps a free CAN id without disturbing others",
  "A CAN id enumeration starts with one empty RTR frame, records every id that answers for 100 ms and then takes and stores the lowest id from 1 to 127 that nobody answered with (some valid id if all are taken), so modules end up with different ids. It is acknowledged exactly when it was requested by message, and a further start while it runs is ignored. A CANID request to this node sets and stores ids 1 to 99 and refuses others with an error response; no other message affects the CAN id or starts an enumeration.",
  "inputs histories schedules", "every set of responding CAN ids, clock value including wrap-around, start reason, message opcode, length and requested id",
  "Tests simulate a few responses from small ids; the selection over all sets of used ids and the untouched records of other ids are not reachable by sampling.",
  "CanService.cpp Configuration.cpp", [("enumeration cycle", "CanService.cpp startCANenumeration/checkIncomingCanFrame/checkCANenumTimout/findFreeCanId"), ("CANID and ENUM handlers", "CanService.cpp")],
  ("can", "P23"), "the enumeration is interpreted from its start: the effect of every response on the record is extracted, and the selection is interpreted once per lowest free id over all reachable records; request contexts are compared with the protocol", 500)
P("P24", "Messages and CAN frames translate one to one",
  "Every message sent becomes exactly one standard CAN data frame with the same length and bytes and this module's CAN id at normal priority; every received standard data frame becomes exactly one message with the same length and bytes. Extended frames are ignored, RTR frames are answered with one empty frame carrying the own CAN id, and a data frame with the own CAN id starts an enumeration but is still delivered; no other frame is sent. Each message sent or received is indicated as activity.",
  "inputs histories", "every frame header, RTR/extended flag, length 0..8, payload, own CAN id and enumeration state",
  "Tests check a few frames; the header for all ids and every length/flag combination are not sampled.",
  "CanService.cpp CanTransport.h", [("frame reception", "CanService.cpp checkIncomingCanFrame"), ("frame construction", "CanService.cpp sendMessage/sendEmptyFrame")],
  ("can", "P24"), "process() is interpreted with symbolic frames and messages of each length; frames sent and actions queued in every final state are compared with the translation rule", 150)
P("P25", "GridConnect text and CAN frames translate one to one",
  "Every CAN frame that fits (11 or 29 bit id, at most 8 bytes) is written as exactly its GridConnect text and every well-formed text is read back as exactly that frame, so a frame survives a round trip; frames and texts that do not conform are refused and never read or write outside the buffers. The serial transport hands over each text between ':' and ';' exactly once, restarts at every ':', ignores everything else, drops overlong input, starts successfully with its counters at zero, which advance by one per message, error and frame sent.",
  "inputs histories", "every id, flag, length, data byte, every malformed character and truncation, and every input stream of characters",
  "Tests convert a few dozen fixed strings; all ids and bytes, malformed texts at every position and long input streams are not covered.",
  "GridConnect.cpp SerialGC.cpp SerialGC.h", [("encodeGridConnect/decodeGridConnect", "GridConnect.cpp"), ("message assembly", "SerialGC.cpp available"), ("frame output", "SerialGC.cpp sendCanFrame")],
  ("gridconnect", "P25"), "encoder and decoder are interpreted with symbolic digits for every format and length and compared with the GridConnect layout; the serial receiver is interpreted character by character over all character classes until its state repeats", 400)
P("P26", "A long message is sent completely, in order and at the set pace",
  "An accepted long message goes out as one header with stream id, sequence number 0, length, check sum (CRC-16 if enabled in the extended service, else 0) and zero flags, followed by fragments that carry the stream id, consecutive sequence numbers (wrapping after 255) and the message's bytes in order, five at a time, the last one padded with zeros. Fragments are at least the set delay apart. Sending ends after the last byte and is then reported as finished; until then a further message (basic service) or one on the same stream or without a free context (extended service) is refused without any effect. Messages sent at the same time by the extended service do not influence each other, and it keeps its own copy of the message.",
  "inputs histories time", "every message length and content, every position and sequence number, every time between calls, interleaved streams",
  "Tests send a handful of short messages; sequence wrap, every length around a fragment boundary, timing at the limit and interleavings are not sampled.",
  "LongMessageService.cpp LongMessageService.h", [("sendLongMessage", "LongMessageService.cpp"), ("process", "LongMessageService.cpp LongMessageService::process / LongMessageServiceEx::process")],
  ("longmsg", "P26"), "sendLongMessage, process and is_sending are interpreted as histories with symbolic contents, times and ids for lengths around every boundary, and as one inductive step from an arbitrary position, sequence number and time; the messages queued are compared with the fragment layout", 800)
P("P27", "A long message is received exactly, or its failure is reported once",
  "The header of a subscribed stream with zero flags starts a message; fragments of that stream with the expected sequence number (wrapping after 255) append their bytes; when the announced length is reached the user is told COMPLETE with exactly the bytes sent and their count. A full buffer is handed over as INCOMPLETE (basic service, which goes on) or TRUNCATED (extended service, which ends). A wrong sequence number and a pause of at least the time-out end the message with exactly one report and what was received. With check sums on, the extended service reports CRC_ERROR for a message whose CRC differs. Other streams, other messages and headers with flags have no effect, bytes never go outside the receive buffer, and after any end a new message is received from its first byte. Streams of the extended service are independent; a message for which no context is free is ignored and touches no memory.",
  "inputs histories time", "every length, buffer size, content, position, sequence number, time between fragments, interleaved streams",
  "Tests receive a few messages with fixed sizes; the combinations of length, buffer size and position, wrapped sequence numbers and failures at each point are not sampled.",
  "LongMessageService.cpp LongMessageService.h", [("processReceivedMessageFragment", "LongMessageService.cpp"), ("time-out", "LongMessageService.cpp process")],
  ("longmsg", "P27"), "the service is interpreted over histories of incoming fragments (symbolic bytes, ids and times) for lengths and buffer sizes around every boundary, each with every failure at each fragment, and as one inductive step from an arbitrary position; reports to the user are compared with a model of the protocol", 800)
P("P29", "Every loop ends, so handling anything always completes",
  "Whatever message, action or user call is being handled and however the module is configured (up to 255 events, 255 node variables, 251 event variables per event, 255 produced events, any number of services, parameters and stream contexts the types allow), every loop of the library comes to its end: its counter moves towards its bound on every path and the bound can be reached within the counter's type.",
  "inputs configurations", "every configuration value the types allow, every message, table content and length",
  "Tests use counts around 4 to 20; a counter that cannot reach its bound only hangs at 128, 255 or 256 and above, or on one rarely taken path.",
  "Configuration.cpp NodeVariableService.cpp EventTeachingService.cpp EventProducerService.cpp SerialUserInterface.cpp LongMessageService.cpp MinimumNodeService.cpp Controller.cpp GridConnect.cpp CanService.cpp ArrayHolder.h", [("every for/while loop", "src/*.cpp")],
  ("termination", "run"), "for every loop of the compiled library all acyclic paths round it are enumerated; a counter must step by a constant in one direction on each of them and be compared with an unchanging bound that lies within the range the counter can reach", 40,
  tech="termination analysis on the SSA form of the compiled code (natural loops, path-wise induction variables, interval analysis of bounds, field-sensitive mod/ref of callees)",
  note="Every loop of the compiled library sources is decided; a loop outside the fragment (no constant-step counter) would be listed as undecided in the evidence and not counted as a violation. Assumes at most 251 event variables, a parameter count below 255 and fewer than 255 services, and that user callbacks and platform functions return. Loops of platform-specific code that the host does not compile are not covered.")
P("P28", "The action queue keeps order and drops only the oldest entries",
  "Entries come out of the buffer exactly once, unchanged and in the order they were put in. Up to its capacity nothing is lost; a put into a full buffer drops exactly the oldest entry and is counted as an overflow. Availability and peeking agree with the content and change nothing, clearing empties it, and the high watermark is the largest number of entries ever held. This holds for every capacity from 1 to 255 and for any length of use.",
  "histories configurations", "every capacity, every position of the buffer's indexes, every fill level, every content",
  "Tests use a buffer of 4 integers in a few fill levels starting at position 0; wrap-around at other positions and capacities above 127 are not reached.",
  "CircularBuffer.h Controller.cpp", [("put/pop/peek/available/clear", "CircularBuffer.h"), ("statistics", "CircularBuffer.h bufUse/put")],
  ("buffer", "run"), "buffer operations are interpreted on symbolic entries from every (read position, fill level) state of small capacities and the boundary states of large ones; content, order and statistics of each resulting state are compared with a queue", 200)
P("P33", "Every queued action reaches every service exactly once, oldest first",
  "Each processing step of the controller takes the oldest queued action and hands an unchanged copy of it to every installed service exactly once, in the order they were given; with nothing queued every service is called once without an action. Each sending or indicating call queues exactly one action with exactly the given content (messages with node number carry the own one). Start-up starts the configuration and then every service once; every service gets to know its controller when it is constructed.",
  "histories configurations inputs", "every number and kind of services, every queue content and order of calls, every message and opcode",
  "Tests use two or three services and a few queued messages; dispatch for arbitrary lists and queue states and byte-exact queueing are sampled only.",
  "Controller.cpp Controller.h ArrayHolder.h CircularBuffer.h", [("process/begin and constructors", "Controller.cpp"), ("sendMessage..., putAction", "Controller.cpp Controller.h")],
  ("controller", "run"), "process() is interpreted over queue histories with symbolic actions and a symbolic list of services; the loop must visit every service once and hand over the oldest action; each queueing call is interpreted with symbolic bytes and its single queued action compared", 80)
P("P36", "The module parameters tell the module's actual properties",
  "The parameter block holds each value at its defined place: the number of parameters, the configured numbers of events, event variables and node variables, bus type, and the version, manufacturer, module id, flags and processor data given by the user, each changing nothing else; until the user gives them the processor data name the board the library is built for. The flags parameter tells exactly which of the flagged services (VLCB, producer, consumer, consume own events) are installed and whether the module is in normal mode; indicating a mode updates exactly the normal mode flag, setting or clearing a flag changes only that flag.",
  "inputs configurations", "every list of services, mode, previous parameter content, value and flag",
  "Tests check the flags of two service lists; a wrong index or a flag clobbered by another shows only for other combinations.",
  "Controller.cpp Controller.h Parameters.h Parameters.cpp", [("setParams/setParamFlag/indicateMode", "Controller.cpp"), ("parameter block", "Parameters.h Parameters.cpp")],
  ("controller", "flags"), "setParams is interpreted for lists of symbolic services and modes, each path's flags compared with the rule; every setter is interpreted with symbolic values and all 21 parameters compared", 60)
P("P45", "Switch and LED objects follow and drive exactly their own pin",
  "A Switch reads only the pin it was given and writes none. After construction and after each run it tells the level read, whether that is the pressed one for the chosen polarity, whether it changed since the run before (at first: since released), when it last changed, how long the state before lasted and how long the present one has lasted; asking changes nothing, resetting the duration restarts only that one, and a reset returns to the start. A switch pressed when low gets the pull-up. An LED sets only its own pin, which it makes an output: after each run the pin is high exactly while the LED is on or a pulse of 5 ms, which starts at once, lasts; on and off end the blinking, toggle inverts, and a blinking LED inverts once 500 ms have passed since it last did. Times count correctly across the clock's wrap.",
  "histories time", "every pin, both polarities, every time of each call; all sequences of four runs and levels with resets, all sequences of four LED commands followed by a run",
  "The tests use a few sequences of levels at chosen small times through the whole user interface; the objects a sketch uses for its own switches and LEDs are not exercised alone.",
  "Switch.cpp LED.cpp", [("run and answers", "Switch.cpp"), ("run", "LED.cpp")],
  ("ui", "P45"), "every sequence is interpreted on a constructed object with symbolic times and pin; after each call the answers and pin writes are compared with those of the rule", 300)
P("P32", "Button, LEDs and serial commands act as documented",
  "The push button causes exactly one action per release, chosen by how long it was held: under 0.5 s CAN enumeration, from 1 s to under 2 s renegotiation, over 4 s mode change, otherwise nothing; holding it or not touching it queues nothing. After a mode is indicated the LEDs show it until the next one: normal yellow on and green off, uninitialised green on and yellow off, setup green off and yellow toggling every 500 ms; an activity indication lights green for 5 ms; holding the button over 4 s shows setup. Times count correctly across the clock's wrap. Each serial command has only its documented effect: s requests a mode change, y resets the transport, * reboots, and v, e, n and c show node variables, used events with their bytes and how many are used and free, configuration and counters; every other one changes nothing. An indicated mode is told, and every mode is shown by its own name.",
  "inputs histories", "every time of each step (all clock values), every sequence of button levels and indications over the analysed steps from any earlier state, every serial character and stored content",
  "The tests press the button for a few chosen times at a small clock value and check few characters; wrap-around, state left over from earlier presses and side effects of other commands are not sampled.",
  "LEDUserInterface.cpp LED.cpp Switch.cpp SerialUserInterface.cpp", [("button and LEDs", "LEDUserInterface.cpp LED.cpp Switch.cpp"), ("serial commands", "SerialUserInterface.cpp")],
  ("ui", "P32"), "process() is interpreted step by step with symbolic times, from the constructed object and from an inductive closure of its members' values; queued actions and pin writes of each path are compared with the rule", 500)
P("P34", "A fresh module acts only on values it has been given",
  "From the construction of a service and start-up of the module on, no decision, stored value, message, frame or call depends on a member or variable that was never given a value, and no null pointer is used: handlers the user did not install are not called. After start-up every member of the configuration has a value.",
  "inputs histories", "every message and action as first and second event after start-up, every stored content",
  "In the tests objects are created on fresh memory that happens to be zero; the effect of leftover memory contents depends on the platform and cannot be sampled.",
  "MinimumNodeService.h EventProducerService.h EventConsumerService.h EventTeachingService.h CanService.h LongMessageService.h LEDUserInterface.h Configuration.h", [("members and constructors of all services", "src/*.h"), ("first steps", "process() of all services")],
  ("safety", "P34"), "service objects are constructed and started on memory marked undefined; every branch condition, call target and effect of the following steps must be free of undefined values, pointers must not be null", 500)
P("P30", "No message makes the library reach outside its objects",
  "Whatever action or message of any length and content a service is given, and whatever arguments its functions for sending events and long messages are called with, every array and object access of the library stays inside the object: message bytes, the event look-up table, the parameter block, the module name, the list of services, temporary buffers and the services' own members; null pointers are not used.",
  "inputs configurations", "every message of 0 to 8 bytes, every opcode and index value, every configuration, lists of up to 3 services",
  "Tests send messages with indexes near the valid range; an access past an array's end usually goes unnoticed in a test run.",
  "MinimumNodeService.cpp MinimumNodeServiceWithDiagnostics.cpp Configuration.cpp EventTeachingService.cpp CanService.cpp Controller.cpp", [("process() of all services", "src/*Service*.cpp"), ("look-up table", "Configuration.cpp")],
  ("safety", "P30"), "process() of every service is interpreted with symbolic actions and configurations; at each load, store and copy the offset's range and relations must lie within the size of the object or array member", 60)
P("P38", "Every storage driver keeps exactly the bytes it is given",
  "For each platform's storage (internal EEPROM, EEPROM emulated in flash, I2C EEPROM, Due flash, AVR-Dx flash) a byte or block that is written is stored at exactly the given addresses with exactly the given values and nothing else is changed, reading gives the stored bytes and changes nothing, and start-up changes nothing. The hardware's rules are kept for every address and length: an I2C transmission fits the bus buffer, a page write does not cross the EEPROM's page, the device is not addressed before a write is finished, flash is erased before it is programmed, and an EEPROM emulated in flash (ESP32, ESP8266, RP2040) is started with its full size before it is used and committed after every write. A factory reset leaves nothing but erased bytes behind. A configuration made without a storage uses the driver of its platform, and one made with a storage that one.",
  "inputs histories", "every address, block length, stored content and order of writes",
  "The tests only use a stand-in storage; the real drivers are not linked into the tests at all.",
  "EepromInternalStorage.cpp EepromExternalStorage.cpp FlashStorage.cpp DueEepromEmulationStorage.cpp", [("read/write/readBytes/writeBytes/reset/begin", "src/*Storage.cpp"), ("page cache", "FlashStorage.cpp flash_write_bytes")],
  ("drivers", "P38"), "each driver is compiled for its platform against declarations of the hardware library; its functions are interpreted with symbolic contents and addresses (block lengths and page positions enumerated) against a model of the device, and the device's content afterwards is compared", 300)
P("P39", "The MCP2515 driver passes frames unchanged and restarts as configured",
  "The CAN controller is started once, on the SPI bus and with the pins, oscillator frequency, buffer sizes and mode (polling or interrupts) the user chose, at 125 kbit/s, and the result is told. Each received frame is handed over and each frame to send is given to the controller exactly once with unchanged id, flags, length and data; the counters count each frame received and each frame accepted for sending, and start at zero. When polling, the controller is polled before it is asked for frames; with interrupts each interrupt reaches the controller in use. The error state told is the controller's. A reset stops and releases the old controller before starting a new one in the same mode on the same bus.",
  "inputs configurations histories", "every frame, setting, pin, bus and mode, any counts so far, resets in sequence, three platform variants",
  "The tests replace the whole transport; this driver is not run by any test.",
  "CAN2515.cpp CAN2515.h", [("begin/reset", "CAN2515.cpp"), ("getNextCanFrame/sendCanFrame/available", "CAN2515.cpp"), ("counters", "CAN2515.h")],
  ("drivers", "P39"), "the driver's functions are interpreted with symbolic settings, frames and results of the controller library (declarations only); every use of the library is recorded and compared with the rule, for the generic, ESP8266 and RP2040 builds", 300)
P("P40", "Power loss while a node number is stored never leaves a wrong identity",
  "Whenever power is lost between two stored bytes while a node number is assigned or given up, the mode is changed, or the module is reset to factory state (the EEPROM storages' reset leaves the settings at addresses 0 to 5 in place, so each write that follows it counts), the module restarts uninitialised, or in normal mode with the complete old or the complete new node number. It never comes up in normal mode with a number nobody assigned, or in an undefined mode.",
  "crash_points histories", "every point between two storage effects of every message and user action that changes the stored mode or node number, from every stored identity",
  "Tests let every operation run to its end; an interruption between two byte writes cannot be produced with the mock storage.",
  "Configuration.cpp MinimumNodeService.cpp", [("order of the stored bytes", "Configuration.cpp setModuleNormalMode/setModuleUninitializedMode/resetModule"), ("start-up", "Configuration.cpp begin/loadNVs")],
  ("power", "P40"), "the ordered storage effects of every path of every message and mode action are cut at each point; start-up is interpreted on the storage content at that point and the identity it restores is compared with the old and the new one", 100)
P("P44", "The stored reset flag tells the sketch when to create its defaults again",
  "A factory reset, and clearing all events of a module that produces events, leave the stored reset flag set, before the module restarts. Clearing the events of a module without producers, every other message and user action, and the start-up of a module in use leave the flag byte as it was. isResetFlagSet reports exactly what setResetFlag and clearResetFlag stored.",
  "inputs histories", "every message of every service, every user action, start-up of every module with a node number other than FFFF, factory reset",
  "The flag's consumer is the user's sketch, so no test in the repository depends on it; tests never look at its byte.",
  "Configuration.cpp EventTeachingService.cpp", [("reset flag", "Configuration.cpp setResetFlag/clearResetFlag/isResetFlagSet/resetModule"), ("clearing events", "EventTeachingService.cpp handleClearEvents")],
  ("resetflag", "P44"), "on every path of every message and action the writes that reach the flag byte are enumerated: only NNCLR of a producing module and the factory reset have one, and there the byte ends set", 500)
P("P37", "Message handling neither uses the serial port nor waits",
  "Outside the serial user interface and the GridConnect transport nothing in the library reads from or writes to the serial port, so replies, transports and user commands on it are never disturbed. No service, and neither the controller nor the configuration, calls a waiting function; only storage and CAN drivers wait, for their own hardware.",
  "inputs histories", "every message, action, call and configuration: every call path from any entry point",
  "Tests compile with a serial stand-in that accepts everything and a delay that does nothing, so left-over debug output or waiting is invisible to them.",
  "Controller.cpp Configuration.cpp MinimumNodeService.cpp EventTeachingService.cpp EventConsumerService.cpp EventProducerService.cpp NodeVariableService.cpp CanService.cpp LongMessageService.cpp LEDUserInterface.cpp", [("all services", "src/*Service*.cpp"), ("the port's users", "SerialUserInterface.cpp SerialGC.cpp")],
  ("resources", "P37"), "call graph of the compiled library (virtual and indirect calls resolved to every candidate): no function reachable without passing the serial user interface or transport calls a serial or waiting primitive", 150,
  tech="effect analysis: reachability of effect primitives over the call graph of the compiled code",
  note="Decides absence of the calls on every call path, an over-approximation of what can run. Debug output that is compiled out is not considered. Functions named print..., dump..., show... that only a sketch calls may print.")
P("P17", "A running module takes no memory that it does not give back",
  "Memory is allocated only during construction and start-up, and for the copy of a long message being sent. Each accepted message takes one block, which is given back exactly once when its last fragment has been sent; a refused message takes none, and a message for whose copy there is no memory is refused without sending anything. Setting up the contexts of the extended service reports failure exactly when memory runs out. Receiving, teaching, events and everything else allocate nothing.",
  "histories inputs", "every call path for the allocations; histories of long messages of various lengths, refused and concurrent ones",
  "Tests end before a leak of a few bytes per message matters; a failing allocation is never simulated.",
  "LongMessageService.cpp Configuration.cpp ArrayHolder.h CircularBuffer.h", [("copy of the message", "LongMessageService.cpp sendLongMessage/process"), ("start-up allocations", "Configuration.cpp makeEvHashTable; LongMessageService.cpp allocateContexts")],
  ("resources", "P17"), "allocation primitives must be unreachable in the call graph outside start-up and the long message sender; there an ownership analysis follows every allocated block over histories of messages", 100,
  tech="effect analysis over the call graph, and ownership (typestate) analysis of allocated blocks by abstract interpretation",
  note="The sender's histories are enumerated (lengths around fragment boundaries, refused, concurrent and failing messages, fixed times); the absence of other allocations is decided for all call paths. A failing allocation at start-up is outside the property.")
P("P04", "Messages that ask nothing of a service leave it alone",
  "A received message whose opcode is not one of a service's requests or events has no effect in that service: no answer, no stored data or setting changed, no restart, no user callback and no queued action, in every mode and state. Stored data changes only on the storing requests: node number assignment, mode, node variable and event teaching requests, reset and CAN id. Queries never change stored data.",
  "inputs histories configurations", "every protocol service, all 256 opcodes, every length and content, every other action, every module state",
  "Tests send the messages a service handles; that all other messages are ignored, and that reading never writes, is not sampled.",
  "MinimumNodeService.cpp NodeVariableService.cpp EventTeachingService.cpp EventConsumerService.cpp EventProducerService.cpp ConsumeOwnEventsService.cpp CanService.cpp LongMessageService.cpp", [("opcode dispatch", "handleMessage/process of every service")],
  ("wire", "P04"), "every service is interpreted on every opcode and action outside its table of requests; any effect on any path fails the obligation; for its requests, storage effects are allowed for the storing ones only", 1500)
P("P41", "No received or sent message is lost under any load",
  "Whatever the rate of received messages and however many replies they cause, no action is dropped from the controller's queue and no frame from the CAN controller's buffers before it has been handled.",
  "schedules time", "every arrival pattern of messages, every speed of the processor and the bus",
  "Tests feed messages one at a time and call process() in between.",
  "Controller.cpp CircularBuffer.h CAN2515.cpp CanService.cpp", [("action queue of 30 entries", "Controller.cpp"), ("receive buffers", "CAN2515.cpp")],
  na="Whether 30 queued actions are ever exceeded depends on arrival rates, bus load and processor speed, which no static argument over the source can bound; a single listing request can already cause more replies than the queue holds. What overflow does is decided by P28.")
P("P42", "Stored data survives a power loss inside a driver's block write",
  "If power is lost while a storage driver erases and rewrites a flash page or programs an EEPROM page, every byte not being written keeps its value and the byte being written has its old or new value.",
  "crash_points", "every instant of every page erase, page program and byte program",
  "Power loss cannot be produced in the tests.",
  "FlashStorage.cpp EepromExternalStorage.cpp DueEepromEmulationStorage.cpp", [("page erase and rewrite", "FlashStorage.cpp flash_write_page"), ("page write", "EepromExternalStorage.cpp")],
  na="What a flash or EEPROM cell holds after an interrupted erase or program cycle is a property of the device, not of the source; the flash driver erases a whole page before rewriting it, so the guarantee would rest on hardware. The order of complete byte writes is decided by P40.")
P("P43", "Every request is answered within the protocol's time limit",
  "A request addressed to this module is answered within the time the protocol allows, and the button, LEDs and timers are served often enough to keep their documented times.",
  "time schedules", "every load, processor speed, list of services and user callback",
  "Tests use a mock clock that advances only when told.",
  "Controller.cpp", [("polling loop", "Controller.cpp process")],
  na="Execution time depends on the processor, the bus, the sketch's own loop and callbacks. Static analysis decides that every loop ends (P29) and that nothing waits (P37), but not how long a pass takes.")
