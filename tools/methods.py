METHOD = {
"P01": "all 256 opcodes above 0x3F with a node number field × every service; lengths 3..8; about 8 s.",
"P02": "every opcode × every length below the announced one × every service; about 10 s. RQNN acts on the opcode alone; events may come without their data bytes; DTXC fragments have their own rule (P27). Answers CMDERR/GRSP invalid command are allowed.",
"P03": "all opcodes, actions, diagnostics calls and sending API; about 32 s. A byte is 'uninitialised' if its term depends on an undefined atom.",
"P04": "table of requests per service class in `checks/wire.py`; a service class that is not derived from a known one is noted, not judged; 4 s.",
"P05": "symbolic NV count, start and index; loops summarised (any count); 3 s.",
"P06": "mode × opcode × length × node number, actions; 5 s.",
"P07": "each setter over all stored contents, then start-up interpreted on the resulting storage; 2 s.",
"P08": "classes of stored content (normal, uninitialised, left in setup, blank, number FFFF); 2 s. A module left in setup with number FFFF counts as blank.",
"P09": "event look-up enters as a contract (slot that matches, or none) which P12 verifies; symbolic table; 6 s. Duplicate keys and stale event variables of an erased record are limits, see below.",
"P10": "symbolic table and counts; item loops must visit every record exactly once (coverage rule); 8 s.",
"P11": "all opcodes × learn states; 3 s.",
"P12": "search loops: induction variable, coverage of all slots, hit proved equal and skip proved different by the path constraints; table size symbolic (0..255); 4 s.",
"P13": "address terms compared with the layout formula for symbolic index/geometry; block layout up to address 32767; 4 s.",
"P14": "all overloads × table hit/miss/full; own node number not FFFF; 20 s.",
"P15": "every opcode × data length; 5 s.",
"P16": "every request and response overload; own node number not FFFF; 6 s.",
"P17": "call graph for all paths; sender histories with lengths 0,1,5,6,7,11,16, two concurrent streams, a third refused, allocation failure; constant times; 1 s.",
"P18": "symbolic parameters, name, mode; 3 s.",
"P19": "PAR_NUM fixed by the library (20); indexes 0..255; 3 s.",
"P20": "list length symbolic 1..30 (the loop rule covers any), members symbolic services; 4 s.",
"P21": "every service class × every code; counter increments followed in all message and sending contexts; 25 s.",
"P22": "symbolic 32-bit clock with wrap-around; 3 s.",
"P23": "the used-id record as symbolic bytes; selection interpreted once per lowest free id (127 cases); one processing step is one instant; 20 s.",
"P24": "symbolic frames and messages, any length 0..8; 5 s.",
"P25": "all digits symbolic per format and length; receiver over character classes until the state set is closed; 20 s.",
"P26": "lengths around fragment and type boundaries, plus one inductive step from arbitrary position/sequence/time; 20 s. Lengths up to 65535.",
"P27": "lengths and buffer sizes around every boundary, each failure at each fragment, plus an inductive step; 25 s.",
"P28": "every (read position, fill) for small capacities, boundary states for 127,128,254,255; 3 s.",
"P29": "71 loops of the host-compiled sources; refuted only on positive evidence (counter cannot reach bound, or moves away), otherwise noted as undecided; assumptions EE_NUM_EVS<=251, PAR_NUM<=254, services<=254; 2 s.",
"P30": "offset range/relations at each access inside the object or array member; service lists of 0..3 services with arbitrary member values; 45 s.",
"P32": "button 4 steps (thorough 5) from an inductive closure of member values; LEDs from any state; serial commands with 3 NVs, 2 events × 2 EVs; 25 s.",
"P33": "queue histories of 0,1,2,3,29,30,31 actions, symbolic list of fewer than 255 services; 8 s.",
"P34": "members and locals marked undefined at construction; first and second step of every service; 28 s.",
"P35": "all opcodes; NV loop summarised for any count; 4 s.",
"P36": "lists of 0..3 (thorough 4) services of symbolic kind; 6 s.",
"P37": "CHA-style call graph, 16 candidates at the virtual process(); 1 s.",
"P38": "each driver compiled for its platform against declaration stubs of the hardware library; page size 32 (I2C EEPROM), bus buffer 32, page cache histories; 16 s. The device behind the declarations is a model in `checks/drivers.py`.",
"P39": "generic, ESP8266 and RP2040 builds; the ACAN2515 library is opaque (declarations only); 1 s.",
"P44": "writes with an address computed from the event or variable layout are P13's; 3 s.",
"P45": "time enters only as clock readings, so each path splits on the 500 ms and 5 ms comparisons; 4 s.",
"P40": "one byte write is atomic; the storage's reset either blanks the settings (flash) or leaves them (EEPROM), both analysed; a torn *event record* is outside; 3 s.",
}
