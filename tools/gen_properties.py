#!/usr/bin/env python3
"""Source of properties.jsonl (kept as a script so that ids and anchors stay consistent)."""
import json, os
S = "src/modbus_slave.c"; SP = "src/slave_internall/modbus_slave_PDU.c"; SD = "src/slave_internall/modbus_slave_data.c"
M = "src/modbus_master.c"; MP = "src/master_internall/modbus_master_PDU.c"; Q = "src/master_internall/modbus_queue.c"
RTU = "src/common/modbus_RTU.c"; CRC = "src/common/modbus_crc.c"; BR = "src/common/buf_rw.c"; PC = "src/common/modbus_PDU_common.c"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Slave stays inside its memory for every received frame",
 "Whatever bytes and whatever length the driver delivers, and in whatever order the driver notifications and the application's polls come, the slave never reads or writes outside its own buffers and tables, never dereferences a null or unregistered pointer, and never uses an uninitialised value. This holds for every slave address and for every set of registered and unregistered application variables.",
 ["inputs","schedules","configurations"], "all frames (length 0..255, all byte values), all registration tables, all orders of driver notifications and polls, shipped table sizes and the test table sizes",
 "The tests feed a few dozen hand-written frames; the space of frames is 2^2040 and a stray index only shows as a crash by luck.",
 [S, SP, SD, PC, BR, RTU], [("request range checks", SP), ("table accessors", SD), ("16-bit buffer access", BR)],
 [("request/response buffers","256-byte frame buffers","src/slave_internall/modbus_slave_RTU.c"),("application tables","pointers registered by the application",SD)],
 ["every load and store reached from the slave poll and the slave callbacks"])

prop("C02", "Slave answers each bad request with the right exception code",
 "For every well-formed addressed frame the slave refuses exactly as the Modbus rules say: unsupported function code gives exception 01; a quantity outside 1..limit (2000 coils/inputs read, 1968 coils written, 125 registers read, 123 written), a single-coil value other than 0x0000/0xFF00 or a byte count that contradicts the quantity gives 03; an address range not completely inside the configured table gives 02 (a bad quantity or coil value is reported before a bad range, a bad range before a bad byte count); an address with no registered application variable gives 04. A request with none of these faults is never refused.",
 ["inputs","configurations"], "all function codes 0..255, all addresses, quantities, values and byte counts, all registration tables",
 "Tests pick single boundary values per function; the decision is a function of five request fields and of the table contents.",
 [SP, SD], [("parameter checks", SP), ("function table", SP)], [], ["frame handed to the driver's send"])

prop("C03", "Slave read replies carry exactly the requested application data",
 "A read of coils, discrete inputs, holding registers or input registers that is answered normally returns, for every requested address and no other, the value the registered application variable has at that moment: bit i of the packed data is the i-th requested coil/input (low bit first, unused bits zero) and register i is sent high byte first. The byte count is the exact data size, and no byte of an earlier message ever appears in the reply.",
 ["inputs","histories","configurations"], "all start addresses and quantities up to the protocol limit, all application values, any earlier traffic left in the buffers",
 "Tests read small fixed ranges from freshly cleared buffers; packing, truncation and stale-buffer faults need particular quantities or histories.",
 [SP, SD, PC, BR], [("bit packing loop", SP), ("status byte clearing", PC), ("big-endian store", BR)], [], ["frame handed to the driver's send"])

prop("C04", "Slave writes store exactly the requested values and echo the request",
 "A write of one or more coils or holding registers that is answered normally has stored, in the application variable registered for each addressed coil/register, exactly the value the request carries for it, before the reply is sent. No other application variable is changed, and the reply repeats the address and the value (single) or the quantity (multiple) of the request.",
 ["inputs","configurations"], "all write requests (functions 5, 6, 15, 16), all addresses, quantities and data, all registration tables",
 "Tests write a handful of addresses and look only at those; a write to a neighbour or at one particular quantity is not looked for.",
 [SP, SD, BR], [("write services", SP), ("table accessors", SD)], [], ["application variables", "frame handed to the driver's send"])

prop("C05", "A refused, ignored or read request changes no application data",
 "Application variables are changed by the slave only while it executes an accepted write request; a read request, a request refused with exception 01, 02 or 03, and a frame that is discarded change none. Initialisation and driver notifications never change application variables either.",
 ["inputs","schedules","histories"], "all frames and all event orders",
 "Tests do not observe the whole application memory around each refused request.",
 [S, SP, SD], [("check-before-act order in each service", SP)], [], ["application variables"])

prop("C06", "Every slave reply is a correctly framed RTU message",
 "Every frame the slave hands to the driver starts with the slave's own address, carries the request's function code (with the top bit set, followed by one exception code byte, when it is an exception), has exactly the length of that reply type and ends with the CRC-16 of all preceding bytes, low byte first. The frame handed over is never longer than 256 bytes and never shorter than 5. Until the driver reports the transmission complete the frame is left unchanged and no other one is started, even when another station is heard meanwhile.",
 ["inputs","histories","configurations"], "all accepted frames, any earlier buffer contents",
 "Tests check framing on a few replies; length arithmetic is 8-bit and depends on quantity.",
 [S, SP, RTU, CRC], [("frame completion", RTU), ("reply length", SP)], [], ["frame handed to the driver's send"])

prop("C07", "Slave acts only on complete, error-free frames addressed to it",
 "The slave sends a reply or changes application data only in response to a frame that is addressed to its own address, whose CRC is right, for which the driver reported no frame error, and only after the end-of-frame silence has been reported. Every other frame is dropped silently.",
 ["inputs","schedules","fault_sequences"], "all frames, all positions of a frame error notification, all interleavings of the notifications with polls",
 "Tests drive one order of notifications; the flags interact across polls and across frames.",
 [S, RTU], [("frame validation", RTU), ("slave state machine", S)], [("notification flags","T1.5, T3.5, frame error, transmission",S)], ["calls of the driver's send", "application variables"])

prop("C08", "Slave answers every valid request exactly once and keeps listening",
 "Every complete, error-free frame addressed to the slave that has a legal layout is answered by exactly one reply, however the notifications and polls interleave, provided pending work is polled before the next frame starts. After a reply, a discarded frame or a bus error the slave accepts the next frame; no sequence of bus events leaves it deaf. While a reply is being transmitted no frame is answered.",
 ["schedules","histories","fault_sequences"], "unbounded sequences of good, bad and foreign frames with any interleaving of notifications and polls, including a transmission that completes before send() returns",
 "Tests run one frame from a fresh state; traps appear after particular event sequences.",
 [S], [("slave state machine", S)], [("notification flags","T1.5, T3.5, frame error, transmission",S),("request length","bytes received so far",S)], ["calls of the driver's send over time"])

prop("C09", "Slave never acts on bytes that were not part of the frame",
 "What the slave does with a frame depends only on the bytes of that frame: a frame whose received length does not match the layout its function code requires is not executed (it changes no application data and produces no data reply). Left-overs of earlier frames in the reception buffer never influence application data or a reply.",
 ["inputs","histories"], "all frame lengths 0..255 for all function codes, all earlier buffer contents",
 "Tests always supply complete frames in zeroed buffers.",
 [S, SP, RTU], [("frame validation", S)], [], ["calls of the driver's send", "application variables"])

prop("C10", "CRC routine equals CRC-16/MODBUS on every input",
 "For every byte string of up to 256 bytes the checksum routine returns the CRC-16/MODBUS value (reflected polynomial 0xA001, initial value 0xFFFF, no final inversion), reads exactly the bytes it is given and modifies none. Hence a frame followed by its checksum, low byte first, has checksum zero.",
 ["inputs"], "all byte strings of length 0..256",
 "Tests compute a few sample strings; a wrong table entry shows only for strings that reach it.",
 [CRC], [("lookup table", CRC), ("update step", CRC)], [], ["return value of the checksum routine"])

prop("C11", "Master request frames encode the call exactly",
 "For every accepted request call the frame sent on the bus is exactly the Modbus RTU encoding of that call: slave address, function code, start address, then quantity, coil value (0xFF00/0x0000), register value, or quantity, byte count and packed data, ending in the CRC. Coils are packed low bit first with unused bits zero, 16-bit fields are high byte first, and nothing of an earlier message or of later changes to the caller's array leaks in.",
 ["inputs","histories"], "all eight request calls with all arguments, any earlier buffer contents",
 "Tests encode a few sample requests into clean buffers.",
 [M, MP, BR, PC, RTU], [("request encoders", MP), ("frame completion", RTU)], [], ["frame handed to the driver's send"])

prop("C12", "Master accepts exactly the valid requests and reports refusal",
 "A request call is accepted exactly when its quantity lies within 1 and the protocol limit of its function (2000 coils/inputs read, 125 registers read, 1968 coils and 123 registers written; single writes always) and a message buffer is free; otherwise it returns the matching error (buffers exhausted, or request error). A refused call has no other effect: nothing is sent, no pending request is altered and the number of free buffers is unchanged.",
 ["inputs","histories"], "all arguments of all eight request calls in every reachable queue state",
 "Tests call with single out-of-range values once; leaking on refusal needs repeated calls.",
 [M, MP], [("request generation", M), ("range checks", MP)], [], ["return value", "frames later handed to the driver's send"])

prop("C13", "Master message buffers are never lost, shared or duplicated",
 "At every moment each of the configured message buffers is in exactly one place: free, waiting to be sent, or being processed. Hence after any history of accepted, refused, answered, failed and timed-out requests, once all outstanding requests are finished the master again accepts as many requests as after initialisation, and never more than that number at once.",
 ["histories","schedules"], "unbounded histories of request calls and transaction outcomes",
 "Tests run short histories; a leak or duplicate needs a particular order of failure and reuse.",
 [M, Q], [("queue push/pop", Q), ("return of a finished buffer", M)], [("free queue","unused buffers",M),("tx/rx queue","requests waiting",M)], ["return values of request calls"])

prop("C14", "Master sends requests first-in first-out, one at a time",
 "Accepted requests are transmitted in the order of the calls, and the next one is transmitted only after the previous one has had its outcome (delivered, confirmed, exception, error or timeout). A queued request is transmitted without alteration by requests queued or completed after it.",
 ["histories","schedules"], "unbounded histories of request calls interleaved with transactions, including wrap-around of the queue",
 "Tests queue a few requests from a fresh queue; ring wrap-around with mixed occupancy is not exhausted.",
 [Q, M], [("ring buffer", Q), ("idle-state dispatch", M)], [("queue indices","head, tail, fill count",Q)], ["calls of the driver's send over time"])

prop("C15", "Master delivers read data exactly once, to the right place",
 "When a read is answered by a matching response, the application receives exactly one notification per requested object, of the kind that was read, with the slave address, the object's own address and the value the response carries for it. No notification is made for any other object or kind, and values never come from bytes outside the response.",
 ["inputs","histories"], "all read requests and all matching responses",
 "Tests deliver a few small responses.",
 [MP, M], [("response decoding", MP)], [], ["application read callbacks"])

prop("C16", "Master stays inside its memory for every response and request",
 "Whatever bytes and length come back from the bus, in whatever order notifications, polls, timer ticks and request calls come, the master never reads or writes outside its buffers, queues and the caller's array, never dereferences a null pointer and never uses an uninitialised value.",
 ["inputs","schedules"], "all responses (length 0..255, any bytes) to all requests, all event orders, all request arguments with a caller array of the stated size",
 "Tests use well-formed responses only.",
 [M, MP, Q, RTU, BR, PC], [("response decoding", MP), ("request encoders", MP), ("queue", Q)], [], ["every load and store reached from the master API and callbacks"])

prop("C17", "Master accepts only a valid response to the request it sent",
 "Data, write confirmations and exception reports reach the application only from a frame that was received after the request was sent, comes from the addressed slave, has a correct CRC and no frame error, was followed by the end-of-frame silence, carries the request's function code (or that code with the top bit set) and has the length and byte count the request calls for. Any other frame produces no data, confirmation or exception report.",
 ["inputs","schedules","fault_sequences"], "all frames arriving at any time, including stale, foreign, truncated and mismatching ones",
 "Tests use matching responses; the acceptance condition spans several polls and flags.",
 [M, MP, RTU], [("response validation", M), ("frame validation", RTU)], [("notification flags","T1.5, T3.5, frame error, CRC error",M)], ["application callbacks"])

prop("C18", "Each master request has one outcome and at most four transmissions",
 "Every accepted request ends in exactly one outcome: delivered/confirmed, exception report, communication error report or timeout report. A response damaged by a CRC or frame error, or one that does not match the request, makes the master repeat the identical frame, at most three times (the configured retry count), before one communication error report; neither the repetition nor that report comes before the 3.5 character silence after the damaged response has been reported. Errors of one request never count against or leak into the next.",
 ["schedules","histories","fault_sequences"], "all sequences of good, damaged, foreign and missing responses over unbounded series of requests",
 "Tests exercise one retry sequence from a fresh state.",
 [M], [("retry handling", M)], [("repeat counter","retries used",M),("error flags","frame and CRC error",M)], ["calls of the driver's send", "application callbacks"])

prop("C19", "An unanswered request times out, even when polled late",
 "If no response arrives, the master reports a timeout for the request once the configured response time has elapsed since the end of its transmission - not earlier (in whole timer ticks, the first of which may be a partial one), and also when the application polls irregularly so that several timer ticks pass between two polls. The report names the slave, function code, address and quantity of that request, and the next queued request then proceeds.",
 ["schedules","histories"], "all interleavings of timer ticks and polls",
 "Tests poll at exactly the tick the code looks for.",
 [M], [("response timer", M), ("timeout handling", M)], [("response timer","ticks left",M)], ["timeout callback"])

prop("C20", "Exception and error reports identify the request",
 "An exception response is reported once, through the callback of the object kind the request addressed (coil, discrete input, holding register, input register), with the slave address, function code, exception code and the request's address and quantity field. A communication error report names the slave, function code, address and quantity field of the request and says whether the CRC or the frame (damaged, or not matching the request) was bad.",
 ["inputs","histories"], "all requests, all exception codes and all damaged responses",
 "Tests check selected codes.",
 [MP, M], [("exception routing", MP), ("error reports", M)], [], ["exception and error callbacks"])

prop("C21", "Master never gets stuck",
 "From every state that any sequence of requests, driver notifications, timer ticks and polls can produce, the master can still finish: with the bus silent from then on, further polls and ticks bring every accepted request to an outcome and the master back to idle. No order or coincidence of notifications - both silence notifications before one poll, a completion before send() returns, noise between requests - blocks it.",
 ["schedules","histories","fault_sequences"], "all reachable states of the master protocol",
 "Tests step through planned sequences; a lost flag only matters in rare interleavings.",
 [M], [("master state machine", M)], [("notification flags","T1.5, T3.5, frame, CRC, transmission",M),("response timer","ticks left",M)], ["application callbacks over time"])

prop("C22", "Driver notifications only signal; work happens in the poll",
 "The functions the library hands to the driver as notifications, and the master's timer tick, do nothing but record the event: they do not touch frame buffers, message queues or application data, do not call the driver or the application and contain no loops. They can therefore run in interrupt context at any moment.",
 ["schedules","programs"], "all notification entry points and everything reachable from them",
 "Unit tests call notifications sequentially and cannot see what an interrupt would race with.",
 [S, M], [("callback functions", S), ("callback functions", M)], [], ["effects of the subscribed functions"])

prop("C23", "A completion notification is never lost, however early it comes",
 "Master and slave are ready for the transmission-complete notification before they start the transmission: even if the driver finishes sending, and notifies, before its send function returns, the notification takes effect. Neither side overwrites a pending notification that belongs to the current transmission.",
 ["schedules"], "completion at any point from the start of send() on, for first transmissions and repeats",
 "The mock driver in the tests never completes inside send().",
 [S, M], [("transmission flag", S), ("transmission flag", M)], [], ["behaviour after an early completion"])

prop("C24", "Master and slave on one platform do not influence each other",
 "Master and slave may run on one hardware platform: no call into the slave reads or writes any variable that master calls write, and vice versa, and each side uses only its own driver interface. In particular their buffers, flags and notification functions are distinct.",
 ["programs","histories"], "all functions reachable from either API",
 "Tests run each side alone.",
 [S, M, SD, Q], [("module-private state", S), ("module-private state", M)], [], ["read and write sets of the two APIs"])

prop("C25", "No heap, no recursion, no waiting: every call returns",
 "The library uses no dynamic memory and no recursion, calls nothing but its own functions, the driver interface and the application callbacks, and never waits for an event inside a call. Every API call and notification finishes after a number of steps bounded by the frame size, for every input.",
 ["inputs","programs"], "all functions of the library; all loops for all inputs",
 "A non-terminating loop appears only for untested quantities.",
 [S, SP, SD, M, MP, Q, RTU, CRC, PC], [("bounded loops", "src/")], [], ["call graph", "loop bounds"])

prop("C26", "Initialisation is complete before reception starts, and repeatable",
 "Initialisation passes the baud rate and parity to the driver unchanged and once, subscribes all four notifications, and only then may reception be enabled, on a buffer that belongs to the library. After it returns, whatever happened before (including an earlier initialisation with traffic), the slave answers to the given address and the master has all buffers free, with no remembered event, length, retry or timer.",
 ["histories","inputs"], "initialisation from the power-on state and from every reachable state, with all parameters",
 "Tests initialise once from zeroed memory.",
 [S, M], [("init functions", S), ("init functions", M)], [], ["driver calls during initialisation", "behaviour afterwards"])

prop("C27", "Registering a variable binds exactly that address",
 "Registering an application variable for an address inside the table makes exactly that coil, input or register refer to it and affects no other address or table; registering a null pointer unbinds it. An address outside the configured table is ignored and touches no memory.",
 ["inputs","configurations"], "all addresses 0..65535 for the four registration calls, all table sizes",
 "Tests register a few valid addresses.",
 [S, SD], [("registration functions", S)], [], ["tables"])

prop("C28", "Write confirmations report exactly the written request",
 "When a write request is answered by a matching normal response, the application gets exactly one write confirmation, of the kind written (coil or holding register), with the request's slave address, start address and quantity (1 for single writes). No confirmation is given otherwise.",
 ["inputs","histories"], "all write requests and all responses",
 "Tests confirm selected requests.",
 [MP, M], [("confirmation reporting", MP)], [], ["application write callbacks"])

prop("C29", "Request calls only queue; the bus is used from the poll alone",
 "A master request call never starts a transmission, never waits and never invokes an application callback or a driver function; only the periodic poll does. Neither the request calls nor the poll modify the caller's data array, and after the call returns the library keeps no reference to it.",
 ["inputs","histories","programs"], "all request calls and all following polls",
 "Tests do not observe access to the caller's array after the call.",
 [M, MP], [("request generation", M)], [], ["driver and application calls made by request calls", "accesses to the caller's array"])

prop("C30", "Silence and response times are met in real time",
 "The end-of-character (1.5) and end-of-frame (3.5) silences, the response time-out in milliseconds and the poll-to-reply latency are met on the target hardware.",
 ["schedules","configurations"], "all baud rates, clock settings and interrupt loads",
 "Needs hardware timing.", ["examples/STM32G070RB_MODBUS_SLAVE/Core/Src/modbus_driver_interface.c", "examples/STM32G070RB_MODBUS_MASTER/Drivers/STM32G0_Drivers/modbus_driver_interface.c"],
 [("timer setup", "examples/")], [], ["bus timing"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
