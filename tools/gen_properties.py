#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the file stays consistently formatted).
import json, os
P=[]
def p(id,title,stmt,over,text,why,files,mech,obs=None,state=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d["anchors"]["observe_at"]=obs
    P.append(d)

CL=["client.go","api.go","modbus.go"]
# ---------------------------------------------------------------- client
p("C01","Client operations validate their arguments exactly, before any traffic",
  "A client operation refuses a call with an error, and without sending anything, exactly when its arguments are outside the protocol: a slave address outside the configured range (reads need min..max, writes accept 0..max), a quantity outside the limit of the function (1-2000 bits read, 1-1968 bits written, 1-125 registers read, 1-123 written, 1-121 written by read/write), or a payload that does not fit the quantity (coils: at least one bit per coil; registers: exactly two bytes or one word each). Every call inside these limits is sent to the device.",
  ["inputs","configurations"],"all argument values of all 13 client operations and all configured address ranges",
  "the client tests sample a handful of quantities per function; the boundary is a statement about all 2^16 quantities, all slave addresses and all payload lengths",
  CL,[("argument checks of each operation","client.go (*client).ReadCoils .. ReadFIFOQueue"),("limit constants","modbus.go")],["what reaches ClientProvider.Send"])
p("C02","A request PDU says exactly what the caller asked for",
  "Every request a client operation sends goes to the slave address given by the caller and consists of the function code of that operation followed by its address, quantity, value and mask arguments as big-endian words, and, for multi-writes, a byte count equal to the number of payload bytes followed by the caller's payload unchanged and in order; the memory of the payload, behind its end too, is left alone. A multi-coil write carries exactly the bytes needed for its quantity, and a coil is switched with 0xFF00 (on) or 0x0000 (off).",
  ["inputs"],"all addresses, quantities, values, masks and payloads of all client operations",
  "the provider mock used by the tests never looks at the bytes of the request, so the layout is not tested at all",
  CL,[("PDU construction","client.go uint162Bytes, pduDataBlockSuffix and their call sites")],["data handed to ClientProvider.Send"])
p("C03","A client operation succeeds only on the reply that answers its request",
  "A client operation reports success only if the reply's data is consistent with the request: a read reply has a byte count that equals both the bytes that follow and the size of the requested quantity; a write reply echoes the address and the value, quantity or masks with the exact length; a FIFO reply has at most 31 words and both counts agree with its size. A reply for which all of this holds is never refused, and an error of the transport is always passed to the caller.",
  ["inputs"],"all requests and all reply byte strings",
  "the tests feed one good and a few bad replies per operation; acceptance is a statement about all reply contents and lengths",
  CL,[("reply checks after Send","client.go switch statements of each operation")],["results of the client operations"])
p("C04","Values returned by client reads are exactly the reply's payload",
  "When a client read succeeds, the bytes it returns are exactly the payload of the reply, complete and in order, and an operation that returns words returns one word per two payload bytes, each decoded big-endian, in order. An operation that fails returns no data.",
  ["inputs"],"all successful and failing replies",
  "tests compare a few fixed byte strings; the mapping must hold for every length and content",
  CL,[("result slicing","client.go return response.Data[1:] / [4:]"),("bytes2Uint16","client.go")],["results of the client operations"])
# ---------------------------------------------------------------- transports
p("T01","RTU frames are built and checked as the serial-line specification says",
  "An RTU request frame is the slave address, the function code, the data bytes unchanged, and the CRC-16/MODBUS of all these bytes with the low byte first. A received RTU frame is taken apart only if it has at least 4 bytes and its last two bytes are the CRC of the bytes before them, and then yields exactly the first byte as slave address and the bytes between it and the CRC as PDU; every such frame is accepted.",
  ["inputs"],"all slave addresses, PDUs and received byte strings",
  "tests check a few fixed frames; the layout and the accept/reject decision range over all contents and lengths",
  ["client_rtu.go","crc.go"],[("encodeRTUFrame / decodeRTUFrame","client_rtu.go"),("CRC16","crc.go")],["bytes written to and accepted from the port"])
p("T02","ASCII frames are built and checked as the serial-line specification says",
  "An ASCII request frame is a colon, two upper-case hexadecimal characters for each of slave address, function code, data bytes and LRC, then CR LF, where the LRC is the two's complement of the byte sum of the binary fields. A received ASCII frame is taken apart only if it starts with a colon, ends with CR LF, holds an even number (at least three bytes' worth) of hexadecimal characters between them, and its last byte is the LRC of the bytes before it; it then yields exactly the first byte and the bytes between it and the LRC.",
  ["inputs"],"all slave addresses, PDUs and received byte strings",
  "tests check a few fixed frames; the layout and the accept/reject decision range over all contents and lengths",
  ["client_ascii.go","lrc.go"],[("encodeASCIIFrame / decodeASCIIFrame","client_ascii.go"),("LRC","lrc.go")],["bytes written to and accepted from the port"])
p("T03","TCP frames carry a correct MBAP header and a fresh transaction id",
  "A TCP request frame is the transaction id, protocol id 0, the length (unit id plus PDU) and the unit id in big-endian MBAP form followed by the PDU unchanged; every request takes the next value of the client's transaction counter, also when several goroutines send at once. A received frame is taken apart only if it has at least 8 bytes and its length field equals the bytes after it, and then yields exactly those header fields and the PDU bytes; every such frame is accepted.",
  ["inputs","histories","schedules"],"all unit ids, PDUs, counter values, received byte strings and interleavings of steps of the counter",
  "tests check a few fixed frames; the layout and the accept/reject decision range over all contents and lengths",
  ["client_tcp.go"],[("encodeTCPFrame / decodeTCPFrame","client_tcp.go"),("transactionID counter","client_tcp.go Send, SendPdu")],["bytes written to and accepted from the connection"])
p("T04","A transport hands back a reply only if it answers the pending request",
  "Sending a request or a PDU over any transport succeeds only if the reply carries the slave address (unit id) and function code of the request, at least one data byte, and over TCP also its transaction id and protocol id; then exactly the PDU of that reply is returned. A reply that meets all this is never refused.",
  ["inputs","fault_sequences"],"all requests and all reply frames on RTU, ASCII and TCP, for both request entry points",
  "tests compare fixed pairs of frames through a helper; they never run the two request entry points of the three transports against arbitrary replies",
  ["client_rtu.go","client_ascii.go","client_tcp.go"],[("verify / verifyTCPFrame","client_rtu.go, client_tcp.go"),("Send / SendPdu","client_rtu.go, client_ascii.go, client_tcp.go")],["results of Send and SendPdu"])
p("T05","Requests that do not fit a frame are refused, never truncated",
  "On every transport a PDU of 1 to 253 bytes is framed and sent whole, and a larger one (or an empty one, where the whole PDU is given) is refused with an error before anything is written to the device. A raw RTU frame too short to hold address, function code and CRC is refused the same way.",
  ["inputs"],"all PDU sizes on RTU, ASCII and TCP",
  "the size limits are boundaries over all lengths; tests use small frames only",
  ["client_rtu.go","client_ascii.go","client_tcp.go","modbus.go","buffer.go"],[("length checks of the encoders and SendPdu","client_rtu.go, client_ascii.go, client_tcp.go"),("frame buffer size","buffer.go newPool")],["errors and bytes written"])
p("T06","The RTU client reads exactly as many bytes as the expected reply has",
  "For every request the RTU client can send, the number of reply bytes it waits for is the length of the reply the protocol prescribes: 5 plus the data for reads (bits rounded up to bytes, two bytes per register), 8 for writes, 10 for mask writes, 5 for exceptions, and for a FIFO read the length announced in the reply itself. Any other function code is read with the minimal frame length.",
  ["inputs"],"all request frames and the first bytes of all replies",
  "tests evaluate the length function on one frame per function code; they never cover the reading of replies from a port",
  ["client_rtu.go"],[("calculateResponseLength","client_rtu.go"),("reply reading in SendRawFrame","client_rtu.go")],["reads on the serial port"])
p("T07","A Modbus exception reply becomes an exception error with the server's code",
  "On every transport, a reply to the pending request whose function code is the request's with the high bit set is reported as an exception error carrying the exception code of that reply, and never as success or as data. An exception error is never produced when the reply carries the request's function code.",
  ["inputs","fault_sequences"],"all function codes and exception codes on RTU, ASCII and TCP",
  "tests check one exception reply through a helper; the property ranges over all transports, codes and both request entry points",
  ["client_rtu.go","client_ascii.go","client_tcp.go","client.go"],[("responseError","client.go"),("verify / verifyTCPFrame","client_rtu.go, client_tcp.go")],["errors of Send and SendPdu"])
p("T08","A raw exchange writes the request once and returns the bytes received",
  "A raw exchange opens the connection if there is none, writes exactly the given request bytes, once, before it reads anything, and on success returns exactly the bytes received for it: in order, without gap, overlap or foreign bytes, ending where the framing of the transport says the reply ends. If connecting, writing or reading fails, the caller gets an error and never a partial reply.",
  ["inputs","fault_sequences"],"all requests, all splits of the reply into reads, all I/O failures",
  "the tests never run a raw exchange against a port or connection that delivers replies in pieces",
  ["client_rtu.go","client_ascii.go","client_tcp.go"],[("SendRawFrame","client_rtu.go, client_ascii.go, client_tcp.go")],["calls on the port or connection, result of SendRawFrame"])
# ---------------------------------------------------------------- robustness
p("T09","The RTU client gives request and reply their time on the line",
  "Between writing a request and reading its reply the RTU client pauses for 1.5 character times (15 bits at the configured baud rate) per byte of the request and of the expected reply, plus 3.5 character times (35 bits) for the silence between frames; above 19200 baud, or without a configured rate, it counts 750 µs per byte and 1750 µs. Times are rounded to a microsecond per character.",
  ["inputs","configurations"],"all requests and the usual baud rates",
  "no test opens a serial port, and the effect is a pause that tests do not measure",
  ["client_rtu.go"],[("pause before reading","client_rtu.go SendRawFrame, calculateDelay")],["pause between write and first read"])
p("P01","No caller argument and no peer byte can panic the client",
  "No argument given to a client operation, and no sequence of bytes, errors and short reads coming from the device, makes a client operation or a transport panic. This includes indexing, slicing, failed type assertions and use of a missing connection.",
  ["inputs","fault_sequences"],"all arguments, all reply bytes, all I/O errors",
  "a panic needs one particular length or content; tests sample a few",
  ["client.go","client_rtu.go","client_ascii.go","client_tcp.go","serial.go","crc.go","lrc.go","buffer.go"],[("length checks before every index","client*.go")],["panics"])
p("P02","No peer byte can crash a server or stop a session from being cleaned up",
  "No sequence of bytes or connection errors from a peer makes the TCP server, its sessions or the reverse-connecting server terminate the process or panic outside the per-request recovery, and a request whose handling panics leaves the session serving on an open connection. Arbitrary request data handed to the built-in function handlers does not panic.",
  ["inputs","fault_sequences"],"all byte streams, all splits into reads, all I/O errors",
  "a crash needs one particular length field or split; tests feed handlers a few complete requests",
  ["server_tcp_session.go","server_tcp.go","server_tcp_special.go","function.go"],[("length checks in the session loop","server_tcp_session.go running"),("recover in frameHandler","server_tcp_session.go"),("length checks in handlers","function.go")],["panics"])
p("P03","No argument can panic the register bank or leave it locked",
  "For every bank layout and every address, quantity and buffer given to a register bank operation, the operation returns normally with a result or an error: it never panics, and it never returns with the bank's lock still held.",
  ["inputs","configurations"],"all bank layouts, addresses, quantities and buffer lengths",
  "the tests use one layout and small ranges; a panic under the lock would also block every later access",
  ["register.go"],[("range checks","register.go"),("lock/unlock pairs","register.go")],["panics, lock state"])
# ---------------------------------------------------------------- server
p("S01","Every request to a known unit gets exactly one matching response",
  "For every complete request frame addressed to a registered unit the server sends exactly one response, with the transaction id, protocol id and unit id of the request and a length field equal to the bytes that follow it; its PDU is the request's function code with the handler's data on success, or the function code with the high bit set and one exception code byte on error. A request for an unregistered unit is answered with nothing and changes nothing. Answering a request, or not answering one for an unregistered unit, leaves the session serving.",
  ["inputs","histories"],"all request frames, handler results and unit tables",
  "the session code is not covered by unit tests at all",
  ["server_tcp_session.go"],[("frameHandler","server_tcp_session.go")],["bytes written to the connection"])
p("S02","Each function code runs its own function on the addressed unit",
  "A request is handed, with its data bytes unchanged, to the handler registered for exactly its function code together with the bank of exactly the addressed unit; a code without handler is answered with exception 1. By default codes 1 to 6, 15, 16, 22 and 23 have the built-in handlers for the function the protocol assigns to them, and registering a handler replaces exactly that code's handler.",
  ["inputs","histories","configurations"],"all function codes, unit tables and handler registrations",
  "the handlers are tested directly; the table and the dispatch that connect them to requests are not",
  ["function.go","server_tcp_session.go"],[("function table","function.go newServerCommon, RegisterFunctionHandler"),("dispatch","server_tcp_session.go frameHandler"),("unit table","function.go AddNodes, GetNode, DeleteNode")],["handler invocations"])
p("S03","Malformed request data is answered with illegal data value",
  "A built-in handler answers illegal data value (exception 3) whenever the request data has the wrong length, a quantity outside the limits of the function, a byte count that contradicts the quantity or the data present, or a coil value other than 0xFF00 and 0x0000. It answers exception 3 for no other reason.",
  ["inputs"],"all request data byte strings for the ten built-in handlers",
  "tests sample a few malformed requests per function; the rule ranges over all lengths, quantities and counts",
  ["function.go"],[("data checks of each handler","function.go")],["handler results"])
p("S04","Addresses outside the bank are answered with illegal data address",
  "A well-formed request whose address range is not entirely inside the addressed bank is answered with illegal data address (exception 2), and one whose range is inside is never answered with an exception. The range never wraps around address 65535.",
  ["inputs","configurations"],"all well-formed requests and all bank layouts",
  "tests use one layout and a few ranges; the boundary ranges over all addresses, quantities and layouts",
  ["function.go","register.go"],[("range checks","register.go"),("error propagation","function.go")],["handler results"])
p("S05","A request answered with an exception changes nothing",
  "When a built-in function is answered with an exception, no coil, discrete input or register of the bank has been changed. This includes the read/write function when only one of its two ranges is illegal.",
  ["inputs","configurations"],"all requests and all bank layouts",
  "needs the combination of a partially legal request with a look at the bank afterwards",
  ["function.go","register.go"],[("check before write","function.go, register.go")],["bank contents"])
p("S06","Remote requests touch only the bank and range they name",
  "Read functions change nothing; coil writes change coils only and register writes holding registers only, in both cases only inside the addressed range; discrete inputs and input registers are never changed by any built-in function.",
  ["inputs","configurations"],"all requests, bank layouts and contents",
  "tests look at the returned data, not at the rest of the bank",
  ["function.go","register.go"],[("handler to bank calls","function.go"),("range writes","register.go")],["bank contents"])
p("S07","Successful requests read and store the data the protocol says",
  "On success a read is answered with a byte count and the current values of exactly the addressed items in protocol order, from coils for code 1, discrete inputs for 2, holding registers for 3 and input registers for 4; a write stores exactly the values of the request at the addressed items and is answered with the prescribed echo; a mask write stores (old AND and-mask) OR (or-mask AND NOT and-mask); read/write writes first and returns the values after the write.",
  ["inputs","configurations"],"all well-formed requests, bank layouts and contents",
  "tests compare a few fixed values; the mapping ranges over all addresses, quantities and contents",
  ["function.go","register.go"],[("handlers","function.go"),("bank operations","register.go")],["handler results, bank contents"])
p("S08","The unit table holds exactly the units added and not removed",
  "Adding units stores each bank given under its slave id, a later one replacing an earlier one of the same id; removing a unit removes exactly that id, removing all leaves none; looking up an id returns exactly the bank stored under it, or an error if there is none. Listing returns every unit once in a list of its own, and enumerating calls the given function with every id and its bank until the function returns false. Serving requests never changes the table.",
  ["inputs","histories","configurations"],"all unit tables, ids and visiting functions",
  "tests add one or two units; ends of enumerations and rare ids are not sampled",
  ["function.go"],[("unit table","function.go AddNodes, DeleteNode, DeleteAllNode, GetNode, GetNodeList, Range")],["unit table contents, results"])
p("S09","Requests of concurrent sessions act on a bank as if one after another",
  "The built-in function of a request does all its reads and writes of a bank within one section of the bank's lock (exclusive if it writes), so the contents and answers produced by concurrent requests and bank operations are always those of some order in which they ran one after another. This includes mask write and read/write.",
  ["schedules","histories"],"all interleavings of requests and bank operations",
  "needs one particular interleaving of two sessions inside one request",
  ["function.go","register.go"],[("handlers","function.go"),("lock sections","register.go")],["register values and answers under concurrency"])
# ---------------------------------------------------------------- register bank
p("R01","Bank operations accept exactly the ranges inside the bank",
  "Every register bank operation succeeds if and only if the addressed range lies completely inside the configured start and quantity of that kind of register, without wrapping past 65535, and, for writes from a buffer, the buffer has the size of the range (bits: at least); otherwise it returns an illegal-data-address error, returns no data and leaves the bank as it was. The reported start and quantity of each kind are the configured ones.",
  ["inputs","configurations"],"all bank layouts, addresses, quantities and buffer lengths",
  "tests use a few ranges of one small bank; the decision ranges over all layouts up to 65536 items",
  ["register.go"],[("range checks","register.go"),("NewNodeRegister","register.go")],["results of the bank operations"])
p("R02","Word registers store and return exactly what was written",
  "Reading holding or input registers returns exactly the current values of the addressed words, in order, as words or as big-endian bytes; writing words or big-endian bytes changes exactly the addressed words, to exactly the given values; a mask write yields (old AND and-mask) OR (or-mask AND NOT and-mask). No other register of any kind changes.",
  ["inputs","histories","configurations"],"all layouts, ranges, values and contents",
  "tests compare a few words; the mapping ranges over all offsets, lengths and values",
  ["register.go"],[("word copies and conversions","register.go")],["results of the bank operations"])
p("R03","Bit registers store and return exactly what was written",
  "Reading coils or discrete inputs returns bit i of the range in bit i mod 8 of byte i/8, unused high bits zero; writing them sets exactly the addressed bits, from the same positions of the buffer, and leaves every other bit as it was. This holds for every start offset within a byte and every length.",
  ["inputs","histories","configurations"],"all layouts, start offsets, lengths and contents",
  "tests check a few offsets; packing across byte boundaries ranges over all 64 offset/length combinations and all lengths",
  ["register.go"],[("getBits / setBits","register.go"),("chunk loops","register.go ReadCoils, WriteCoils, ReadDiscretes, WriteDiscretes")],["results of the bank operations"])
p("R04","Register banks are safe for concurrent use",
  "Every access to the contents of a bank happens under the bank's lock, exclusively for writes, within one lock section per operation, so concurrent operations never race and no operation observes another one half done.",
  ["schedules"],"all interleavings of bank operations",
  "no test runs bank operations concurrently, and a race shows only under particular interleavings",
  ["register.go"],[("RWMutex","register.go NodeRegister.rw")],["lock held at each access"])
p("R05","A bank shares no memory with its callers",
  "No slice returned by a register bank operation aliases the bank's storage, and no bank keeps a reference to a caller's buffer, so neither side can change the other's data afterwards. The four kinds of registers of a bank, and different banks, occupy disjoint storage of the configured sizes.",
  ["inputs","histories","configurations"],"all layouts and operations",
  "tests never modify a returned slice and look at the bank again",
  ["register.go"],[("copies in and out","register.go"),("NewNodeRegister","register.go")],["aliasing of results and storage"])
# ---------------------------------------------------------------- locking
p("L01","A client performs one exchange at a time on its connection",
  "The connection of a client is opened, written, read and closed only under that client's lock, and one exchange holds the lock from before it writes until after it has read its reply, so the bytes of two requests or replies never interleave. Checking, opening and closing the connection are atomic in the same way.",
  ["schedules"],"all interleavings of operations on one client",
  "no test uses a client concurrently; an interleaving shows only under particular schedules",
  ["client_rtu.go","client_ascii.go","client_tcp.go","serial.go"],[("mutex","serial.go serialPort.mu, client_tcp.go TCPClientProvider.mu")],["lock held at each connection access"])
p("L02","Locks are always released and never taken twice",
  "Every lock taken by the library is released on every path out of the operation that took it, including error returns and panics of library code; no operation takes a lock it already holds, releases one it does not hold, or calls user-supplied code (handlers, callbacks) while holding one.",
  ["schedules","inputs","fault_sequences"],"all paths through all operations",
  "a forgotten unlock needs one particular error path, and shows only as a later hang",
  ["client_rtu.go","client_ascii.go","client_tcp.go","serial.go","register.go","function.go","server_tcp.go","server_tcp_special.go"],[("lock/unlock pairs","all")],["lock state at exits and callbacks"])
p("L03","Shared server state is accessed without races",
  "The unit table, the handler table, the unit id of a bank, the listener and cancel function of a server, the status, connection and cancel function of a reverse-connecting server, the log switch, the transaction counter, and whatever else operations change in shared objects or package variables are each accessed, after construction, only through their lock or atomically, whatever operations run concurrently.",
  ["schedules"],"all interleavings of server operations, sessions and user calls",
  "no test runs server operations concurrently; races show only under particular schedules",
  ["function.go","server_tcp.go","server_tcp_session.go","server_tcp_special.go","log.go","client_tcp.go","register.go"],[("locks and atomics","function.go mux, server_tcp.go mu, server_tcp_special.go rwMux, log.go has")],["lock held at each access"])
p("L04","Pooled frame buffers have one owner at a time",
  "Every buffer taken from a frame pool is returned exactly once, on every path, after its last use, and no part of it is reachable from a result handed to the caller. A pooled buffer is always handed out with the full capacity of its transport.",
  ["schedules","inputs","fault_sequences"],"all paths through the request entry points of the three transports",
  "a double return or an escaping buffer corrupts another request only under particular schedules",
  ["client_rtu.go","client_ascii.go","client_tcp.go","buffer.go"],[("pool.get / defer pool.put","client_*.go"),("pool","buffer.go")],["pool operations, aliasing of results"])
# ---------------------------------------------------------------- lifecycle
p("L05","Nothing is waited for while a lock others need is held",
  "No operation waits for the network, a timer, a channel or another goroutine while it holds a lock of a server, of a handler table or of a register bank; a client holds its own lock only over its own exchange with the device. Nested locks are always taken in one order. So no operation is held up by a peer, and no set of operations can block each other for ever.",
  ["schedules"],"all exported operations and goroutines, all their waits and lock acquisitions",
  "a deadlock or a stalled server needs one interleaving or a silent peer, which tests do not produce",
  ["server_tcp.go","server_tcp_special.go","server_tcp_session.go","register.go","function.go"],[("lock sections","server_tcp.go, server_tcp_special.go, register.go, function.go")],["locks held at each wait"])
p("V01","Every connection that is opened or accepted is eventually closed",
  "Every connection accepted by the server or opened by the reverse-connecting server is, on every path, either handed to a session, which closes it on every way out, or closed; a listener is closed when the server stops. No path drops the last reference to an open connection, and a session whose connection has ended (the peer closed it, or reading failed for good) does not go on reading: it ends.",
  ["fault_sequences","histories","schedules"],"all paths, callback results and close times",
  "leaks show only after particular failures; no test counts connections",
  ["server_tcp.go","server_tcp_session.go","server_tcp_special.go"],[("deferred close","server_tcp_session.go running"),("close on refused connection","server_tcp_special.go run, server_tcp.go ListenAndServe")],["Close calls on connections"])
p("V02","A closed server stops its sessions whatever the peer sends",
  "Between any two blocking reads of a server session, and between any two connection attempts of a reverse-connecting server, the stop signal is checked, and once it is set the session or server ends and closes its connection; every blocking read of a session has a deadline set for it. No stream of frames, valid or not, keeps a session alive after close.",
  ["inputs","schedules","histories"],"all byte streams and close times",
  "needs a peer that keeps sending after close; no test does",
  ["server_tcp_session.go","server_tcp_special.go","server_tcp.go"],[("context check in the read loop","server_tcp_session.go running"),("SetReadDeadline","server_tcp_session.go running")],["context checks, deadlines"])
p("V03","Closing the server waits for every session it started",
  "Closing the TCP server closes the listener, signals all sessions and returns only after every session that was started has ended; every started session is counted before it can run and uncounted exactly once when it has ended. A connection accepted after the server was closed is closed and not served.",
  ["schedules","histories"],"all interleavings of accept, session end and close",
  "needs a close that falls between accept and session start",
  ["server_tcp.go"],[("WaitGroup","server_tcp.go ListenAndServe, Close")],["WaitGroup operations"])
p("V04","Every network read and write of the library has its timeout set",
  "Before every read or write on a network connection, a deadline computed from the configured timeout and the current time is set for that operation since the previous one of its kind (a TCP client timeout of zero or less clears it). Connection attempts use the configured timeout.",
  ["inputs","histories","fault_sequences"],"all paths to a read or write on a connection",
  "a missing or stale deadline shows only when a peer stalls at one particular point",
  ["client_tcp.go","server_tcp_session.go","server_tcp_special.go"],[("SetDeadline","client_tcp.go SendRawFrame"),("SetReadDeadline / SetWriteDeadline","server_tcp_session.go")],["deadline calls"])
p("V05","A client never reuses a connection left out of step",
  "When a TCP exchange fails after its connection failed to take the request, ended in the middle of a reply, was closed by the peer, or delivered a frame whose length is invalid, the connection is closed and forgotten, so the next exchange starts on a new one; a serial port that fails to take a request is closed likewise. An exchange that succeeds leaves the connection open.",
  ["fault_sequences","histories","inputs"],"all failures at all points of an exchange",
  "needs failures in the middle of a frame followed by another request",
  ["client_tcp.go","client_rtu.go","client_ascii.go","serial.go"],[("close on failure","client_tcp.go SendRawFrame, client_rtu.go, client_ascii.go")],["state of the connection at each exit"])
p("V06","The reverse-connecting server follows its configured life cycle",
  "Starting runs at most one instance and closing takes effect even immediately after starting; each successful connection calls the connect handler once before serving, is reported as connected exactly while it is served, and calls the lost handler once after serving; a failed or lost connection is retried exactly if auto reconnect is enabled and the server is not closed; keep-alive calls happen only if enabled and end with the connection.",
  ["histories","schedules","fault_sequences"],"all sequences of connect results, handler results, losses and closes",
  "the reverse-connecting server is not covered by tests",
  ["server_tcp_special.go"],[("run loop","server_tcp_special.go run"),("Start / Close / status","server_tcp_special.go")],["order of callbacks, status changes and connection events"])
p("V07","A client holds at most one connection and reports it truthfully",
  "A client opens a connection only if it has none, records it only if opening succeeded, and forgets it exactly when it closes it, so no connection is ever overwritten, closed twice or lost; it reports being connected exactly when it holds one. Closing without a connection is harmless.",
  ["histories","fault_sequences"],"all sequences of connect, exchange and close with all results",
  "tests never open a connection",
  ["serial.go","client_tcp.go"],[("connect / close","serial.go, client_tcp.go")],["open and close calls, recorded connection"])
p("V08","Temporary accept errors never end the server",
  "Until the TCP server is closed, a temporary error of its listener never ends it: it pauses between 5 ms and 1 s and accepts again. Any other error ends it and is the error returned. Failing to listen is reported.",
  ["fault_sequences","histories"],"all sequences of accept results",
  "tests never make Accept fail",
  ["server_tcp.go"],[("accepting loop","server_tcp.go ListenAndServe")],["accept results, pauses, returned error"])
# ---------------------------------------------------------------- configuration
p("K01","Every setting takes effect where it is used, and nowhere else",
  "A TCP client dials its configured address over TCP with its timeout; a serial client opens its port with exactly the configured serial parameters; the TCP server listens at the address given. The reverse-connecting server dials the host of its remote server over TCP, with TLS and the TLS configuration set for the schemes ssl, tls and tcps and without for tcp, with the connect timeout; after a failed attempt or one refused by the connect handler it waits the reconnect interval, after a lost connection half a second to a second; keep-alive calls come at the keep-alive interval. A setter changes only its own settings and returns its server; a nil handler or a non-positive keep-alive interval leaves the one in force. Without configuration the documented defaults hold.",
  ["configurations","histories"],"all values of all settings, all orders of setting them",
  "tests set one value each and never connect",
  ["client_option.go","client_tcp.go","serial.go","client_rtu.go","client_ascii.go","server_tcp.go","server_tcp_special.go"],[("options","client_option.go"),("setters","server_tcp_special.go"),("openConnection","server_tcp_special.go")],["arguments of dial, listen, open and wait calls; fields changed by setters"])
p("K02","Remote addresses are completed as documented",
  "Adding a remote server completes the address given: a leading ':' gets the host 127.0.0.1, an address without '://' the scheme tcp. The result is parsed and stored exactly if it is valid; otherwise the error is returned and the remote server stays the one it was.",
  ["inputs"],"all address strings",
  "tests try a few strings",
  ["server_tcp_special.go"],[("AddRemoteServer","server_tcp_special.go")],["string parsed, stored URL, returned error"])
# ---------------------------------------------------------------- misc
p("M01","Logging is silent when off and never breaks an operation",
  "The log provider is invoked only while logging is switched on, a nil provider is never installed, and switching logging on or off affects exactly the object it is called on. The format and arguments of the message are passed to the provider unchanged, and the built-in provider prints them and returns.",
  ["inputs","histories","configurations"],"all log calls, switches and providers",
  "tests never install a provider and switch logging",
  ["log.go","client_option.go"],[("logger","log.go")],["provider invocations"])
# ---------------------------------------------------------------- not claimed
p("N01","Frames on a serial line are separated by silence",
  "At least 3.5 character times of silence separate any two frames on the serial line, and characters within a frame follow within 1.5 character times.",
  ["configurations","inputs"],"all baud rates and frame lengths","real-time behaviour of a port","client_rtu.go".split(),[("calculateDelay","client_rtu.go")])
p("N03","The reverse-connecting server eventually reconnects",
  "After a lost connection a reachable remote server is eventually connected again and requests are served.",
  ["fault_sequences","schedules"],"all outage histories","liveness over real time and network behaviour",["server_tcp_special.go"],[("reconnect loop","server_tcp_special.go run")])
p("N04","Transmission errors are detected",
  "A frame damaged on the line is not accepted as a reply.",
  ["inputs","fault_sequences"],"all error patterns","probabilistic strength of CRC and LRC, a numerical property of the codes",["crc.go","lrc.go"],[("CRC16","crc.go"),("LRC","lrc.go")])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
ids=[x["id"] for x in P]; assert len(set(ids))==len(ids)
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
