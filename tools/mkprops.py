"""Writes /verif/properties.jsonl (kept as a script so that ids, anchors and texts stay consistent)."""
import json, os
P = []
M = "modbus_tk/modbus.py"; T = "modbus_tk/modbus_tcp.py"; R = "modbus_tk/modbus_rtu.py"; O = "modbus_tk/modbus_rtu_over_tcp.py"
U = "modbus_tk/utils.py"; H = "modbus_tk/hooks.py"; S = "modbus_tk/simulator.py"; SC = "modbus_tk/simulator_rpc_client.py"; PC = "modbus_tk/pymodbusclient.py"

def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))

MEM = [("blocks of a slave", "per-type lists of address ranges and their cell values", M + " Slave._memory / ModbusBlock._data")]
HR = ["Slave.handle_request", "Slave.get_values"]

p("C01", "Bit reads return exactly the stored bits",
  "A valid read-coils or read-discrete-inputs request (functions 1 and 2, quantity 1..2000 inside one block of the right table) is answered with the function code, a byte count of ceil(quantity/8) and the cells at exactly those addresses packed least-significant-bit first with zero padding (any non-zero cell is 1). The read changes no cell of the slave, and the answer does not depend on whether the slave is signed or unsigned.",
  ["inputs"], "every block start and size, every address and quantity inside it, every cell value, signed and unsigned slaves",
  "The tests read eight chosen patterns from a block at address 0; offset, padding and last-partial-byte arithmetic must hold for every address/quantity/content combination.",
  [M], [("bit packing of a range of cells", M + " Slave._read_digital"), ("range lookup", M + " Slave._get_block_and_offset")], MEM, HR)

p("C02", "Register reads return exactly the stored registers",
  "A valid read-holding-registers or read-input-registers request (functions 3 and 4, quantity 1..125 inside one block of the right table) is answered with the function code, byte count 2*quantity and the values of exactly those addresses, in address order, each as a big-endian 16-bit word (two's complement for a signed slave). The read changes no cell of the slave.",
  ["inputs"], "every block start and size, every address and quantity, every register content that fits 16 bits, signed and unsigned slaves",
  "The tests sample a handful of ranges in one block that starts at 0 and only small values.",
  [M], [("register packing", M + " Slave._read_registers"), ("range lookup", M + " Slave._get_block_and_offset")], MEM, HR)

p("C03", "Out-of-limit and out-of-range requests are refused untouched",
  "Every read or write request whose quantity is outside the protocol limits (1..2000 bits read, 1..125 registers read, 1..1968 coils written, 1..123 registers written), or whose byte count contradicts its quantity, gets exception code 3, and every other request whose addressed range is not completely inside one single block of the table it addresses gets exception code 2. A refused request changes no cell, and a request that is within limits and completely inside one block is never refused.",
  ["inputs", "configurations"], "all 16-bit addresses and quantities, all byte counts, all block layouts up to three blocks per table with arbitrary starts and sizes",
  "Limits and block edges are 32-bit combinations of address and quantity against an arbitrary layout; tests probe six ranges against one layout.",
  [M], [("quantity limits", M + " Slave._read_digital, _read_registers, _write_multiple_*, _read_write_multiple_registers"), ("range lookup", M + " Slave._get_block_and_offset")], MEM, HR)

p("C04", "Single writes change exactly one cell and echo the request",
  "A write-single-register request stores its 16-bit value (as two's complement if the slave is signed) and a write-single-coil request stores 1 for 0xFF00 and 0 for 0x0000, in exactly the addressed cell and in no other cell of any table, and the reply is an echo of the request. Any other coil value is refused with exception code 3 and changes nothing.",
  ["inputs"], "every address, value, block layout, prior content, signed and unsigned slaves",
  "Tests write a few values at a few addresses and look only at the written cell; the frame condition over all other cells is never checked.",
  [M], [("single writes", M + " Slave._write_single_register, Slave._write_single_coil")], MEM, HR)

p("C05", "Multiple writes store exactly the given values in order",
  "A valid write-multiple-registers or write-multiple-coils request stores the k-th value of the request in the k-th addressed cell, for every k below the quantity, and changes no other cell of any table; padding bits of the last coil byte have no effect. The reply carries the starting address and the quantity of the request.",
  ["inputs"], "every start address, quantity up to 123 registers / 1968 coils, every data content, every prior content, signed and unsigned slaves",
  "Tests use constant patterns (all ones) and do not look at neighbours; each of up to 1968 cells must be right for all data.",
  [M], [("multiple writes", M + " Slave._write_multiple_registers, Slave._write_multiple_coils")], MEM, HR)

p("C06", "Mask write computes (value AND and_mask) OR (or_mask AND NOT and_mask)",
  "A mask-write-register request (function 22) replaces exactly the addressed holding register by (old AND and_mask) OR (or_mask AND NOT and_mask) on 16 bits and changes no other cell; the reply echoes the request. Afterwards the register reads back as that 16-bit word, on signed slaves too.",
  ["inputs"], "all 2^48 combinations of old value, and_mask, or_mask; every address; signed and unsigned slaves",
  "One example in the test suite (which expects the wrong number and fails); the formula is over 48 free bits and the sign interpretation of the slave.",
  [M], [("mask write", M + " Slave._mask_write_register")], MEM, HR)

p("C07", "Read/write-multiple writes first, then reads, all or nothing",
  "A valid read/write-multiple-registers request (function 23) stores the given words in exactly the write range and then returns the contents of the read range as they are after that write. If either range or quantity or the byte count is invalid the request is refused with the corresponding exception and nothing is written.",
  ["inputs"], "all read/write addresses and quantities (overlapping or not, same or different blocks), all data",
  "No test exercises function 23 on the slave at all.",
  [M], [("read/write multiple", M + " Slave._read_write_multiple_registers")], MEM, HR)

p("C08", "Any request PDU: well-formed reply, and no effect unless it succeeds",
  "For every byte string used as a request PDU (truncated, over-long, unknown or reserved function codes), the slave either carries out a supported function completely and answers with that function code, or changes no cell at all. A supported-by-nobody function code below 128 is answered with exception code 1, and every exception reply is exactly two bytes: request function code + 128 and a non-zero exception code.",
  ["inputs"], "every PDU of 0..12 bytes with all bytes arbitrary, and truncated/extended multiple-write PDUs",
  "Garbage requests are an open-ended space (the only garbage test fails for Python-2 reasons).",
  [M], [("dispatch and error mapping", M + " Slave.handle_request, Databank.handle_request")], MEM, ["Slave.handle_request", "Databank.handle_request"])

p("C09", "A request acts only on the slave it is addressed to",
  "A request addressed to unit id N in 1..255 is executed by the slave registered under N only: no cell of any other slave is read into the answer or changed, and the answer carries N as its unit id. If no slave N exists nothing is executed and nothing is answered, whatever the error_on_missing_slave setting.",
  ["inputs", "configurations"], "every unit id byte, every set of up to three registered slave ids, every write/read request PDU of the harness, TCP and RTU framing",
  "Tests use slave 1 and 5 and never check that the other slave is untouched or that absent units stay silent.",
  [M, T, R], [("slave lookup", M + " Databank.handle_request, Databank.get_slave")], [("slave map", "slaves by id", M + " Databank._slaves")], ["Databank.handle_request"])

p("C10", "Broadcast writes reach every slave and are never answered",
  "A write request sent to unit 0 is carried out by every registered slave exactly as if addressed to it individually, independent of whether other slaves refuse it, and a broadcast request of any kind produces no response bytes. Broadcast read requests change nothing.",
  ["inputs", "configurations"], "all write requests (functions 5, 6, 15, 16, 22), up to three slaves with different layouts and signedness, any PDU bytes",
  "The broadcast tests fail at this commit because the master waits for an answer; nothing checks partial refusal.",
  [M], [("broadcast loop", M + " Databank.handle_request"), ("broadcast refusal", M + " Slave.handle_request")], [("slave map", "slaves by id", M + " Databank._slaves")], ["Databank.handle_request"])

p("C11", "Blocks of one table never overlap, for any history of definitions",
  "After any sequence of adding and removing memory blocks, no two blocks of the same table of a slave cover a common address, every block name is unique, and every still-defined block is reachable by its name and through requests to each of its addresses. Adding is refused exactly when size is not positive, start is negative, the name is taken, the table is unknown or an existing block of that table would be overlapped, and a refused call changes nothing.",
  ["histories", "inputs"], "all sequences of up to four add/remove operations with arbitrary integer starts and sizes",
  "Overlap detection depends on the order in which earlier blocks were defined; tests only ever add a second block.",
  [M], [("overlap check and ordered insertion", M + " Slave.add_block, ModbusBlock.is_in"), ("removal", M + " Slave.remove_block, remove_all_blocks")],
  [("block registry", "name -> (table, start) plus per-table lists", M + " Slave._blocks, Slave._memory")], ["Slave.add_block", "Slave.remove_block", "Slave.handle_request"])

p("C12", "Local set/get access exactly the addressed cells of the named block",
  "Storing values through the slave API at an address puts the k-th value in the cell address+k of the named block and changes no other cell; reading returns exactly the cells of the requested range in order. Access that would touch an address outside the named block raises the out-of-block error (unknown name: missing-key error) and changes nothing.",
  ["inputs", "histories"], "every block start and size, every address and length (in or out of range), lists, tuples, ranges and scalars as values",
  "Tests sample a few addresses of one block; offset arithmetic and frame must hold for all.",
  [M], [("set/get with range check", M + " Slave.set_values, Slave.get_values")], MEM, ["Slave.set_values", "Slave.get_values"])

p("C13", "The slave registry is an exact map of ids 1..255",
  "Slaves can be registered under exactly the ids 1..255, each at most once; looking up an id returns the slave registered by the most recent successful add and not removed since, and fails otherwise. Refused add/remove/lookup calls raise and leave the registry unchanged.",
  ["histories", "inputs"], "all sequences of up to four operations over arbitrary integer ids",
  "Tests run fixed sequences over one range of ids.",
  [M], [("slave map", M + " Databank.add_slave, get_slave, remove_slave, remove_all_slaves")], [("slave map", "slaves by id", M + " Databank._slaves")], ["Server.add_slave", "Server.get_slave", "Server.remove_slave"])

p("C14", "TCP master accepts a response only if its header matches the request",
  "A Modbus/TCP request frame is transaction id, protocol id 0, length = PDU length + 1, unit id, PDU. A received frame is accepted if and only if its transaction id, protocol id and unit id equal those of the request and its length field equals the number of bytes that follow it; then exactly the PDU bytes are handed on, otherwise an error is raised. Unit ids outside 0..255 are refused before anything is built.",
  ["inputs"], "every PDU content up to the stated length, every response byte string up to the stated length, all unit ids",
  "Tests flip one field at a time in single samples.",
  [T], [("MBAP header handling", T + " TcpMbap, TcpQuery.build_request, TcpQuery.parse_response")], [("request header", "transaction, protocol, length, unit of the pending query", T + " TcpQuery._request_mbap")], ["TcpQuery.build_request", "TcpQuery.parse_response"])

p("C15", "TCP server frames answer exactly the request they belong to",
  "The TCP server side accepts a request frame if and only if its length field equals the number of bytes that follow, hands exactly unit id and PDU to the data model, and every response frame carries the request's transaction id, protocol id and unit id, a length field equal to response PDU length + 1, and the response PDU. A frame that is too short or whose length field is wrong executes nothing.",
  ["inputs"], "every request byte string up to the stated length, every response PDU up to the stated length",
  "Tests round-trip four constant PDUs.",
  [T, M], [("MBAP header handling", T + " TcpQuery.parse_request, TcpQuery.build_response, TcpMbap.check_length")], [], ["TcpQuery.parse_request", "TcpQuery.build_response", "Server handling of a frame"])

p("C16", "RTU frames are address + PDU + Modbus CRC16, and nothing else is accepted",
  "An RTU request or response frame is the address byte, the PDU and the CRC-16/Modbus of those bytes, low byte first. A received frame of at least three bytes is accepted if and only if its CRC is the CRC-16/Modbus of the rest (and, on the master, its address is that of the request), and then exactly the PDU bytes between address and CRC are handed on; every other frame is rejected with an error and executes nothing.",
  ["inputs"], "all frame contents for every frame length up to 256 bytes, all addresses",
  "The CRC test compares a few strings; equality with the bit-wise polynomial definition must hold for all contents.",
  [R, U], [("CRC16 table computation", U + " calculate_crc, swap_bytes"), ("RTU framing", R + " RtuQuery")], [], ["RtuQuery.build_request", "parse_response", "parse_request", "build_response"])

p("C17", "Corrupted RTU frames are never accepted",
  "A valid RTU frame in which any one or two bits are flipped, or any burst of up to 16 consecutive bits is changed, or any odd number of bits is flipped within the bound, is never accepted by the master or the server as a frame, whatever its content. Nothing is executed for it and no data is returned from it.",
  ["inputs", "fault_sequences"], "all frame contents and all error patterns of the stated kinds for the stated frame lengths",
  "The number of (content, corruption) pairs is astronomic; tests increment one CRC once.",
  [R, U], [("CRC16 table computation", U + " calculate_crc"), ("RTU frame check", R + " RtuQuery.parse_request, parse_response")], [], ["RtuQuery.parse_request", "RtuQuery.parse_response"])

p("C18", "Master requests encode exactly the call's arguments",
  "For every supported function the request PDU that the master sends is the one the Modbus specification prescribes for the call's arguments (function code, big-endian addresses, quantities, counts, values; coils packed least-significant-bit first; negative register values as two's complement). Arguments that do not fit their wire field, and unsupported function codes, raise an error and nothing is sent.",
  ["inputs"], "every address, quantity, value (inside and outside 16 bits), value list length up to the stated bound, unit id",
  "Tests never inspect the bytes sent; only a few values reach a server.",
  [M], [("request construction", M + " Master.execute")], [], ["bytes passed to the transport's send"])

p("C19", "Master returns the response's data or raises, never wrong data",
  "For a response PDU that answers the request as specified, the call returns exactly the decoded values (requested number of bits, 16-bit registers, echoed fields, file sub-records, device-identification bytes). An exception response raises a Modbus error carrying its exception code, and a response that is truncated, has a contradicting byte count, a wrong amount of data or answers a different function raises an error instead of returning data.",
  ["inputs"], "every response PDU up to the stated length for every supported function and quantity up to the stated bound",
  "Tests only see answers produced by the library's own slave.",
  [M], [("response decoding", M + " Master.execute")], [], ["return value or exception of Master.execute"])

p("C20", "What one side writes the other reads back, over TCP and RTU",
  "For every value list that a master writes with any write function through TCP or RTU framing to a server of this library, subsequent reads through the master and through the server's local API return the same values (modulo the two's-complement view of signed slaves), and values set locally are what the master reads. Errors the slave raises surface at the master as a Modbus error with the slave's exception code.",
  ["inputs", "histories"], "all values, addresses and unit ids; write-then-read histories over each transport, lengths up to the stated bound",
  "The functional tests move a few constant lists; the composition of two encoders and two decoders must be identity for all data.",
  [M, T, R], [("master codec", M + " Master.execute"), ("slave handlers", M + " Slave"), ("framing", T + " TcpQuery, " + R + " RtuQuery")], [], ["Master.execute", "Slave.get_values"])

p("C21", "TCP server reassembles requests from any byte stream",
  "However the bytes of one or several consecutive request frames are split by the network, the TCP server executes exactly these frames in order, each once, and sends each answer completely; trailing bytes of an incomplete frame are never executed. A disconnect at any point ends only that connection.",
  ["inputs", "schedules"], "all splits of up to two pipelined frames with arbitrary contents, end of stream at every position, short sends",
  "Loopback sockets deliver small frames in one piece, so tests never see splits or short sends.",
  [T], [("per-connection read loop", T + " TcpServer._do_run")], [("connections", "listening socket and client sockets", T + " TcpServer._sockets")], ["bytes sent on the client socket", "slave memory"])

p("C22", "A fault on one connection does not stop the TCP server",
  "Any error on one client connection (reset, timeout or close in the middle of a frame, failing send, malformed request, failing request handling or hook) or a failed accept closes at most that client connection. Other connections and the listening socket stay usable: the next request of another client is answered and the next client can connect.",
  ["fault_sequences"], "a fault at every socket operation of a serving round (up to two faults), followed by a request from another client and a new connection",
  "Tests inject no socket faults.",
  [T], [("per-socket error handling", T + " TcpServer._do_run")], [("connections", "listening socket and client sockets", T + " TcpServer._sockets")], ["TcpServer socket set", "responses on other sockets"])

p("C23", "TCP master reads exactly one frame and survives stale or cut streams",
  "However a response frame is split by the network, the TCP master consumes exactly that frame (no byte of what follows) and returns its data; if the connection ends or times out inside the frame an error is raised and no data returned. Bytes left over from an earlier exchange are discarded before a request is sent or make the exchange fail, they are never returned as the answer to the new request.",
  ["inputs", "schedules", "fault_sequences"], "all splits, end of stream at each byte, stale frames with every transaction id, broken connection on flush",
  "Needs adversarial timing of the peer.",
  [T, U], [("frame reader", T + " TcpMaster._recv"), ("flush before send", T + " TcpMaster._send, " + U + " flush_socket")], [], ["Master.execute result", "bytes consumed from the socket"])

p("C24", "RTU masters (serial and over TCP) receive whole answers and always terminate",
  "The serial RTU master assembles the answer from reads of any sizes, stops as soon as the expected number of bytes is there or the line goes silent, and never returns data from an incomplete answer; with local echo enabled exactly the echo of the request is discarded. The RTU-over-TCP master does the same on a socket: an exception answer raises the Modbus error, and a connection closed by the peer raises an error instead of hanging.",
  ["inputs", "schedules", "fault_sequences"], "all splits of an answer into reads, silence/close after every byte, exception answers, echo on/off, hardware and software timeouts",
  "There is no serial port and no RTU-over-TCP peer in the tests.",
  [R, O], [("serial receive loop", R + " RtuMaster._recv, RtuMaster._send"), ("socket receive loop", O + " RtuOverTcpMaster._recv")], [], ["Master.execute result or exception", "bytes consumed"])

p("C25", "RTU server answers each complete valid frame once and ignores the rest",
  "For any frame that arrives on the serial line in any split, followed by silence, the RTU server executes it once and writes its answer if and only if it is a valid frame for a registered slave; invalid frames, frames for other units and broadcasts are not answered. Serial errors are survived: the port is reopened and the next valid frame is answered.",
  ["inputs", "schedules", "fault_sequences"], "all frame contents up to the stated length, all splits into reads, a read error at each read",
  "Needs a serial line; the RTU functional tests cannot run here.",
  [R], [("serial server loop", R + " RtuServer._do_run")], [], ["bytes written to the serial port", "slave memory"])

p("C26", "Transaction ids stay in 16 bits and are not reused by concurrent requests",
  "Every TCP request frame carries a transaction id in 0..65535, and the ids of any 65536 consecutive requests of a process are pairwise different, also when requests are built concurrently by several threads; after 65535 the numbering continues at 0.",
  ["schedules", "histories"], "every counter state, two and three threads with every interleaving of their shared accesses",
  "The test runs 20 threads once; a lost update needs one unlucky interleaving.",
  [T, U], [("locked counter", T + " TcpQuery._get_transaction_id, " + U + " threadsafe_function")], [("last transaction id", "process-wide counter", T + " TcpQuery._last_transaction_id")], ["transaction id field of request frames"])

p("C27", "Requests and local accesses to one slave are atomic",
  "When a request is executed on a slave while another thread reads, writes or redefines the same slave through its API or another request, the outcome of both is as if one had run completely before the other: no reader ever sees half of a multi-cell write and no update is lost.",
  ["schedules"], "every pair of operations (read/write requests, set_values, get_values, add/remove block) and every interleaving of their shared accesses",
  "Tests run one writer and one reader with sleeps of 10 ms.",
  [M], [("per-slave lock", M + " Slave.handle_request, set_values, get_values, add_block, remove_block")], [("slave data lock", "mutual exclusion of operations on a slave", M + " Slave._data_lock")], ["Slave API results"])

p("C28", "Concurrent calls on a master are serialized request by request",
  "When several threads call execute on the same master, each request is sent and its own response received before the next request is sent, so that no call returns another call's data; this also holds after a call that failed at any point.",
  ["schedules", "fault_sequences"], "two threads, every interleaving of their transport operations, failure at any transport step",
  "The multi-thread test is commented out; the stress test cannot pass on Python 3.",
  [M, U], [("call serialization", U + " threadsafe_function on Master.execute")], [("execute lock", "mutual exclusion of exchanges", U + " threadsafe_function lock")], ["order of send/receive operations"])

p("C29", "Concurrent registration of slaves and blocks keeps the registries consistent",
  "When several threads register, remove or look up slaves on one server, or define and remove blocks on one slave, at the same time, the outcome equals some serial order of the calls: at most one registration of a given id or name succeeds, overlapping blocks are never both accepted, and a refused call leaves no trace.",
  ["schedules"], "every pair of registry operations and every interleaving of their shared accesses",
  "One test starts ten threads that add disjoint blocks.",
  [M], [("registry locks", M + " Databank (lock), Slave.add_block/remove_block (lock)")], [("registries", "slave map, block map", M + " Databank._slaves, Slave._blocks, Slave._memory")], ["Server.add_slave", "Slave.add_block"])

p("C30", "Hooks run as installed and override only with a non-None result",
  "Hooks installed under a name are called in installation order with the documented arguments until one returns something other than None, whose result replaces the value where the hook is documented to return one; hooks under other names are not called and uninstalled hooks are never called again. Without hooks, or with hooks that only return None, requests and responses are processed exactly as if the hook mechanism did not exist.",
  ["histories", "inputs"], "all install/uninstall histories up to the stated length, all return values, every hook point on the request path of master and server",
  "One test counts calls of one hook.",
  [H, M, T, R], [("hook registry", H + " install_hook, uninstall_hook, call_hooks")], [("hook table", "functions by hook name", H + " _HOOKS")], ["hook calls", "frames sent"])

p("C31", "Verbose logging never changes behaviour",
  "Switching verbose mode on a master or server on or off does not change any returned value, raised error, transmitted frame or stored cell, for any request or response content, including empty, refused, broadcast and malformed ones.",
  ["inputs", "configurations"], "every request/response byte string of the stated lengths, verbose on and off compared",
  "Verbose mode is switched on in one (failing) test only.",
  [M, U], [("log formatting on the data path", M + " Master.execute, Server handling; " + U + " get_log_buffer")], [], ["Master.execute", "Server handling of a frame"])

p("C32", "Simulator commands do what they say, over console and RPC",
  "Each simulator command (add/remove/has slave, add/remove block, set/get values, remove all) has exactly the effect of the corresponding API call with the numbers given in the text and answers 'name done: result', or 'name error: reason' leaving the state unchanged; unknown commands answer an error and the simulator keeps running. The RPC client sends these commands over its connection and returns the decoded result or raises.",
  ["inputs", "histories"], "all integer arguments, value lists up to the stated length, valid and invalid commands",
  "No test touches the simulator or its RPC interface.",
  [S, SC], [("command loop", S + " Simulator._handle and _do_*"), ("rpc", S + " RpcHandler, " + SC + " SimulatorRpcClient")], [], ["simulator answers", "slave memory", "SimulatorRpcClient results"])

p("C33", "Master and server connections open and close idempotently and can be reopened",
  "For any sequence of open, close and execute calls on a master, including failing connects, at most one connection is open at a time, a closed master releases its connection, open on an open master and close on a closed one do nothing, and execute on a closed master reopens it. A stopped server has closed its sockets, handles no more requests and can be started again.",
  ["histories", "fault_sequences"], "all sequences of up to four operations with a failure at each connect, TCP and serial masters, start/stop/start of both servers",
  "The corresponding functional tests are commented out.",
  [M, T, R], [("open/close state", M + " Master.open, Master.close; " + T + " TcpMaster._do_open/_do_close; " + R + " RtuMaster._do_open/_do_close"), ("server lifecycle", M + " Server._run_server, start, stop; " + T + " TcpServer._do_init/_do_exit")],
  [("opened flag", "whether the master believes it is connected", M + " Master._is_opened")], ["open/close calls on sockets and serial ports"])

p("C34", "RTU silence intervals follow the baud rate",
  "For every positive baud rate the serial timeouts an RTU master or server configures are the specified multiples (1.5 and 3.5 by default) of one 11-bit character time for rates up to 19200 and of 0.5 ms above; they are positive, and a higher baud rate never yields a longer interval.",
  ["inputs", "configurations"], "every baud rate from 1 to 10,000,000, every pair of them for monotonicity",
  "The test samples thirty standard rates.",
  [U, R], [("inter-character time", U + " calculate_rtu_inter_char"), ("serial timeouts", R + " RtuMaster.__init__, RtuServer.__init__")], [], ["serial.timeout", "serial.inter_byte_timeout"])

p("C35", "The pymodbus-style client returns what the device holds",
  "The drop-in TCP client returns from each read call the sequence of values held by the device at the requested addresses and writes exactly the given register or coil, for every address, quantity and value; failures of the underlying exchange are raised, not turned into values.",
  ["inputs"], "all addresses and values, quantities up to the stated bound",
  "The client has no test.",
  [PC, M], [("wrapper calls", PC + " PyModbusClientTCP")], [], ["PyModbusClientTCP read/write results"])

p("C36", "Stopping a server terminates its thread in bounded time",
  "After stop() is called on a running server its worker thread ends within a bounded time and stop() returns, whatever the clients do.",
  ["schedules"], "all OS schedules and client behaviours",
  "A liveness property over real time and the OS scheduler.",
  [M, T, R], [("stop/join", M + " Server.stop; " + R + " RtuServer.stop")], [], ["Server.stop"])

p("C37", "The web HMI shows and stores the polled values",
  "The web-based HMI lists the configured masters, polls the configured requests and displays exactly the values returned by the devices.",
  ["inputs", "histories"], "all configurations of the HMI database",
  "No test covers the HMI.",
  ["hmi/master_webhmi.py"], [("polling and rendering", "hmi/master_webhmi.py")], [], ["HTTP responses"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
