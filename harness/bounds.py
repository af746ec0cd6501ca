"""property -> (bounds of quick and thorough checks, what lies outside)"""
B = {}
B["C01"] = ("functions 1 and 2, signed and unsigned slave: every valid address/quantity in a block of 18 (thorough 24) cells at "
            "every start with neighbouring blocks and tables, all contents in -32768..65535; blocks of any size 1..65536 at any "
            "start with quantities 1,3,5,8,9,16 (thorough 1..5,7..9,16,17) at any address; quantities 17,20,31,33 (thorough "
            "17..40) at every address of a block; about 110 quantities between 18 and 2000, among them 18..40, 1985..2000 and "
            "the neighbours of powers of two (thorough every quantity 1..2000) with all contents at a fixed address; a read, a "
            "change by any write (or a new block) and the read again on 3 (4) cells.",
            "quantities above 40 with symbolic addresses; cell values outside of 16 bits.")
B["C02"] = ("functions 3 and 4, signed and unsigned slave: every valid address/quantity in a block of 12 (thorough 18) registers "
            "at every start with neighbouring blocks and tables; blocks of any size at any start with quantities 1,2,3,5,8 "
            "(thorough 1..9) at any address; quantities 9..125 with all 16-bit contents, quick at a fixed address and every "
            "second one per function and signedness, thorough every one at every address of a block; a read, a change by any "
            "write (or a new block) and the read again on 3 (4) registers.",
            "quantities above 18 (thorough 125) at addresses of blocks of any size.")
B["C03"] = ("every 16-bit address and quantity (and byte count) for functions 1-6,15,16,22 over up to 3 (write multiple: quick "
            "2) non-overlapping blocks of any start and size 1..65536 defined in any order, another table covering everything; "
            "accepted cases for the two smallest and two largest quantities; write data of 2, 4 and 246 (thorough 1-4, 6, 128, "
            "246, 250) bytes.",
            "more than 3 blocks; accepted requests of other quantities (C01, C02, C05).")
B["C04"] = ("functions 5 and 6, signed and unsigned slave: every 16-bit address and value on a block of 12 (thorough 24) cells "
            "at every start with neighbours; blocks of any size and start with one arbitrary other cell observed; a read, the "
            "write and the read again.",
            "request PDUs longer than the function prescribes (C08).")
B["C05"] = ("functions 15 and 16, signed and unsigned slave: every valid address/quantity in blocks of 14/10 (thorough 20/14) "
            "cells at every start with neighbours, all data; blocks of any size with quantities 1,3,8,9 / 1,2,3 (thorough "
            "1,2,3,5,7,8,9 / 1..5); 16,17,20,25,33 coils (thorough 15..40) at every address of a block; 8..123 registers, quick "
            "at a fixed address and every second one per signedness, thorough at every address of a block; about 110 quantities "
            "of coils between 18 and 1968 (thorough every quantity) at a fixed address; a read, the write and the read again.",
            "quantities above 40 coils with symbolic addresses.")
B["C06"] = ("every stored value, AND mask and OR mask (16 bits each), signed and unsigned slave, every cell of a block of 5 at "
            "every start with neighbours; blocks of any size and start with one arbitrary other cell observed.", "")
B["C07"] = ("signed and unsigned slave: every valid combination of read and write range in a block of 5 (thorough 6) registers "
            "at every start, or in two adjacent blocks; blocks of any size with 4 quantity pairs at any two addresses; 10 "
            "(thorough 135) pairs of quantities up to 125 read / 123 written at fixed addresses with every content; refusals: "
            "every address, quantity and byte count with 2, 4 and 6 data bytes.",
            "other quantities with symbolic addresses.")
B["C08"] = ("every PDU of 0..12 and 253 (thorough 0..20) bytes with an unsupported or missing function code, of 1..8 (15) and "
            "253 bytes for functions 1-4,7 and of 1..15 (21) bytes for functions 5,6,15,16,22,23, on a slave with four tables of "
            "3 cells at every start; write-multiple requests of 10/8 quantities (1..1000 coils, 1..100 registers) with 1-150 "
            "bytes of data missing or 1-2 bytes too many; a Modbus error of any code 1..255 raised by the hook of each handler.",
            "other long PDUs of the write functions; other quantities of truncated writes.")
B["C09"] = ("every unit id 0..255 and every set of up to 3 (thorough 6) distinct registered ids, TCP and RTU framing, functions "
            "1,3,6,8,15,16,22,23,99, both settings of error_on_missing_slave; each slave's memory observed; 5 histories "
            "(thorough 11 longer ones) of slaves added, removed, cleared and looked up between requests, ids 0..300.",
            "more than 6 slaves; longer histories.")
B["C10"] = ("three slaves (one signed, one without the written range for some starts), functions 5,6,15,16,22,23 over raw, TCP "
            "and RTU framing, functions 15,16 with 1-3 values, 23 with 5 pairs of quantities, reads 1-4, every PDU of up to 12 "
            "(thorough 16) bytes of a function; each of the slaves failing with an exception of its hook.",
            "more than 3 slaves.")
B["C11"] = ("every history of 3 operations (define/remove/clear) on one table with two names, add+2 arbitrary operations on two "
            "tables, 3-5 operation histories add-add-remove-add, add-clear-add-add, also with accesses by name and by request "
            "between the operations (thorough: 4-5 operations), all starts -3..70000, all sizes, names chosen freely, then every "
            "block read and written by name at every address.",
            "longer histories.")
B["C12"] = ("all four tables, blocks of 10 (thorough 16) cells at every start up to 70000, every address -80000..150000, "
            "scalars, lists of 0-7 values, tuples and ranges of 0,1,3,5 values, reads of 0..n+2 cells; blocks of any size up to "
            "1000000 with 1-3, 5, 9 (17, 40) values; histories of 4 (5) local writes, requests and local reads at every address "
            "on 3 cells, lists handed in or out changed by the caller afterwards; unknown names.",
            "negative read sizes; cell values that are not numbers.")
B["C13"] = ("histories of 3 arbitrary operations and of 4 given ones (thorough 4-5 arbitrary) over ids -2..400 (thorough "
            "-100000..100000), through a server.", "longer histories.")
B["C14"] = ("request PDUs of 0..19 and 8 larger sizes up to 254 bytes (thorough 0..259), every unit id -1000..70000; every "
            "response of 0..23, 100,128,255..257,259 and 260 bytes (thorough 0..260), also after an earlier arbitrary response; "
            "through execute: every response of 8..12 bytes for functions 1 and 3.",
            "responses longer than 260 bytes.")
B["C15"] = ("every frame of 0..23, 100,128,255..257,259 and 260 bytes (thorough 0..260) handed to parse_request; responses of "
            "0,1,2,5,253 bytes (thorough 0..253) to frames of 7,8,12,260 bytes; every frame of 6..19 (23) bytes executed on a "
            "data bank; every frame with a wrong length field for functions 5,6,15,16,22,23 and 10 sizes.",
            "slave errors raised outside of the slave's own handling (recorded finding).")
B["C16"] = ("request PDUs of 0,1,2,5,60,253 bytes (thorough 0..253), every address; every frame of 0..9,64,255,256 bytes "
            "(thorough 0..256) on both sides; every frame of 3..15 bytes with a wrong CRC executed on a data bank.",
            "frames longer than 256 bytes.")
B["C17"] = ("valid frames of 3..16 and 256 bytes (thorough 3..64,100,128,200,254,255,256), all contents, both sides, XOR every "
            "error of 1 or 2 bits, every burst of at most 16 bits, every odd number of bits.",
            "2-bit errors farther apart than 256 bytes; errors that truncate or extend the frame (C16).")
B["C18"] = ("every start address -70000..140000; quantities 0,1,7,8,9,125,126,255,256,2000,2001,65535 (thorough 0..259 and more) "
            "and all that do not fit 16 bits; every single value; lists of 0-17 and 1968 coils (thorough 0..39), 0-8,122,123 "
            "registers (thorough 0..123) with out-of-range values at up to 3 positions; 7 user formats; masks; file records of "
            "up to 4 and of 19, 33, 35 (thorough 1..35) sub-requests; diagnostics, device identification, raw PDUs of up to 253 bytes; unit ids -1000..70000 "
            "over both framings.", "non-integer arguments; other list lengths.")
B["C19"] = ("every answer PDU of the listed lengths around the right one for every supported function (read quantities "
            "1,2,7,8,9,16,17,2000 bits / 1,2,3,125 registers; thorough 1..33 / 1..19 and more), 8 user formats, raw results, raw "
            "requests, file records of 1-3, 10 and 35 sub-records of up to 124 registers, diagnostics of 250 bytes.", "answers longer "
            "than listed.")
B["C21"] = ("streams of 1-3 frames (7..270 bytes, every content) split at up to 2 (thorough 3) arbitrary positions, ended at "
            "every byte by silence, end of stream or reset; answers of 5-7 bytes with up to 2 short sends; every stream of 12 "
            "(thorough 16) bytes with length fields of 1..8 or beyond the stream; answers of 259 and 260 bytes with a short send anywhere; two clients with both streams split; pipelined "
            "writes on the real data model.", "length field 0; more than two clients; longer streams.")
B["C22"] = ("one and two faults (5 kinds) at every one of the first 22 socket operations while a client connects, sends 0..12 "
            "bytes and stays, leaves or is reset, also while a request of another client is waiting; failing accepts; every garbage of 1,5..9,12 (thorough 0..13) bytes; 8 kinds of "
            "exceptions raised by the handling; 13 hooks raising once or repeatedly, also together with on_error.",
            "more than two faults; faults of bind/listen/select itself.")
B["C23"] = ("answers of functions 1 and 3 (thorough 1-4 up to 255 bytes) split at up to 2 positions with bytes behind them; "
            "answers cut after every byte by silence, end of stream or reset; every answer of 0,6..12,14 (thorough 0..19) bytes; "
            "stale bytes of 0..30 before and after the request, in up to 6 blocks; broken connections, one or two faults of 3 "
            "kinds at any socket operation; up to 3 short sends.", "longer answers; more faults.")
B["C24"] = ("serial and RTU-over-TCP: right answers of functions 1,3,6,15/16,22 with every content split at up to 2 positions, "
            "with bytes behind them; exception answers of every code; answers cut after every byte by silence, end of stream or "
            "reset or continued after a silence; every answer of 0,2..9 (thorough 0..12) bytes; local echo, altered and cut "
            "echoes, software timeouts with slow reads.", "longer answers; more than 2 cut positions.")
B["C25"] = ("frames of 1..256 bytes of every content split at up to 2 (thorough 3) positions, up to 3 in a row; every frame of "
            "0..10 (thorough 0..16) bytes (function code below 128) on a slave of any unit, its effect and answer compared with "
            "the slave's own; write frames to the slave, to others, broadcast and damaged, up to 3 in a row; up to 3 read "
            "faults at any of the first 6 reads, up to 2 failing reopens, a failing write, input buffer kept or lost.",
            "function codes above 127; faults of reset, flush or in_waiting; the time the pieces take.")
B["C20"] = ("TCP, RTU and RTU-over-TCP; functions 5,6,15,16,22,23 and local writes, 1-3 values (coils up to 9) of every content at "
            "every address of a table, signed and unsigned slaves, frames split at up to 2 (3) positions; histories of 2 (thorough "
            "3) arbitrary writes; every refusal of functions 1-6,15,16,22 with quantities 0,1,4,5 and at the limits; every exception "
            "code raised by the slave; requests and answers of the largest sizes (2000 bits, 1968 coils, 125/123/121 registers) of every "
            "content at a fixed address, non-negative and negative values to be written alternating.", "longer histories.")
B["C31"] = ("TCP server: every frame of 6..9,12,13 (thorough 1..19) bytes, answers of 0,1,2,9,255 bytes or none, failing handling; RTU "
            "server: frames of 1,3,4,8 (1..11) bytes, any and valid ones; masters: 11 functions, every answer of the listed lengths "
            "(thorough 0..15 TCP, 0..11 RTU), with and without echo; switching the mode during an exchange.", "longer frames.")
B["C33"] = ("every history of 3 (thorough 4) operations out of open, close, refused open/execute, answered, silent, lost and refused "
            "exchanges on TCP, RTU-over-TCP and serial masters, and of 5 (6) with given beginnings; servers over up to 4 sessions, up "
            "to 3 clients, failing binds and opens, frames cut by the stop, repeated starts and stops.", "longer histories.")
B["C34"] = ("every baud rate from 1 to 10,000,000 (integer or not) and every pair of them, 7 pairs of multipliers and all multipliers "
            "1..1000; floating point operations as reals with the standard error model (relative error 2^-53 each), so intervals are "
            "compared within 2^-40.", "baud rates below 1 or above 10,000,000.")
B["C30"] = ("every history of 2 (thorough 3) operations (install, uninstall, uninstall all, call) on 2 names with 2 (3) hooks that "
            "return None or a value, given installations of up to 5 hooks returning None, values, 0, b'', False or uninstalling "
            "themselves or others; every documented hook point of an exchange of 13 functions with arbitrary contents to the slave, "
            "to nobody and to all, over TCP and RTU, of masters with any answer of 5 lengths, hooks returning None under all names; "
            "replaced requests and responses of 0,1,7..30 bytes of every content at every point documented to replace.",
            "the result of on_handle_broadcast (a broadcast is never answered); hooks that install hooks while they are called.")
B["C35"] = ("every address, 1,2,3,17,125 registers (thorough 1..125), 1,2,7,8,9,16,17,100 bits (thorough 1..39,255,256,1999,2000) of "
            "every content; every register and coil value; every exception code, silence, end of stream, reset, refused connection, "
            "every wrong answer of 2,3,5,8 bytes; the client with the server of the library.", "values that are not numbers.")
B["C32"] = ("every single command and (thorough and quick) every pair of commands of the nine slave and block commands, with units "
            "-3..300 (pairs 0..4), addresses -3..70000, values -40000..70000, block types 0..5, sizes -1..2, 0..3 values, names of an "
            "existing and a new block; commands cut short or with 7 unreadable words; 15 unknown lines, custom and failing commands; "
            "histories of 3 (thorough 4) hook commands on 2 names with 2 declared and an unknown function; the RPC client with 1 and 2 calls; 7 wrong answers; commands and answers of 1, 3 and 250 values cut at every byte (250: 4 "
            "cuts) or ending there.",
            "console and RPC used at the same time (they share the two queues), answers after the time limit.")
SCHED = ("Preemptions happen before accesses to shared containers, to attributes and globals the package assigns outside of "
         "constructors, lock operations and transport operations; more preemptions, and switches inside one such access, are outside.")
B["C26"] = ("every counter state; 2 threads building 1 request each and 2 each, and 3 threads, every schedule of up to 2 (thorough 3) "
            "preemptions.", "more threads or preemptions. " + SCHED)
B["C27"] = ("every pair of 18 requests and API calls that meet in one table (thorough: every pair with a writer) on the same cells with "
            "every value, every schedule of up to 2 (thorough 3) preemptions; 12 pairs of short programs (4 of them with 1, thorough 2) and "
            "4 triples (1, thorough 2 preemptions).",
            "other sizes. " + SCHED)
B["C28"] = ("2 threads (also with 2 calls each) and 3 threads on a TCP, RTU and RTU-over-TCP master, every answer value, exception answers, "
            "silence, a fault at any of the first 15 (RTU: 4) transport operations of the concurrent calls or of a call before them, "
            "hooks that raise at 4-7 points; every schedule of up to 1 preemption (2 threads: 2; thorough 2-3).",
            "execute(threadsafe=False); set_timeout and close by other threads. " + SCHED)
B["C29"] = ("every pair of 6 slave-registry operations with ids 1..3 (3 triples), and of 6 block operations at every address around an "
            "existing block (quick 6..11, thorough 5..15) with 1-2 cells, every schedule of up to 1 (thorough 2) preemptions.",
            "longer programs. " + SCHED)
B["C36"] = ("TcpServer: no client, idle, one and two requests, silent in the frame or header, gone, reset, one byte per wait (20 waits), "
            "not reading, sending requests without pause (1 and 2 clients); RtuServer: silent line, request, two, cut, any 3 bytes, "
            "requests without pause, port open or closed before; stop() at any moment, every schedule of up to 2 (thorough 3) "
            "preemptions; two concurrent stops, stop-start-stop (1, thorough 2 preemptions).",
            "real time (waits with a limit are assumed to end); serial ports whose cancel_read() does not also end the next read (POSIX "
            "pyserial does); stop() called by the server's own thread. " + SCHED)
B["C38"] = ("init, main and exit functions that succeed or fail (main at its 1st-3rd call), any arguments, one or two concurrent stops, "
            "every schedule of up to 2 (thorough 3) preemptions.", "main functions that never return. " + SCHED)
B["C39"] = ("every history of 2 (thorough 3) steps out of register and coil writes and reads over TCP and RTU, local sets and gets and "
            "new slaves, with every value, both orders of the servers, 2 sessions; histories of 1 step with every schedule of up to 1 "
            "preemption.", "more than two servers. " + SCHED)


def more(prop, within, outside=""):
    B[prop] = (B[prop][0] + " " + within, (B[prop][1] + " " + outside).strip())


more("C09", "Through a running RtuServer and TcpServer: every request to 2-3 registered and unregistered ids.")
more("C10", "Through a running RtuServer and TcpServer: broadcasts of functions 5,6,15,16,22,23 and of a read.")
more("C14", "The frames that 15 kinds of calls of a TcpMaster send.")
more("C15", "Frames of 0..14 (thorough 0..29) bytes sent to a running TcpServer.")
more("C16", "Frames of 4..9 bytes with a right or a wrong CRC sent to a running RtuServer; the frames that 15 kinds of calls of an "
            "RtuMaster and RtuOverTcpMaster send.")
more("C17", "Corrupted requests of 4..9 bytes sent to a running RtuServer, corrupted answers of 5..9 bytes received by the masters.",
     "Over TCP the first five bytes of a corrupted answer may be a valid exception frame of their own; there only `no data is "
     "returned` is checked.")
more("C18", "15 kinds of calls through a TcpMaster, RtuMaster and RtuOverTcpMaster.")

SEQ = "Sequences of 10 calls in which every ordered pair of 28 kinds of calls occurs, all arguments and answers symbolic"
more("C18", SEQ + ", through a TcpMaster.")
more("C19", SEQ + ", every third call failing (exception, cut answer, silence), through a TcpMaster and an RtuMaster.")
more("C23", SEQ + ", every third call failing (cut answer, silence, closed connection, exception).")
more("C24", SEQ + ", with and without failing calls, through an RtuMaster and an RtuOverTcpMaster.")
more("C09", "40 slaves.")
more("C10", "Broadcasts to 40 and 255 slaves of which every fifth refuses.")
more("C11", "20 and 60 blocks of a table next to each other.")
more("C13", "20 and 255 slaves.")
more("C21", "60 and 300 requests over one connection, 12 clients.")
more("C22", "6, 12 and 40 clients at once, some idle, some leaving.")
more("C25", "60 frames one after the other; 4-512 bytes of noise directly before a frame.")
more("C30", "20 functions under one name.")
more("C03", "Signed slaves with one block.")
more("C32", "Every single command typed on the console; two typed commands and one RPC command at the same time with one "
            "preemption at every shared access; a session of the simulator with all its threads (console, RPC, Modbus, quit) with "
            "one preemption.", "More preemptions; end of the standard input; the Windows console.")
more("C30", "Every hook point of `both` once more with hooks that give a result where none is documented.")
more("C36", "Stopping with 12, 40 and 70 connected clients.")
more("C24", "Local echo of requests of 8..255 bytes.")
REQ = ("Sequences of requests to one server in which every a-b and a-b-a of up to 26 kinds of requests and local accesses occurs, values "
       "and field contents symbolic, ")
for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C12"):
    more(_p, REQ + "executed by a Databank.")
more("C13", REQ + "removing and replacing slaves, by a Databank and over TCP.")
for _p in ("C09", "C10", "C20"):
    more(_p, REQ + "over TCP and RTU.")
for _p in ("C15", "C21"):
    more(_p, REQ + "over TCP.")
more("C25", REQ + "over RTU.")
more("C20", "10 data formats of 1-8 octet integers of both byte orders, every value, written with function 16 and read with function 3.",
     "Formats with floats, text or padding.")
for _p in ("C08", "C09", "C10", "C15", "C21", "C25"):
    more(_p, "13 requests of one kind in a row, for each kind.")
more("C26", "Two masters that execute up to two reads each at the same time, one preemption (thorough two).")
