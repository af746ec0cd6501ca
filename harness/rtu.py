"""Serial line and RTU masters (C24), RTU server (C25)"""
import struct
from harness.common import *
from harness.net import *


class Port(object):
    """a serial port: every read returns at most what has arrived in one go; b"" in the script is a silence"""

    def __init__(self, ctx, baudrate=9600, timeout=0.5, is_open=True):
        self.ctx = ctx
        self.name = "port"
        self.port = "port"
        self.baudrate = baudrate
        self.timeout = timeout
        self.inter_byte_timeout = None
        self.interCharTimeout = None
        self.is_open = is_open
        self.segs = []
        self.written = []
        self.on_write = None
        self.on_silence = None
        self.on_wait = None
        self.opens = 0
        self.closes = 0
        self.cancelled = 0
        self.empty_reads = 0
        self.flushed = 0
        self.faults = []            # countdown of reads that fail
        self.open_fails = []
        self.write_fails = []
        self.clock = 1000.0
        self.durations = []         # per read: how long it takes
        self.max_reads = 400

    # clock of the code under test
    def time(self):
        return self.clock

    def sleep(self, d):
        self.clock += d

    def feed(self, *segs):
        self.segs = self.segs + list(segs)

    def left(self):
        r = b""
        for s in self.segs:
            r = r + s
        return r

    def sent(self):
        r = b""
        for s in self.written:
            r = r + s
        return r

    # ---- interface of serial.Serial
    @property
    def in_waiting(self):
        if len(self.segs) > 0:
            return len(self.segs[0])
        return 0

    def inWaiting(self):
        return self.in_waiting

    def isOpen(self):
        return self.is_open

    def open(self):
        if self.is_open:
            raise OSError("Port is already open.")
        if self.open_fails and self.open_fails.pop(0):
            raise OSError("could not open port")
        self.is_open = True
        self.opens += 1

    def close(self):
        self.is_open = False
        self.closes += 1

    def cancel_read(self):
        self.cancelled += 1

    def cancel_write(self):
        pass

    def reset_input_buffer(self):
        self._live()
        self.segs = []

    def reset_output_buffer(self):
        self._live()

    flushInput = reset_input_buffer
    flushOutput = reset_output_buffer

    def flush(self):
        self._live()
        self.flushed += 1

    def _live(self):
        if not self.is_open:
            raise OSError("Attempting to use a port that is not open")

    def read(self, size=1):
        self._live()
        self.max_reads -= 1
        if self.max_reads < 0:
            self.ctx.fail("reads for ever")
        if self.faults:
            if self.faults[0] == 0:
                self.faults.pop(0)
                raise OSError("read failed")
            self.faults[0] -= 1
        if self.durations:
            self.clock += self.durations.pop(0)
        if len(self.segs) == 0 and self.on_wait is not None:
            self.on_wait()
        if len(self.segs) == 0:
            self.empty_reads += 1
            if self.timeout is None:
                if self.on_silence is not None:
                    return self.on_silence()
                self.ctx.fail("a read without any timeout waits for a silent line for ever")
            if self.timeout == 0 and self.on_silence is not None:
                return self.on_silence()
            return b""
        cur = self.segs[0]
        if len(cur) == 0:
            self.segs = self.segs[1:]
            self.empty_reads += 1
            return b""
        if size >= len(cur):
            k = len(cur)
        else:
            k = self.ctx.concrete(size)
        if k < len(cur):
            self.segs = [cur[k:]] + self.segs[1:]
        else:
            self.segs = self.segs[1:]
        return cur[:k]

    def write(self, data):
        self._live()
        if self.write_fails and self.write_fails.pop(0):
            raise OSError("write failed")
        self.written.append(data)
        if self.on_write is not None:
            self.on_write(data)
        return len(data)


# ---------------------------------------------------------------------------------------------------------------- C24

def serial_master(ctx, answer, echo=False, sw=None, **kw):
    """(master, port): answer(request) is called for what is written and gives the segments that arrive"""
    port = Port(ctx, **kw)
    ctx.env = port
    m = ctx.keep(ctx.M.modbus_rtu.RtuMaster(port))
    if sw is not None:
        m.set_timeout(sw, use_sw_timeout=True)
    if echo:
        m.handle_local_echo = True

    def on_write(data):
        for s in answer(data):
            port.feed(s)
    port.on_write = on_write
    return m, port


def tcp_master(ctx, answer, end="idle"):
    """(master, socket list) for the RTU over TCP master"""
    net = Net(ctx)
    ctx.env = net
    m = ctx.keep(ctx.M.modbus_rtu_over_tcp.RtuOverTcpMaster("device", 502))

    def peer(sock, data):
        sock.feed(*answer(data))
        sock.end = end
    net.peer = peer
    return m, net


def good_answer(ctx, fc, qty, data, unit):
    if fc in (1, 2, 3, 4):
        return rtu_frame(ctx, unit, struct.pack(">BB", fc, len(data)) + data)
    return rtu_frame(ctx, unit, struct.pack(">B", fc) + data)


def decoded(ctx, fc, qty, data):
    if fc in (3, 4):
        return [data[2 * i] * 256 + data[2 * i + 1] for i in range(qty)]
    if fc in (1, 2):
        return [(data[i // 8] >> (i % 8)) & 1 for i in range(qty)]
    return [data[2 * i] * 256 + data[2 * i + 1] for i in range(len(data) // 2)]


def request(m, ctx, fc, qty, unit):
    a = ctx.word("addr")
    if fc in (1, 2, 3, 4):
        return ctx.raises(m.execute, unit, fc, a, qty)
    if fc == 6:
        return ctx.raises(m.execute, unit, fc, a, output_value=ctx.word("value"))
    if fc == 22:
        return ctx.raises(m.execute, unit, fc, a, and_mask=3, or_mask=4)
    return ctx.raises(m.execute, unit, fc, a, output_value=[ctx.word("v%d" % i) for i in range(qty)])


def data_size(fc, qty):
    return {1: (qty + 7) // 8, 2: (qty + 7) // 8, 3: 2 * qty, 4: 2 * qty, 6: 4, 16: 4, 22: 6}[fc]


def answered(ctx, fc=3, qty=1, cuts=2, over="serial", tail=0, echo=False, sw=None, end="idle", stale=0, verbose=False):
    """a right answer in reads of any sizes (with extra bytes behind it): its data is returned, at once, nothing else read"""
    unit = ctx.byte("unit")
    data = ctx.bytes("data", data_size(fc, qty))
    extra = ctx.bytes("extra", tail)
    reqs = []

    def answer(req):
        reqs.append(req)
        f = good_answer(ctx, fc, qty, data, unit)
        e = [req] if echo else []
        if tail and ctx.choice("joined", 2):
            return e + split(ctx, f + extra, cuts)
        return e + split(ctx, f, cuts) + ([extra] if tail else [])
    if over == "serial":
        m, port = serial_master(ctx, answer, echo, sw)
        if stale:
            port.feed(ctx.bytes("stale", stale))
    else:
        m, port = tcp_master(ctx, answer, end)
    m.set_verbose(verbose)
    ex, r = request(m, ctx, fc, qty, unit)
    ctx.check(len(reqs) == 1, "one request is sent")
    ctx.check(ex is None, "a complete answer is accepted")
    ctx.observe("data", tuple(r))
    ctx.check(ctx.eq(list(r), decoded(ctx, fc, qty, data)), "the data of the answer is returned")
    left = port.left() if over == "serial" else port.made[-1].left()
    ctx.check(ctx.eq(left, extra), "the master stops at the end of the answer")
    if over == "serial":
        ctx.check(port.empty_reads == 0, "the master does not wait once the answer is complete")
    ctx.cover("done")


def exception_answer(ctx, fc=3, cuts=1, over="serial", echo=False, sw=None, end="idle", qty=2, any_code=True):
    unit = ctx.byte("unit")
    code = ctx.byte("code")

    def answer(req):
        f = rtu_frame(ctx, unit, struct.pack(">BB", fc + 0x80, code))
        return ([req] if echo else []) + split(ctx, f, cuts)
    if over == "serial":
        m, port = serial_master(ctx, answer, echo, sw)
    else:
        m, port = tcp_master(ctx, answer, end)
    ex, r = request(m, ctx, fc, qty, unit)
    ctx.check(isinstance(ex, ctx.M.modbus.ModbusError), "an exception answer raises the Modbus error")
    ctx.check(ex.get_exception_code() == code, "the exception code is the one of the answer")
    ctx.cover("done")


def cut(ctx, n=3, fc=3, qty=1, over="serial", end="idle", cuts=1, echo=False, sw=None, late=False):
    """the answer stops after n bytes (silence, or the end of the connection): an error is raised, no data returned"""
    unit = ctx.byte("unit")
    data = ctx.bytes("data", data_size(fc, qty))
    whole = []

    def answer(req):
        f = good_answer(ctx, fc, qty, data, unit)
        whole.append(len(f))
        e = [req] if echo else []
        if late:
            return e + split(ctx, f[:n], cuts) + [b"", f[n:]]
        return e + split(ctx, f[:n], cuts)
    if over == "serial":
        m, port = serial_master(ctx, answer, echo, sw)
    else:
        m, port = tcp_master(ctx, answer, end)
    ex, r = request(m, ctx, fc, qty, unit)
    ctx.check(n < whole[0], "(harness) the answer is cut")
    ctx.check(ex is not None, "an incomplete answer raises")
    ctx.check(not isinstance(ex, ctx.M.modbus.ModbusError), "an incomplete answer is no exception answer")
    ctx.check(ctx.locks_free(), "locks are released")
    # the next exchange is not disturbed
    d2 = ctx.bytes("d2", 2)
    if over == "serial":
        port.on_write = lambda data: port.feed(*(([data] if echo else []) + [good_answer(ctx, 4, 1, d2, 9)]))
    else:
        def peer(sock, data):
            sock.end = "idle"
            sock.feed(good_answer(ctx, 4, 1, d2, 9))
        port.peer = peer
    ex, r = ctx.raises(m.execute, 9, 4, 5, 1)
    if over == "serial":
        ctx.check(ex is None, "the next answer is accepted")
    if ex is None:
        ctx.check(ctx.eq(list(r), [d2[0] * 256 + d2[1]]), "the next call returns its own data")
    ctx.cover("done")


def any_answer(ctx, n=7, over="serial", fc=3, qty=1, end="idle", sw=None, echo=False, cuts=0):
    """any n bytes arrive: data only from a right frame"""
    unit = ctx.byte("unit")
    f = ctx.bytes("f", n)
    answer = lambda req: ([req] if echo else []) + split(ctx, f, cuts)
    if over == "serial":
        m, port = serial_master(ctx, answer, echo, sw)
    else:
        m, port = tcp_master(ctx, answer, end)
    ex, r = request(m, ctx, fc, qty, unit)
    z = data_size(fc, qty) + (5 if fc < 5 else 4)
    good = False
    if n >= z:
        good = f[z - 2] + 256 * f[z - 1] == crc16(ctx, f[:z - 2])
        good = ctx.all([good, f[0] == unit, f[1] == fc])
        if fc < 5:
            good = ctx.all([good, f[2] == z - 5])
    if ex is None:
        ctx.check(good, "data is returned only from a right answer")
        ctx.check(ctx.eq(list(r), decoded(ctx, fc, qty, f[3 if fc < 5 else 2:z - 2])), "the data of the answer is returned")
        ctx.cover("data")
    else:
        ctx.check(ctx.not_(good), "a right answer is accepted")
        ctx.cover("error")


def slow(ctx, slow_at=0, cuts=2, fc=3, qty=1, sw=0.3):
    """software timeout: reads take time; whatever comes back is the answer's data or an error"""
    unit = ctx.byte("unit")
    data = ctx.bytes("data", data_size(fc, qty))
    m, port = serial_master(ctx, lambda req: split(ctx, good_answer(ctx, fc, qty, data, unit), cuts), False, sw)
    port.durations = [0.01] * slow_at + [5.0]
    ex, r = request(m, ctx, fc, qty, unit)
    if ex is None:
        ctx.check(ctx.eq(list(r), decoded(ctx, fc, qty, data)), "the data of the answer is returned")
        ctx.cover("data")
    ctx.check(port.max_reads > 300, "the master stops reading")
    ctx.cover("done")


def echo_lost(ctx, n=4, fc=3, qty=1):
    """with local echo enabled and the echo cut or altered: right data or an error"""
    unit = ctx.byte("unit")
    data = ctx.bytes("data", 2 * qty)
    m, port = serial_master(ctx, lambda req: [req[:n], b"", good_answer(ctx, fc, qty, data, unit)], True)
    ex, r = request(m, ctx, fc, qty, unit)
    if ex is None:
        ctx.check(ctx.eq(list(r), decoded(ctx, fc, qty, data)), "the data of the answer is returned")
    ctx.cover("done")


def echo_altered(ctx, n=8):
    unit = ctx.byte("unit")
    data = ctx.bytes("data", 2)
    e = ctx.bytes("echo", n)
    m, port = serial_master(ctx, lambda req: [e, good_answer(ctx, 3, 1, data, unit)], True)
    ex, r = request(m, ctx, 3, 1, unit)
    ctx.check(ex is None and ctx.eq(list(r), decoded(ctx, 3, 1, data)), "exactly the length of the request is discarded")
    ctx.cover("done")


# ---------------------------------------------------------------------------------------------------------------- C25

class Line(Port):
    """the port of a server: a read on a silent line runs the harness's next step"""

    def __init__(self, ctx, *a, **k):
        Port.__init__(self, ctx, *a, **k)
        self.quiet = 0
        self.cleared = False
        self.keep_on_close = True
        self.steps = []
        self.max_reads = 600
        self.stopped = False
        self.last_read = None

    def close(self):
        Port.close(self)
        if not self.keep_on_close:
            self.segs = []

    def read(self, size=1):
        if self.is_open and self.faults:
            if self.faults[0] == 0:
                self.faults.pop(0)
                raise OSError("read failed")
            self.faults[0] -= 1
            f = self.faults
            self.faults = []
            r = self.read(size)
            if not self.cleared and not self.faults:
                self.faults = f
            return r
        if self.is_open and len(self.segs) == 0:
            self.quiet += 1
            if self.timeout is None or self.quiet > 4:
                self.quiet = 0
                if not self.steps:
                    self.stopped = True
                    self.server.stop()
                    return b""
                self.steps.pop(0)()
                if self.timeout is None:
                    return self.read(size)
            return b""
        self.quiet = 0
        return Port.read(self, size)


def rtu_server(ctx, is_open=True, databank=None, **kw):
    port = Line(ctx, is_open=is_open)
    ctx.env = port
    srv = ctx.keep(ctx.M.modbus_rtu.RtuServer(port, databank, **kw) if databank else ctx.M.modbus_rtu.RtuServer(port, **kw))
    port.server = srv
    return srv, port


def serve(ctx, srv, port):
    """runs the server's thread through the steps of the line"""
    before = len(ctx.threads)
    srv.start()
    for t in [t for t in ctx.threads if t._started and not t._done]:
        t.run_target()
    ctx.check(port.stopped, "the server keeps serving until it is stopped")
    ctx.check(not port.is_open, "a stopped server has closed its port")


def server_stream(ctx, sizes=(8, 7), cuts=2, k=5, is_open=True, verbose=False):
    """frames of arbitrary bytes, each split anywhere and followed by silence: each is handled once, as it was sent"""
    frames = [ctx.bytes("f%d" % i, n) for i, n in enumerate(sizes)]
    reps = [ctx.bytes("r%d" % i, k + i) for i in range(len(frames))]
    seen = []

    class Recorder(ctx.M.modbus.Databank):
        def handle_request(self, query, request):
            seen.append(request)
            return reps[len(seen) - 1] if len(seen) <= len(reps) else b""
    srv, port = rtu_server(ctx, is_open, Recorder())
    srv.set_verbose(verbose)
    counts = []

    def step(i):
        def f():
            counts.append((len(seen), len(port.sent())))
            port.feed(*split(ctx, frames[i], cuts))
        return f
    port.steps = [step(i) for i in range(len(frames))]
    serve(ctx, srv, port)
    ctx.observe("seen", list(seen))
    ctx.check(len(seen) == len(frames), "each frame is handled once")
    ctx.check(ctx.all([ctx.eq(a, b) for a, b in zip(seen, frames)]), "the frames are handled as they were sent")
    want = b""
    for r in reps:
        want = want + r
    ctx.check(ctx.eq(port.sent(), want), "each answer is written once")
    ctx.check(counts == [(i, sum(k + j for j in range(i))) for i in range(len(frames))], "a frame is answered before the next one")
    ctx.cover("done")


def server_any(ctx, n=8, err=True, fcs=(6,), cuts=0, verbose=False):
    """any n bytes: executed and answered exactly if they are a valid frame for a registered slave; then a valid frame"""
    srv, port = rtu_server(ctx, error_on_missing_slave=err)
    srv.set_verbose(verbose)
    u = ctx.int("unit", 1, 255)
    m = Memory(ctx, srv.add_slave(u))
    b = m.words("h", "H", 9, 4)
    f = ctx.bytes("f", n)
    if n > 1:
        # function codes below 128 (requests never have others); writes of one kind, so that the effect can be stated
        ctx.assume(f[1] < 128)
    port.feed(*split(ctx, f, cuts))
    val = ctx.word("v")
    nxt = rtu_frame(ctx, u, struct.pack(">BHH", 6, 10, val))
    mark = []

    def second():
        mark.append(len(port.written))
        mark.append(port.sent())
        port.feed(nxt)
    port.steps = [second]
    serve(ctx, srv, port)
    ctx.check(len(mark) == 2, "the server goes on")
    crc = False
    if n >= 3:
        crc = f[n - 2] + 256 * f[n - 1] == crc16(ctx, f[:n - 2])
    valid = ctx.all([crc, n >= 4])
    got = mark[1]
    ctx.check(mark[0] <= 1, "at most one answer is written")
    ctx.check(ctx.eq(port.sent()[len(got):], nxt), "the next valid frame is answered")
    if len(got) > 0:
        framed = False
        if len(got) > 4:
            framed = ctx.all([valid, f[0] == u, got[0] == u, ctx.any([got[1] == f[1], got[1] == f[1] + 128]),
                              got[len(got) - 2] + 256 * got[len(got) - 1] == crc16(ctx, got[:len(got) - 2])])
        raw = False
        if len(got) == 2 and n >= 3:
            raw = ctx.all([crc, f[0] == u, got[0] == (f[1] + 128 if n > 3 else 0x81), got[1] == 4])
        ctx.check(framed, "only valid frames for a registered slave are answered, by a frame of its own",
                  known=("raw-server-failure", raw))
        ctx.cover("answered")
    else:
        ctx.check(ctx.not_(ctx.all([valid, f[0] == u])) if n >= 4 else True, "valid frames are answered")
        ctx.cover("silent")
    # the effect and the answer are those of the request on a slave of its own (whose behaviour C01-C08 decide)
    twin = ctx.keep(ctx.M.modbus.Slave(u))
    m2 = Memory(ctx, twin)
    b2 = m2.add("h", "H", 9, list(b.vals))
    if ctx.all([valid, ctx.any([f[0] == u, f[0] == 0])]) if n >= 4 else False:
        ex, r = ctx.raises(twin.handle_request, f[1:-2])
        if len(got) != 2 and ex is None and f[0] == u:
            ctx.check(ctx.eq(got, rtu_frame(ctx, u, r)), "the answer is the slave's")
    b.vals = list(b2.read(ctx))
    b.vals[1] = val
    m.same("exactly the valid requests have an effect")


def server_writes(ctx, units=2, cuts=1, sizes=(2,)):
    """write frames for registered and other units, broadcasts and damaged ones, each followed by silence"""
    srv, port = rtu_server(ctx)
    u = ctx.int("unit", 1, 255)
    m = Memory(ctx, srv.add_slave(u))
    b = m.words("h", "H", 9, 4)
    want = b""
    frames = []
    for i, q in enumerate(sizes):
        to = ctx.byte("to%d" % i)
        vals = [ctx.word("v%d.%d" % (i, j)) for j in range(q)]
        pdu = struct.pack(">BHHB", 16, 9 + i, q, 2 * q)
        for v in vals:
            pdu = pdu + struct.pack(">H", v)
        f = rtu_frame(ctx, to, pdu)
        kind = ctx.choice("kind%d" % i, 4)
        if kind == 0:
            ctx.assume(to == u)
        elif kind == 1:
            ctx.assume(to == 0)
        elif kind == 2:
            ctx.assume(ctx.all([to != u, to != 0]))
        else:
            e = ctx.bytes("e%d" % i, 2)
            ctx.assume(e[0] + e[1] > 0)
            f = f[:-2] + struct.pack("BB", f[-2] ^ e[0], f[-1] ^ e[1])
        if kind < 2:
            for j, v in enumerate(vals):
                b.vals[i + j] = v
        if kind == 0:
            want = want + rtu_frame(ctx, u, struct.pack(">BHH", 16, 9 + i, q))
        frames.append(f)

    def step(i):
        return lambda: port.feed(*split(ctx, frames[i], cuts))
    port.steps = [step(i) for i in range(len(frames))]
    serve(ctx, srv, port)
    ctx.check(ctx.eq(port.sent(), want), "exactly the valid frames for the slave are answered")
    m.same("exactly the valid frames for the slave and broadcasts are executed")
    ctx.cover("done")


def server_faults(ctx, faults=1, upto=6, keep=True, open_fails=0, write_fails=0, is_open=True):
    """a read, open or write of the port fails: the next valid frame is answered all the same"""
    srv, port = rtu_server(ctx, is_open)
    port.keep_on_close = keep
    u = ctx.int("unit", 1, 255)
    m = Memory(ctx, srv.add_slave(u))
    b = m.words("h", "H", 9, 4)
    f1 = rtu_frame(ctx, u, struct.pack(">BHH", 6, 9, ctx.word("v1")))
    v2 = ctx.word("v2")
    f2 = rtu_frame(ctx, u, struct.pack(">BHH", 6, 10, v2))
    mark = []

    def first():
        port.faults = [ctx.choice("fault%d" % i, upto if i == 0 else 4) for i in range(faults)]
        port.open_fails = [True] * open_fails
        port.write_fails = [True] * write_fails
        port.feed(*split(ctx, f1, 1))

    def second():
        port.cleared = True
        port.write_fails = []
        mark.append(len(port.sent()))
        port.feed(f2)
    port.steps = [first, second]
    # a fault that is still to come strikes on the silent line
    serve(ctx, srv, port)
    ctx.check(len(mark) == 1, "the server goes on")
    ctx.check(ctx.eq(port.sent()[mark[0]:], f2), "the next valid frame is answered")
    ctx.check(ctx.eq(list(srv.get_slave(u).get_values("h", 10, 1)), [v2]), "the next valid frame is executed")
    ctx.cover("done")


def server_pending(ctx, cuts=1):
    """a second frame arrives while the first one is handled: both are executed once, the second one is answered"""
    srv, port = rtu_server(ctx)
    u = ctx.int("unit", 1, 255)
    m = Memory(ctx, srv.add_slave(u))
    b = m.words("h", "H", 9, 4)
    v1, v2 = ctx.word("v1"), ctx.word("v2")
    f1 = rtu_frame(ctx, u, struct.pack(">BHH", 6, 9, v1))
    f2 = rtu_frame(ctx, u, struct.pack(">BHH", 6, 10, v2))
    port.steps = [lambda: port.feed(*(split(ctx, f1, cuts) + [b""] + split(ctx, f2, cuts, "x")))]
    serve(ctx, srv, port)
    s = port.sent()
    ctx.check(ctx.any([ctx.eq(s, f2), ctx.eq(s, f1 + f2)]), "the second frame is answered once")
    b.vals[0] = v1
    b.vals[1] = v2
    m.same("both frames are executed")
    ctx.cover("done")
