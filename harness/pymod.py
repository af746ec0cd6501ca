"""The pymodbus-style client (C35) against a device that answers by the specification"""
import struct
from harness.common import *
from harness.net import *

READS = {"ir": (4, "read_input_registers"), "coils": (1, "read_coils"), "di": (2, "read_discrete_inputs")}


class Device(object):
    """answers the requests of one connection; answer(unit, pdu) gives the answer PDU or None"""

    def __init__(self, ctx, answer, end="idle"):
        self.ctx = ctx
        self.net = Net(ctx)
        ctx.env = self.net
        self.requests = []

        def peer(sock, data):
            self.requests.append(data)
            pdu = answer(data[6], data[7:])
            sock.end = end
            if pdu is not None:
                sock.feed(data[:4] + struct.pack(">HB", len(pdu) + 1, data[6]) + pdu)
        self.net.peer = peer


def client(ctx, **kw):
    a = dict(host="device", port=502)
    a.update(kw)
    return ctx.keep(ctx.M.pymodbusclient.PyModbusClientTCP(**a))


def read(ctx, what="ir", q=2, opened=True, default=False, timeout=None):
    """every address: exactly the requested values, in order"""
    fc, name = READS[what]
    a = ctx.word("addr")
    if what == "ir":
        vals = [ctx.word("v%d" % i) for i in range(q)]
        data = b""
        for v in vals:
            data = data + struct.pack(">H", v)
    else:
        vals = [ctx.int("v%d" % i, 0, 1) for i in range(q)]
        data = bytes(pack_bits(ctx, vals))
    pdu = struct.pack(">BHH", fc, a, q)
    d = Device(ctx, lambda unit, req: struct.pack(">BB", fc, len(data)) + data)
    c = client(ctx) if timeout is None else client(ctx, timeout=timeout)
    if opened:
        ctx.check(c.open() is True, "open succeeds")
        ctx.check(bool(c.is_open()), "the client is open")
    if default:
        ex, r = ctx.raises(getattr(c, name), a)
    else:
        ex, r = ctx.raises(getattr(c, name), a, q)
    ctx.check(ex is None, "the read succeeds")
    r = [x for x in r]
    ctx.observe("r", list(r))
    ctx.check(len(r) == q, "as many values as requested")
    ctx.check(ctx.all([ctx.eq(x, y) for x, y in zip(r, vals)]), "the values of the device, in order")
    ctx.check(len(d.requests) == 1 and ctx.eq(d.requests[0][6:], b"\x01" + pdu), "the requested cells are asked for")
    if timeout is not None:
        ctx.check(d.net.made[-1].timeout == timeout, "the timeout given is used")
    ctx.cover("done")


def write(ctx, what="register", n=1, kind="int"):
    """every address and value: exactly this cell is written"""
    a = ctx.word("addr")
    if what == "register":
        v = ctx.word("v")
        pdu = struct.pack(">BHH", 6, a, v)
    else:
        # anything but 0 switches it on
        v = ctx.int("v", -70000, 70000)
        pdu = struct.pack(">BHH", 5, a, ctx.ite(v == 0, 0, 0xFF00))
        if kind == "bool":
            v = ctx.pick("value", (False, True))
            pdu = struct.pack(">BHH", 5, a, 0xFF00 if v else 0)
    d = Device(ctx, lambda unit, req: req)
    c = client(ctx)
    c.open()
    f = c.write_single_register if what == "register" else c.write_single_coil
    ex, r = ctx.raises(f, a, v)
    ctx.check(ex is None, "the write succeeds")
    ctx.check(len(d.requests) == 1 and ctx.eq(d.requests[0][6:], b"\x01" + pdu), "exactly the given cell is written")
    ctx.cover("done")


def do(ctx, c, op, a, v):
    if op == "register":
        return c.write_single_register(a, v)
    if op == "coil":
        return c.write_single_coil(a, ctx.ite(v > 7, 1, 0))
    return getattr(c, READS[op][1])(a, 3)


def failure(ctx, op="ir", how="exception", n=3):
    """a failing exchange raises"""
    a, v = ctx.word("addr"), ctx.word("v")
    fc = {"ir": 4, "coils": 1, "di": 2, "register": 6, "coil": 5}[op]
    code = ctx.byte("code")
    junk = ctx.bytes("junk", n)
    net = None

    def answer(unit, req):
        if how == "exception":
            return struct.pack(">BB", fc + 128, code)
        if how == "other":
            return junk
        return None
    d = Device(ctx, answer, end={"eof": "eof", "reset": "reset"}.get(how, "idle"))
    c = client(ctx)
    if how == "refused":
        d.net.connect_fails = [True, True]
        ex, r = ctx.raises(c.open)
        ctx.check(ex is not None, "a refused connection is raised")
    if how == "other":
        # anything that is not the answer to the request
        size = {"ir": 6, "coils": 1, "di": 1}.get(op, 0)
        if op in ("ir", "coils", "di"):
            ctx.assume(ctx.any([junk[0] != fc, junk[1] != size, n != size + 2]))
        else:
            ctx.assume(junk[0] != fc)
    ex, r = ctx.raises(do, ctx, c, op, a, v)
    ctx.check(ex is not None, "the failure is raised")
    if how == "exception":
        ctx.check(isinstance(ex, ctx.M.modbus.ModbusError) and ctx.eq(ex.get_exception_code(), code),
                  "the exception code of the device is raised")
    ctx.cover("done")


def refused_argument(ctx, op="ir"):
    """quantities and addresses that no request can carry are raised and nothing is sent"""
    q = ctx.pick("q", (1, -1, 0, 65535, 65536, 70000))
    a = ctx.int("addr", -70000, 140000)
    fc = READS[op][0]
    if q == 1:
        ctx.assume(ctx.any([a < 0, a > 0xFFFF]))
    d = Device(ctx, lambda unit, req: struct.pack(">BB", fc + 128, 3))
    c = client(ctx)
    c.open()
    ex, r = ctx.raises(getattr(c, READS[op][1]), a, q)
    ctx.check(ex is not None, "the failure is raised")
    ctx.cover("done")


def with_server(ctx, n=4, q=2):
    """the client and the server of the library: what is written and set locally is read back"""
    from harness.e2e import connect
    srv, m = connect(ctx, "tcp")
    c = client(ctx)
    mem = Memory(ctx, srv.add_slave(1))
    ir, co, di, hr = mem.words("i", "I", 3, n), mem.bits("c", "C", 3, n), mem.bits("d", "D", 3, n), mem.words("h", "H", 3, n)
    o = ctx.choice("at", n - q + 1)
    v, w = ctx.word("v"), ctx.int("w", 0, 1)
    c.open()
    for b, f in ((ir, c.read_input_registers), (co, c.read_coils), (di, c.read_discrete_inputs)):
        ex, r = ctx.raises(f, 3 + o, q)
        ctx.check(ex is None, "the read succeeds")
        ctx.check(ctx.eq([x for x in r], b.vals[o:o + q]), "the values the slave holds")
    c.write_single_register(3 + o, v)
    c.write_single_coil(3 + o, w)
    hr.vals[o] = v
    co.vals[o] = w
    mem.same("exactly the given cells are written")
    ex, r = ctx.raises(c.read_coils, 3, n)
    ctx.check(ex is None and ctx.eq([x for x in r], co.vals), "the written coil is read back")
    ex, r = ctx.raises(c.read_input_registers, 3 + n, 1)
    ctx.check(isinstance(ex, ctx.M.modbus.ModbusError) and ctx.eq(ex.get_exception_code(), 2), "a refused read is raised")
    c.close()
    ctx.check(not c.is_open(), "the client is closed")
    ctx.cover("done")


def lifecycle(ctx):
    d = Device(ctx, lambda unit, req: struct.pack(">BBH", 4, 2, 7))
    c = client(ctx)
    ctx.check(not c.is_open(), "not open before open()")
    c.open()
    ctx.check(bool(c.is_open()) and len(d.net.made) == 1, "open() connects")
    ctx.check(d.net.made[0].address == ("device", 502), "to the device given")
    c.close()
    ctx.check(not c.is_open() and d.net.made[0].closed, "close() closes the connection")
    c.open()
    ex, r = ctx.raises(c.read_input_registers, 1)
    ctx.check(ex is None and [x for x in r] == [7], "usable again after open()")
    ctx.cover("done")
