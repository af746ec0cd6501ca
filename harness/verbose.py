"""Verbose logging (C31): the same exchange with and without it, every outcome compared"""
import struct
from harness.common import *
from harness.net import *
from harness.rtu import Port, Line, serve
from harness.master import pdu_master
from harness.tcpserver import recorder


def kind(ctx, ex):
    """what a caller can tell about an exception"""
    if ex is None:
        return (0, 0)
    if isinstance(ex, ctx.M.modbus.ModbusError):
        return (type(ex).__name__, ex.get_exception_code())
    return (type(ex).__name__, 0)


def same(ctx, run, what):
    """run(verbose) -> observations; equal for both settings"""
    a = run(False)
    b = run(True)
    ctx.check(len(a) == len(b), what + ": the same number of observations")
    for x, y in zip(a, b):
        ctx.check(type(x) is type(y) or isinstance(x, (bytes, bytearray, int)) and isinstance(y, (bytes, bytearray, int)),
                  what + ": observations of the same kind")
        ctx.check(ctx.eq(x, y), what + ": the same with verbose mode")
    ctx.cover("done")


def fresh_memory(ctx, srv, unit, cells, unsigned=True):
    s = srv.add_slave(unit, unsigned)
    t = tables(ctx)
    for name in "CDHI":
        s.add_block(name, t[name], 3, 4)
        s.set_values(name, 3, list(cells[name]))
    return s


def contents(s):
    return [list(s.get_values(n, 3, 4)) for n in "CDHI"]


def cells(ctx, unsigned=True):
    lo, hi = (0, 0xFFFF) if unsigned else (-0x8000, 0x7FFF)
    d = {}
    for n in "CD":
        d[n] = [ctx.int("%s%d" % (n, i), 0, 1) for i in range(4)]
    for n in "HI":
        d[n] = [ctx.int("%s%d" % (n, i), lo, hi) for i in range(4)]
    return d


def tcp_server(ctx, n=12, fc=None, whole=True, err=True, end="idle"):
    """any n bytes from a client"""
    c = cells(ctx)
    data = ctx.bytes("d", n)
    u = ctx.int("unit", 1, 255)
    if whole and n > 6:
        ctx.assume(ctx.all([data[4] == 0, data[5] == n - 6]))
    if fc is not None:
        ctx.assume(data[7] == fc)

    def run(verbose):
        net = Net(ctx, 40)
        a = Sock(net, "a", [data], end)
        net.pending.append(a)
        s = Served(ctx, net, error_on_missing_slave=err)
        s.srv.set_verbose(verbose)
        sl = fresh_memory(ctx, s.srv, u, c)
        s.run()
        return [a.sent(), a.closed] + contents(sl)
    same(ctx, run, "TCP server")


def tcp_any_answer(ctx, n=9, k=3, none=False):
    """the data model answers anything: k bytes, an empty string, nothing"""
    data = ctx.bytes("d", n)
    ctx.assume(ctx.all([data[4] == 0, data[5] == n - 6]))
    rep = None if none else ctx.bytes("r", k)

    def run(verbose):
        net = Net(ctx, 40)
        a = Sock(net, "a", [data], "idle")
        net.pending.append(a)
        seen = []
        s = Served(ctx, net, databank=recorder(ctx, seen, lambda i: rep))
        s.srv.set_verbose(verbose)
        s.run()
        return [a.sent(), a.closed] + seen
    same(ctx, run, "TCP server")


def failing_server(ctx, exc="ValueError"):
    """the handling raises"""
    data = ctx.bytes("d", 9)
    ctx.assume(ctx.all([data[4] == 0, data[5] == 3]))
    E = {"ValueError": ValueError, "OSError": OSError, "struct": struct.error}[exc]

    def run(verbose):
        net = Net(ctx, 40)
        a = Sock(net, "a", [data], "idle")
        net.pending.append(a)

        class Bank(ctx.M.modbus.Databank):
            def handle_request(self, query, request):
                raise E("x")
        s = Served(ctx, net, databank=Bank())
        s.srv.set_verbose(verbose)
        s.run()
        return [a.sent(), a.closed]
    same(ctx, run, "TCP server")


def rtu_server(ctx, n=8, fc=None, err=True, valid=False, to=None):
    """any n bytes on the line; valid: with a right CRC"""
    c = cells(ctx)
    u = ctx.int("unit", 1, 255)
    if valid:
        a = ctx.byte("to")
        if to is not None:
            ctx.assume(a == (u if to == "unit" else 0))
        f = rtu_frame(ctx, a, ctx.bytes("pdu", n - 3))
    else:
        f = ctx.bytes("f", n)
    if n > 3:
        ctx.assume(f[1] < 128)
        if fc is not None:
            ctx.assume(f[1] == fc)

    def run(verbose):
        port = Line(ctx)
        ctx.env = port
        srv = ctx.keep(ctx.M.modbus_rtu.RtuServer(port, error_on_missing_slave=err))
        port.server = srv
        srv.set_verbose(verbose)
        sl = fresh_memory(ctx, srv, u, c)
        port.feed(f)
        serve(ctx, srv, port)
        return [port.sent(), len(port.written)] + contents(sl)
    same(ctx, run, "RTU server")


def tcp_master(ctx, n=9, fc=3, end="idle", raw=False):
    """any answer of n bytes"""
    u, a = ctx.int("unit", -3, 300), ctx.word("addr")
    d = ctx.bytes("d", n)
    if n > 5:
        ctx.assume(ctx.all([d[4] == 0, d[5] < 20]))

    def run(verbose):
        net = Net(ctx)
        ctx.env = net
        m = ctx.keep(ctx.M.modbus_tcp.TcpMaster("device", 502))
        m.set_verbose(verbose)
        sent = []

        def peer(sock, data):
            sent.append(data[2:])
            sock.feed(related(ctx, data, d))
            sock.end = end
        net.peer = peer
        ex, r = ctx.raises(call, ctx, m, u, fc, a, raw)
        return [kind(ctx, ex), r, len(net.made)] + sent
    same(ctx, run, "TCP master")


def arg(ctx, name, n=None):
    """an input that both runs share"""
    k = [v for key, v in ctx.events if key == name]
    if not k:
        k = [ctx.word(name) if n is None else ctx.bytes(name, n)]
        ctx.events.append((name, k[0]))
    return k[0]


def call(ctx, m, u, fc, a, raw):
    if fc in (1, 2, 3, 4):
        return m.execute(u, fc, a, 2, returns_raw=raw)
    if fc in (5, 6):
        return m.execute(u, fc, a, output_value=arg(ctx, "v"), returns_raw=raw)
    if fc == 22:
        return m.execute(u, fc, a, and_mask=arg(ctx, "v"), or_mask=1)
    if fc in (15, 16):
        return m.execute(u, fc, a, output_value=[1, 0, 1])
    if fc == 23:
        return m.execute(u, fc, a, 1, output_value=[1, 2])
    if fc == 7:
        return m.execute(u, fc, 0)
    if fc == 8:
        return m.execute(u, fc, 0, output_value=[1, 2])
    if fc == 43:
        return m.execute(u, fc, 0, output_value=[1, 0])
    return m.execute(u, ctx.M.defines.RAW, 0, pdu=arg(ctx, "pdu", fc - 1000), data_format=">BB", returns_raw=raw)


def rtu_master(ctx, n=7, fc=3, over="serial", echo=False, valid=True, raw=False):
    u, a = ctx.int("unit", -3, 300), ctx.word("addr")
    if valid and n >= 3:
        d = rtu_frame(ctx, ctx.byte("from"), ctx.bytes("d", n - 3))
    else:
        d = ctx.bytes("d", n)

    def run(verbose):
        sent = []
        if over == "serial":
            port = Port(ctx)
            ctx.env = port
            m = ctx.keep(ctx.M.modbus_rtu.RtuMaster(port))
            m.handle_local_echo = echo

            def on_write(data):
                sent.append(data)
                if echo:
                    port.feed(data)
                port.feed(d)
            port.on_write = on_write
        else:
            net = Net(ctx)
            ctx.env = net
            m = ctx.keep(ctx.M.modbus_rtu_over_tcp.RtuOverTcpMaster("device", 502))

            def peer(sock, data):
                sent.append(data)
                sock.feed(d)
            net.peer = peer
        m.set_verbose(verbose)
        ex, r = ctx.raises(call, ctx, m, u, fc, a, raw)
        return [kind(ctx, ex), r] + sent
    same(ctx, run, "RTU master")


def any_master(ctx, n=4, fc=3, none=False, raw=False):
    """a master of any framing: the answer PDU is arbitrary"""
    u, a = ctx.int("unit", 0, 255), ctx.int("addr", -5, 70000)
    answer = None if none else ctx.bytes("d", n)

    def run(verbose):
        m, sent = pdu_master(ctx, answer)
        m.set_verbose(verbose)
        ex, r = ctx.raises(call, ctx, m, u, fc, a, raw)
        return [kind(ctx, ex), r] + sent
    same(ctx, run, "master")


def toggled(ctx, n=12):
    """verbose mode switched between two requests"""
    c = cells(ctx)
    u = ctx.int("unit", 1, 255)
    reqs = [tcp_frame(ctx, 7 + i, u, struct.pack(">BHH", 6, 3 + i, ctx.word("v%d" % i))) for i in range(2)]

    def run(verbose):
        net = Net(ctx, 40)
        a = Sock(net, "a", [reqs[0]])
        net.pending.append(a)
        s = Served(ctx, net)
        sl = fresh_memory(ctx, s.srv, u, c)
        s.srv.set_verbose(verbose)
        st = []

        def idle():
            if len(st) == 0:
                st.append(1)
                s.srv.set_verbose(not verbose)
                a.feed(reqs[1])
                return True
            return False
        s.run(idle)
        return [a.sent(), a.closed] + contents(sl)
    same(ctx, run, "TCP server")
