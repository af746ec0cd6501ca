"""Opening and closing masters and servers (C33)"""
import struct
from harness.common import *
from harness.net import *
from harness.rtu import Port, Line, serve


class TcpSide(object):
    """a TCP or RTU-over-TCP master and every socket it makes"""

    def __init__(self, ctx, over):
        self.ctx = ctx
        self.over = over
        self.net = Net(ctx)
        ctx.env = self.net
        M = ctx.M
        cls = M.modbus_tcp.TcpMaster if over == "tcp" else M.modbus_rtu_over_tcp.RtuOverTcpMaster
        self.m = cls("device", 502)
        ctx.keep(self.m)
        self.mode = "answer"
        self.value = None
        self.net.peer = self.peer

    def peer(self, sock, data):
        if self.mode == "silent":
            return
        if self.mode == "gone":
            sock.end = "eof"
            return
        pdu = struct.pack(">BBH", 3, 2, self.value) if self.mode == "answer" else struct.pack(">BB", 0x83, 2)
        if self.over == "tcp":
            sock.feed(data[:4] + struct.pack(">HB", len(pdu) + 1, 9) + pdu)
        else:
            sock.feed(rtu_frame(self.ctx, 9, pdu))

    def connect_fails(self, n):
        self.net.connect_fails = [True] * n

    def open_now(self):
        return len([s for s in self.net.made if s.connected and not s.closed])

    def made(self):
        return len([s for s in self.net.made if s.connected])

    def lose(self):
        for s in self.net.made:
            s.segs, s.cur = [], b""
            s.end = "eof"
            s.peer_gone = True

    def discard(self):
        for s in self.net.made:
            s.segs, s.cur = [], b""


class SerialSide(object):
    def __init__(self, ctx, is_open):
        self.ctx = ctx
        self.port = Port(ctx, is_open=is_open)
        ctx.env = self.port
        self.m = ctx.keep(ctx.M.modbus_rtu.RtuMaster(self.port))
        self.mode = "answer"
        self.value = None
        self.port.on_write = self.peer
        self.extra = 1 if is_open else 0

    def peer(self, data):
        if self.mode in ("silent", "gone"):
            return
        pdu = struct.pack(">BBH", 3, 2, self.value) if self.mode == "answer" else struct.pack(">BB", 0x83, 2)
        self.port.feed(rtu_frame(self.ctx, 9, pdu))

    def connect_fails(self, n):
        self.port.open_fails = [True] * n

    def open_now(self):
        return 1 if self.port.is_open else 0

    def made(self):
        return self.port.opens + self.extra

    def lose(self):
        self.port.segs = []

    def discard(self):
        self.port.segs = []


OPS = ("open", "close", "answer", "error", "silent", "lost", "refused open", "refused execute", "gone")


def master(ctx, over="tcp", k=3, is_open=False, ops=OPS, first=None):
    """any history of k operations: the connections of the master are as the last of them says"""
    side = SerialSide(ctx, is_open) if over == "serial" else TcpSide(ctx, over)
    m = side.m
    value = ctx.word("value")
    side.value = value
    opened = False          # the master is known to be open
    known = not is_open     # the state of the connection is known (a port handed over open is not the master's)
    for i in range(k):
        op = first[i] if first is not None and i < len(first) else ctx.pick("op%d" % i, ops)
        before, n = side.made(), side.open_now()
        side.connect_fails(0)
        side.discard()
        if op == "open":
            ex, r = ctx.raises(m.open)
            ctx.check(ex is None, "open succeeds")
            if opened:
                ctx.check(side.made() == before, "open on an open master does nothing")
            if not opened or n:
                ctx.check(side.open_now() == 1, "an open master has one connection")
            opened, known = True, True
        elif op == "close":
            ex, r = ctx.raises(m.close)
            ctx.check(ex is None, "close succeeds")
            if known:
                ctx.check(side.open_now() == 0, "a closed master has released its connection")
            ctx.check(side.made() == before, "close makes no connection")
            opened = False
        elif op in ("answer", "error", "silent", "gone"):
            side.mode = op
            ex, r = ctx.raises(m.execute, 9, 3, 0, 1)
            side.mode = "answer"
            if op == "answer":
                ctx.check(ex is None and ctx.eq(list(r), [value]), "execute opens the connection and returns the answer")
            elif op == "error":
                ctx.check(isinstance(ex, ctx.M.modbus.ModbusError), "execute opens the connection and returns the error")
            else:
                ctx.check(ex is not None, "without an answer execute raises")
            opened, known = True, True
        elif op == "lost":
            side.lose()
        elif op in ("refused open", "refused execute"):
            side.connect_fails(2)
            if op == "refused open":
                ex, r = ctx.raises(m.open)
            else:
                ex, r = ctx.raises(m.execute, 9, 3, 0, 1)
            if not opened and known and before == side.made():
                ctx.check(ex is not None, "a refused connection raises")
        ctx.check(side.open_now() <= 1, "at most one connection is open")
    # whatever happened: the master works again, and closes
    side.connect_fails(0)
    side.discard()
    ex, r = ctx.raises(m.execute, 9, 3, 0, 1)
    ctx.check(ex is None and ctx.eq(list(r), [value]), "the master works after the history")
    ctx.check(side.open_now() == 1, "at most one connection is open")
    m.close()
    ctx.check(side.open_now() == 0, "a closed master has released its connection")
    n = side.made()
    m.close()
    ctx.check(side.open_now() == 0 and side.made() == n, "close on a closed master does nothing")
    ex, r = ctx.raises(m.execute, 9, 3, 0, 1)
    ctx.check(ex is None and ctx.eq(list(r), [value]), "execute reopens a closed master")
    ctx.check(ctx.locks_free(), "locks are released")
    ctx.cover("done")


def tcp_server(ctx, sessions=2, requests=1, bind_fails=0, twice=False, cut=0, leave="idle", stops=2, clients=1):
    """started and stopped again and again: the sockets are closed in between and nothing is handled"""
    net = Net(ctx, 200)
    ctx.env = net
    srv = ctx.keep(ctx.M.modbus_tcp.TcpServer())
    u = ctx.int("unit", 1, 255)
    mem = Memory(ctx, srv.add_slave(u))
    b = mem.words("h", "H", 9, 3)
    conns = []
    fails = [ctx.choice("bind%d" % i, 2) for i in range(sessions)] if bind_fails else [0] * sessions
    for si in range(sessions):
        st = {"n": 0}
        net.fault_on = (lambda s, what: what == "bind")
        if fails[si]:
            net.faults = [[0, lambda: OSError(98, "Address already in use")]]

        def on_idle():
            n = st["n"]
            st["n"] += 1
            if n < requests * clients:
                v = ctx.word("v%d.%d" % (si, n))
                f = tcp_frame(ctx, ctx.word("t%d.%d" % (si, n)), u, struct.pack(">BHH", 6, 9 + n % 3, v))
                c = Sock(net, "c%d.%d" % (si, n), [f])
                c.request = f
                conns.append(c)
                b.vals[n % 3] = v
                net.pending.append(c)
            elif n == requests * clients and cut:
                c = Sock(net, "cut%d" % si, [tcp_frame(ctx, 1, u, struct.pack(">BHH", 6, 9, 0))[:cut]], leave)
                c.request = b""
                conns.append(c)
                net.pending.append(c)
            elif n == requests * clients + 1 and twice:
                ctx.raises(srv.start)
            elif n > requests * clients + 1:
                srv.stop()
        net.on_idle = on_idle
        made = len(net.made)
        ex, r = ctx.raises(srv.start)
        ctx.check(ex is None, "a stopped server can be started")
        live = [t for t in ctx.threads if t._started and not t._done]
        ctx.check(len(live) == 1, "one thread serves")
        for t in live:
            t.run_target()
        net.faults = []
        for i in range(stops - 1):
            ex, r = ctx.raises(srv.stop)
            ctx.check(ex is None, "stopping a stopped server does nothing")
        if fails[si]:
            ctx.cover("bind failed")
            continue
        ctx.check(st["n"] > requests * clients, "the server has served")
        ctx.check(len([s for s in net.made if not s.closed and s.listener]) == 0, "a stopped server does not listen")
        ctx.check(all([c.closed for c in conns]), "a stopped server has closed the connections")
        # a client of the stopped server goes on sending
        for c in conns:
            ctx.check(ctx.eq(c.sent(), c.request), "every request is answered once, nothing is sent to a client after the stop")
            c.feed(tcp_frame(ctx, 1, u, struct.pack(">BHH", 6, 9, 3)))
        mem.same("exactly the requests of the sessions are executed")
    ctx.check(ctx.locks_free(), "locks are released")
    ctx.cover("done")


def rtu_server(ctx, sessions=2, requests=1, is_open=False, open_fails=False, stops=2, cut=0):
    line = Line(ctx, is_open=is_open)
    ctx.env = line
    srv = ctx.keep(ctx.M.modbus_rtu.RtuServer(line))
    line.server = srv
    u = ctx.int("unit", 1, 255)
    mem = Memory(ctx, srv.add_slave(u))
    b = mem.words("h", "H", 9, 3)
    for si in range(sessions):
        fail = ctx.choice("fail%d" % si, 2) if open_fails else 0
        if fail:
            line.open_fails = [True]
        line.written = []
        line.stopped = False
        frames = []

        def step(n):
            def f():
                v = ctx.word("v%d.%d" % (si, n))
                req = rtu_frame(ctx, u, struct.pack(">BHH", 6, 9 + n % 3, v))
                frames.append(req)
                b.vals[n % 3] = v
                line.feed(req)
            return f
        line.steps = [step(n) for n in range(requests)]
        if cut:
            line.steps.append(lambda: line.feed(rtu_frame(ctx, u, struct.pack(">BHH", 6, 9, 5))[:cut]))
        was = line.is_open
        ex, r = ctx.raises(srv.start)
        ctx.check(ex is None, "a stopped server can be started")
        live = [t for t in ctx.threads if t._started and not t._done]
        ctx.check(len(live) == 1, "one thread serves")
        for t in live:
            t.run_target()
        for i in range(stops - 1):
            ex, r = ctx.raises(srv.stop)
            ctx.check(ex is None, "stopping a stopped server does nothing")
        if fail and not was:
            line.open_fails = []
            ctx.check(not line.is_open, "the port of a server that did not start is closed")
            ctx.cover("open failed")
            continue
        line.open_fails = []
        ctx.check(line.stopped, "the server has served")
        ctx.check(not line.is_open, "a stopped server has closed its port")
        want = b""
        for f in frames:
            want = want + f
        ctx.check(ctx.eq(line.sent(), want), "every request is answered once")
        mem.same("exactly the requests of the sessions are executed")
    ctx.check(ctx.locks_free(), "locks are released")
    ctx.cover("done")
