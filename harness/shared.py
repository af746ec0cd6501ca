"""Servers that share a data bank, and the composite server of the simulator (C39)"""
import struct
from harness.common import *
from harness.net import *
from harness.stopping import LiveNet, LiveSock, LivePort, CLIENTS
from harness.threads import World
from harness.simu import servers_of


class Plant(object):
    """a TCP and an RTU server on one data bank, a client of each, the threads of the servers running"""
    _shared_ = True

    def __init__(self, ctx, composite=True, order=0, verbose=0, missing=True):
        M = ctx.M
        self.ctx = ctx
        ctx.threads[:] = []
        self.net = LiveNet(ctx)
        self.port = LivePort(ctx, is_open=False)
        self.net.new_serial = lambda *a, **k: self.port
        ctx.env = self.net
        if composite:
            parts = [(M.modbus_rtu.RtuServer, (self.port,)), (M.modbus_tcp.TcpServer, ())]
            if order:
                parts.reverse()
            self.srv = ctx.keep(M.simulator.CompositeServer([p[0] for p in parts], [p[1] for p in parts]))
            self.members = [self.srv]
            for s in servers_of(ctx, self.srv):
                ctx.keep(s)
        else:
            a = ctx.keep(M.modbus_tcp.TcpServer(error_on_missing_slave=missing))
            b = ctx.keep(M.modbus_rtu.RtuServer(self.port, databank=a.get_db()))
            self.srv = a
            self.members = [b, a] if order else [a, b]
        if verbose:
            for s in self.members:
                s.set_verbose(True)
        self.stopped = False
        self.sessions = 0
        self.client = None
        self.n = 0

    def start(self):
        for s in self.members:
            s.start()
        self.client = LiveSock(self.net, "client%d" % self.sessions)
        self.net.pending = [self.client]
        self.sessions += 1

    def stop(self):
        for s in self.members:
            s.stop()

    def done(self):
        return all([t._done for t in self.ctx.threads if t._started])

    def over_tcp(self, unit, pdu):
        """sends a request and waits for its answer"""
        self.n += 1
        had = len(self.client.sent())
        self.client.feed(tcp_frame(self.ctx, self.n, unit, pdu))
        self.wait(lambda: len(self.client.sent()) > had)
        f = self.client.sent()[had:]
        self.ctx.check(ctx_head(self.ctx, f, self.n, unit), "the answer belongs to the request")
        return f[7:]

    def over_rtu(self, unit, pdu):
        had = len(self.port.sent())
        self.port.feed(rtu_frame(self.ctx, unit, pdu))
        self.wait(lambda: len(self.port.sent()) > had)
        f = self.port.sent()[had:]
        self.ctx.check(self.ctx.eq(f, rtu_frame(self.ctx, unit, f[1:-2])), "the answer is a frame of the unit")
        return f[1:-2]

    def wait(self, pred):
        self.ctx.block(pred, False)


def ctx_head(ctx, f, tid, unit):
    return len(f) > 7 and ctx.eq(f[:7], struct.pack(">HHHB", tid, 0, len(f) - 6, unit))


STEPS = ("tcp write", "rtu write", "tcp read", "rtu read", "set", "get", "new slave", "tcp coil", "rtu coils")


def history(ctx, k=2, composite=True, order=0, verbose=0, first=None, sessions=1, pre=0, steps=STEPS):
    """any history of requests to both servers and local accesses: one memory"""
    unit = 7
    v = [ctx.word("v%d" % i) for i in range(k)]
    ops = [first if first and not i else ctx.pick("op%d" % i, steps) for i in range(k)]
    cells = [ctx.pick("cell%d" % i, (1, 2)) for i in range(k)]

    def make():
        p = Plant(ctx, composite, order, verbose)
        s = p.srv.add_slave(unit)
        p.mem = Memory(ctx, s)
        p.block = p.mem.add("h", "H", 9, [5, 6, 7, 8])
        p.bits = p.mem.add("c", "C", 3, [0, 1, 0])
        p.slave = s
        p.asked = []
        p.right = []
        return p

    def step(p, i):
        op, c, x = ops[i], cells[i], v[i]
        w, b = p.block, p.bits
        if op in ("tcp write", "rtu write"):
            send = p.over_tcp if op[0] == "t" else p.over_rtu
            pdu = struct.pack(">BHH", 6, 9 + c, x)
            p.right.append(ctx.eq(send(unit, pdu), pdu))
            w.vals[c] = x
        elif op in ("tcp read", "rtu read"):
            send = p.over_tcp if op[0] == "t" else p.over_rtu
            got = send(unit, pdu_read(3, 9 + c, 2))
            p.right.append(ctx.eq(got, struct.pack(">BBHH", 3, 4, w.vals[c], w.vals[c + 1])))
        elif op == "set":
            p.slave.set_values("h", 9 + c, x)
            w.vals[c] = x
        elif op == "get":
            p.right.append(ctx.eq(list(p.slave.get_values("h", 9 + c, 1)), [w.vals[c]]))
        elif op == "new slave":
            ex, s = ctx.raises(p.srv.add_slave, 8 + i)
            s.add_block("x", tables(ctx)["I"], 0, 1)
            s.set_values("x", 0, x)
            for send in (p.over_rtu, p.over_tcp):
                p.right.append(ctx.eq(send(8 + i, pdu_read(4, 0, 1)), struct.pack(">BBH", 4, 2, x)))
        elif op == "tcp coil":
            pdu = struct.pack(">BHH", 5, 3 + c, 0xFF00)
            p.right.append(ctx.eq(p.over_tcp(unit, pdu), pdu))
            b.vals[c] = 1
        else:
            p.right.append(ctx.eq(p.over_rtu(unit, struct.pack(">BHHBB", 15, 3, 2, 1, 2)), struct.pack(">BHH", 15, 3, 2)))
            b.vals[0], b.vals[1] = 0, 1

    def main(p):
        for n in range(sessions):
            p.start()
            for i in range(k) if n == sessions - 1 else ():
                step(p, i)
            p.stop()
            p.ended = p.done()
            p.over = [p.net.listening is None or p.net.listening.closed, not p.port.is_open]

    for p in running(ctx, make, main, 2 * sessions, pre):
        ctx.check(ctx.all(p.right), "both servers answer from one memory")
        p.mem.same("every write reaches the one memory")
        ctx.check(len([t for t in ctx.threads if t._started]) == 2 * sessions, "start starts every server")
        ctx.check(p.ended, "stop stops every server")
        ctx.check(all(p.over), "stopped servers have released socket and port")
    ctx.cover("done")


def verbose_of(ctx, order=0):
    """set_verbose of a composite reaches every server, and only while it is on"""
    on = ctx.choice("first", 2)
    v = ctx.word("v")

    def make():
        p = Plant(ctx, True, order)
        p.srv.add_slave(7).add_block("h", tables(ctx)["H"], 0, 3)
        p.counts = []
        return p

    def main(p):
        p.start()
        p.over_tcp(7, pdu_read(3, 0, 1))
        for turn in (on, 1 - on, on):
            p.srv.set_verbose(bool(turn))
            for send in (p.over_tcp, p.over_rtu):
                before = ctx.debugs()
                r = send(7, struct.pack(">BHH", 6, 1, v))
                p.counts.append((turn, ctx.debugs() - before))
        p.stop()
    for p in running(ctx, make, main, 2):
        for i in (0, 1):
            yes = [c for t, c in p.counts[i::2] if t]
            no = [c for t, c in p.counts[i::2] if not t]
            ctx.check(min(yes) > max(no), "a verbose composite logs the requests of every server, another one does not")
    ctx.cover("done")


def running(ctx, make, main, n, pre=0):
    """main() concurrently with the threads the servers start"""
    def thread(i):
        def f(p):
            def free():
                return [t for t in ctx.threads if t._started and not getattr(t, "taken", False)]
            ctx.block(lambda: len(free()) > 0 or p.stopped, False)
            t = free()
            if t:
                t[0].taken = True
                t[0].run_target()
        return f

    def all_of(p):
        try:
            main(p)
        finally:
            p.stopped = True
    for p, r in ctx.interleave(make, [all_of] + [thread(i) for i in range(n)], pre=pre, roots=lambda p: [p.srv], first=0):
        ctx.check(r is not None, "every request is answered and the servers stop")
        for ex, x in r:
            ctx.check(ex is None, "nothing fails")
        yield p
