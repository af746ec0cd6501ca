"""The console of the simulator, and the simulator as a whole with its threads (C32)"""
import struct
import sys
from harness.common import *
from harness.simu import COMMANDS, Bench, Enough, Wire, build, client, setup, state
from harness.shared import ctx_head
from harness.stopping import LiveNet, LiveSock


class Out(object):
    """what the simulator writes on the console"""

    def __init__(self):
        self.items = []

    def write(self, t):
        self.items.append(t)
        return 0

    def flush(self):
        pass

    def text(self):
        r = ""
        for x in self.items:
            r = r + x
        return r


class In(object):
    """what the user types"""

    def __init__(self, lines):
        self.lines = list(lines)

    def readline(self, *a):
        return self.lines.pop(0) if self.lines else ""

    def __iter__(self):
        return self

    def __next__(self):
        if not self.lines:
            raise StopIteration()
        return self.lines.pop(0)

    def fileno(self):
        return 0


class typed(object):
    """with typed(lines) as out: the console"""

    def __init__(self, lines):
        self.stdin = In(lines)
        self.out = Out()

    def __enter__(self):
        self.saved = sys.stdin, sys.stdout
        sys.stdin, sys.stdout = self.stdin, self.out
        return self

    def __exit__(self, *a):
        sys.stdin, sys.stdout = self.saved


class ConsoleBench(Bench):
    """the console thread runs alone; the command loop works while it waits for an answer"""
    con = None
    idle = 0

    def select(self, r, w, x, *t):
        self.ctx.check(len(r) == 1 and len(w) == 0, "the console is watched")
        if self.idle:
            self.idle -= 1
            return [], [], []
        if self.con.stdin.lines:
            return list(r), [], []
        # the simulator ends
        self.ctx.raises(self.sim.console.close)
        return [], [], []


def commands(ctx, k=1, ops=COMMANDS, nvals=2, first=None):
    """every line typed on the console has the effect of the API call and its answer is written"""
    cells = [ctx.word("cell%d" % i) for i in range(3)]
    bench = ConsoleBench(ctx)
    twin = ctx.keep(ctx.M.modbus_tcp.TcpServer())
    setup(ctx, bench.srv, cells)
    setup(ctx, twin, cells)
    ids = [1, 2]
    lines, apis, names = [], [], []
    for j in range(k):
        op = first if first and not j else ctx.pick("op%d" % j, ops)
        text, api, unit = build(ctx, op, "c%d" % j, nvals)
        ids.append(unit)
        lines.append(text + ctx.pick("end", ("\n", "\r\n")))
        apis.append(api)
        names.append(op)
    last = ctx.pick("last", ("known", "unknown", "quit"))
    if last != "known":
        lines.append("quit\n" if last == "quit" else "quiz\n")
    bench.idle = ctx.choice("idle", 2)
    with typed(lines) as con:
        bench.con = con
        ex, _ = ctx.raises(bench.sim.console.run)
    ctx.check(ex is None, "the console serves every line and ends when it is closed")
    out = con.out.items
    ctx.observe("out", con.out.text())
    ctx.check(len(out) == len(lines), "one answer is written for every line")
    for op, api, answer in zip(names, apis, out):
        ex, want = ctx.raises(api, twin)
        if ex is None:
            good = op + " done: "
            ctx.check(answer.startswith(good), "a command that succeeds is answered by its name and done")
            if want is not None:
                ctx.check(ctx.eq(answer[len(good):].rstrip("\r\n"), want), "the answer carries the result")
        else:
            ctx.check(answer.startswith(op + " error: "), "a command that fails is answered by its name and error")
        ctx.check(answer.endswith("\n"), "every answer is a line")
    if last == "unknown":
        ctx.check("error" in out[-1], "an unknown command is answered by an error")
    ctx.check(bench.ended == (last == "quit"), "the simulator runs until quit")
    ctx.check(ctx.eq(state(ctx, bench.srv, ids), state(ctx, twin, ids)), "exactly the effect of the API calls")
    ctx.cover("done")


class Both(object):
    """the command loop, the console and a client of the RPC interface at work"""
    _shared_ = True

    def __init__(self, ctx, cells):
        self.ctx = ctx
        ctx.env = self
        M = ctx.M
        self.srv = ctx.keep(M.modbus_tcp.TcpServer())
        self.sim = M.simulator.Simulator(self.srv)
        del self.sim.inq.items[:]
        del self.sim.outq.items[:]
        setup(ctx, self.srv, cells)
        self.busy = 2
        self.con = None
        self.wire = None

    def queue_get(self, q):
        if q is self.sim.inq:
            self.ctx.block(lambda: len(q.items) > 0 or self.busy == 0, False)
            if not q.items:
                raise Enough()
        else:
            self.ctx.block(lambda: len(q.items) > 0, False)
        return q.items.pop(0)

    def select(self, r, w, x, *t):
        if self.con.stdin.lines:
            return list(r), [], []
        raise Enough()

    def console(self):
        try:
            self.sim.console.run()
        except Enough:
            pass
        finally:
            self.busy -= 1

    def remote(self, line):
        self.wire = Wire(self.ctx, [line], "eof")
        try:
            self.ctx.M.simulator.RpcHandler(self.wire, ("client", 1), None)
        finally:
            self.busy -= 1

    def loop(self):
        loop = getattr(self.sim, "_handle", None)
        if loop is None:
            for t in self.ctx.threads:
                t._started = True
            loop = self.sim.start
        try:
            loop()
        except Enough:
            pass


def together(ctx, pre=1, first=0, same=True):
    """a command typed while a client sends one: each gets its own answer"""
    ctx.text_mode()
    a, b, c = [ctx.word("cell%d" % i) for i in range(3)]
    typed_lines = ["get_values 1 b 10 1\n", "get_values 1 b 12 1\n"]
    line = b"get_values 1 b 11 1\n" if same else b"has_slave 1\n"

    def make():
        return Both(ctx, [a, b, c])
    with typed([]) as con:
        def on_console(w):
            w.con = con
            w.console()

        def made():
            con.stdin.lines[:] = typed_lines
            con.out.items[:] = []
            return make()
        for w, r in ctx.interleave(made, [on_console, lambda w: w.remote(line), lambda w: w.loop()], pre=pre,
                                   roots=lambda w: [w.srv, w.sim], first=first):
            ctx.check(r is not None, "every command is answered")
            ctx.check(all([x[0] is None for x in r]), "nothing fails")
            ctx.check(ctx.eq(con.out.text(), "get_values done: " + "%d" % a + "\r\n" + "get_values done: " + "%d" % c + "\r\n"),
                      "the console shows the answers of its commands")
            ctx.check(ctx.eq(w.wire.sent(), ("get_values done: " + "%d" % b + "\r\n").encode("ascii") if same else
                             b"has_slave done: 1\r\n"), "the client gets the answer of its command")
    ctx.cover("done")


class Session(LiveNet):
    """the simulator with all its threads, a user at the console, RPC clients and a Modbus client"""
    _shared_ = True

    def __init__(self, ctx):
        LiveNet.__init__(self, ctx)
        M = ctx.M
        ctx.threads[:] = []
        ctx.env = self
        self.srv = ctx.keep(M.modbus_tcp.TcpServer())
        self.sim = M.simulator.Simulator(self.srv)
        del self.sim.inq.items[:]
        del self.sim.outq.items[:]
        self.rpc_waiting = []
        self.rpc_state = "new"
        self.next_socket = None
        self.con = None
        self.stopped = False
        self.gone = False
        self.client = LiveSock(self, "client")
        self.pending = [self.client]
        self.n = 0

    # the environment of the simulator
    def new_socket(self, *a, **k):
        if self.next_socket is not None:
            s, self.next_socket = self.next_socket, None
            return s
        return LiveNet.new_socket(self, *a, **k)

    def queue_get(self, q):
        self.ctx.block(lambda: len(q.items) > 0, False)
        return q.items.pop(0)

    def select(self, r, w=(), x=(), timeout=None):
        if len(r) == 1 and r[0] is self.con.stdin:
            self.ctx.point()
            self.ctx.block(lambda: len(self.con.stdin.lines) > 0, True)
            return (list(r) if self.con.stdin.lines else []), [], []
        return LiveNet.select(self, r, w, x, timeout)

    def serve_forever(self, server):
        self.rpc_state = "serving"
        while True:
            self.ctx.block(lambda: len(self.rpc_waiting) > 0 or self.gone, False)
            if self.gone:
                break
            down = self.rpc_waiting.pop(0)
            server.handler(down, ("client", 1), server)
            down.closed = True
        self.rpc_state = "ended"

    def shutdown(self, server):
        self.gone = True
        self.ctx.block(lambda: self.rpc_state == "ended", False)

    # the users
    def type(self, line):
        n = len(self.con.out.items)
        self.con.stdin.lines.append(line)
        self.ctx.block(lambda: len(self.con.out.items) > n, False)
        return self.con.out.items[n]

    def raw(self, query):
        down = Wire(self.ctx, [query], "eof")
        self.rpc_waiting.append(down)
        self.ctx.block(lambda: down.closed, False)
        return down.sent()

    def call(self, f, *a):
        up = Wire(self.ctx)

        def exchange():
            if up.out:
                query, up.out = up.sent(), []
                r = self.raw(query)
                if r:
                    up.incoming.append(r)
                up.end = "eof"
        up.on_recv = exchange
        self.next_socket = up
        return self.ctx.raises(f, *a)

    def modbus(self, unit, pdu):
        self.n += 1
        had = len(self.client.sent())
        self.client.feed(tcp_frame(self.ctx, self.n, unit, pdu))
        self.ctx.block(lambda: len(self.client.sent()) > had, False)
        f = self.client.sent()[had:]
        self.ctx.check(ctx_head(self.ctx, f, self.n, unit), "the answer belongs to the request")
        return f[7:]


def session(ctx, pre=0, leave="console"):
    """the simulator from its start to its end: console, RPC and Modbus act on the same slaves, quit ends everything"""
    ctx.text_mode()
    v, w, x = [ctx.word("v%d" % i) for i in range(3)]
    with typed([]) as con:
        def make():
            con.stdin.lines[:] = []
            con.out.items[:] = []
            s = Session(ctx)
            s.con = con
            return s

        def main(s):
            s.sim.start()
            s.sim.close()
            s.stopped = True

        def user(s):
            cl = client(ctx, timeout=0.25)
            ctx.block(lambda: s.rpc_state == "serving", False)
            ctx.check(s.type("add_slave 1\n") == "add_slave done: 1\r\n", "the slave is added")
            ex, r = s.call(cl.add_block, 1, "b", tables(ctx)["H"], 10, 2)
            ctx.check(ex is None, "the block is added")
            ex, r = s.call(cl.set_values, 1, "b", 10, [v, w])
            ctx.check(ex is None, "the values are set")
            ctx.check(ctx.eq(s.modbus(1, struct.pack(">BHH", 3, 10, 2)), struct.pack(">BBHH", 3, 4, v, w)),
                      "what a client sets a master reads")
            ctx.check(ctx.eq(s.modbus(1, struct.pack(">BHH", 6, 11, x)), struct.pack(">BHH", 6, 11, x)),
                      "a master writes")
            ctx.check(ctx.eq(s.type("get_values 1 b 10 2\n"), "get_values done: " + "%d" % v + " " + "%d" % x + "\r\n"),
                      "what a master writes is shown")
            ex, r = s.call(cl.remove_slave, 9)
            ctx.check(ex is not None, "an error is raised")
            ctx.check(not s.stopped, "the simulator runs until quit")
            if leave == "console":
                ctx.check(s.type("quit\n").startswith("bye"), "quit is answered")
            else:
                ctx.check(s.raw(b"quit\n").startswith(b"bye"), "quit is answered")

        def thread(i):
            def f(s):
                def free():
                    return [t for t in ctx.threads if t._started and not getattr(t, "taken", False)]
                ctx.block(lambda: len(free()) > 0 or s.stopped, False)
                t = free()
                if t:
                    t[0].taken = True
                    t[0].run_target()
            return f
        for s, r in ctx.interleave(make, [main, user] + [thread(i) for i in range(3)], pre=pre,
                                   roots=lambda s: [s.srv, s.sim], first=0, limit=80):
            ctx.check(r is not None, "every command is answered and the simulator ends")
            for ex, _ in r:
                ctx.check(ex is None, "nothing fails")
            ctx.check(s.stopped and s.rpc_state == "ended" and all([t._done for t in ctx.threads if t._started]),
                      "quit ends the simulator and its threads")
            ctx.check(s.client.closed and all([k.closed for k in s.made]), "the connections are closed")
    ctx.cover("done")
