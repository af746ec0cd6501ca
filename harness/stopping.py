"""Stopping servers and worker threads (C36, C38): the worker and stop() run concurrently, waits of the environment are
modelled (a wait without time limit that nothing ends is a deadlock), the schedule is symbolic."""
import struct
from harness.common import *
from harness.net import *
from harness.rtu import Port
from harness.threads import World


class LiveSock(Sock):
    """a connection; drip: bytes that arrive only while somebody waits for them; stuck: what is sent is never read"""
    drip = 0
    stuck = False
    endless = None

    def arrive(self):
        if self.endless is not None and len(self.cur) == 0 and len(self.segs) == 0:
            self.segs = [self.endless]
        Sock.arrive(self)

    def readable(self):
        return self.endless is not None or Sock.readable(self)

    def recv(self, n, flags=0):
        self.net.count("recv")
        if self.endless is not None:
            self.arrive()
        if len(self.cur) == 0 and len(self.segs) == 0 and self.end == "idle" and not self.closed:
            if self.timeout is None:
                self.net.ctx.block(lambda: len(self.segs) > 0, False)
            elif self.timeout > 0:
                self.net.ctx.block(lambda: len(self.segs) > 0, True)
                if self.drip > 0:
                    self.drip -= 1
                    self.segs = [b"\0"]
        return Sock.recv(self, n, flags)

    def _gone(self):
        Sock._gone(self)
        if self.stuck:
            if self.timeout is None:
                self.net.ctx.block(lambda: False, False)
            self.net.ctx.block(lambda: False, True)
            raise TIMEOUT("timed out")


class LiveNet(Net):
    def __init__(self, ctx):
        Net.__init__(self, ctx, 10000)
        self.after = None       # operations since stop() has told the thread to end
        self.waits = 0
        self.selects = 0

    def count(self, what):
        if self.after is not None:
            self.after[what] = self.after.get(what, 0) + 1
            self.ctx.check(self.after[what] <= 60, "the server ends after stop")

    def op(self, sock, what):
        self.ctx.point()
        Net.op(self, sock, what)

    def new_socket(self, *a, **k):
        s = LiveSock(self, "made%d" % len(self.made))
        s.connected = False
        self.made.append(s)
        return s

    def select(self, r, w=(), x=(), timeout=None):
        self.ctx.point()
        self.count("select")
        self.rounds = 0
        self.selects += 1

        def ready():
            return any([s.closed or s.readable() for s in r])
        if timeout is None:
            self.ctx.block(ready, False)
        elif timeout > 0 and not ready():
            self.ctx.block(ready, True)
        elif self.selects > 3:
            # busy for ever: a fair scheduler lets the other threads run
            self.ctx.block(lambda: False, True)
        return Net.select(self, r, w, x, timeout)


class LivePort(Port):
    """like a POSIX pyserial port: cancel_read() ends the pending or the next read"""
    cancel = False
    endless = None
    feeds = 0
    after = None

    def count(self, what):
        if self.after is not None:
            self.after[what] = self.after.get(what, 0) + 1
            self.ctx.check(self.after[what] <= 20, "the server ends after stop")

    def cancel_read(self):
        self._live()
        self.ctx.point()
        self.cancel = True

    def open(self):
        self.ctx.point()
        Port.open(self)
        self.cancel = False

    def read(self, size=1):
        self.ctx.point()
        self.count("read")
        self.max_reads = 100
        if not self.is_open:
            return Port.read(self, size)
        if self.cancel:
            self.cancel = False
            return b""
        if self.endless is not None:
            self.feeds += 1
            if len(self.segs) == 0:
                self.segs = [self.endless]
            if self.feeds > 3:
                self.ctx.block(lambda: False, True)
                self.feeds = 0
            return Port.read(self, size)
        if len(self.segs) == 0:
            if self.timeout is None:
                self.ctx.block(lambda: len(self.segs) > 0 or self.cancel or not self.is_open, False)
                if self.cancel:
                    self.cancel = False
                    return b""
            elif self.timeout > 0:
                self.ctx.block(lambda: len(self.segs) > 0 or self.cancel or not self.is_open, True)
        return Port.read(self, size)


def serve_thread(ctx, w):
    """the body of the next thread that the server starts, when it is started"""
    def free():
        return [t for t in ctx.threads if t._started and not getattr(t, "taken", False)]
    if not free():
        ctx.block(lambda: len(free()) > 0 or w.no_more, False)
    t = free()
    if not t:
        return "none"
    t[0].taken = True
    t[0].run_target()
    return "ended"


CLIENTS = {
    "none": lambda w, net: [],
    "idle": lambda w, net: [LiveSock(net, "c")],
    "request": lambda w, net: [LiveSock(net, "c", [w.req])],
    "two": lambda w, net: [LiveSock(net, "c", [w.req]), LiveSock(net, "d", [w.req])],
    "cut": lambda w, net: [LiveSock(net, "c", [w.req[:9]])],
    "cut header": lambda w, net: [LiveSock(net, "c", [w.req[:3]])],
    "gone": lambda w, net: [LiveSock(net, "c", [w.req[:9]], "eof")],
    "reset": lambda w, net: [LiveSock(net, "c", [w.req[:9]], "reset")],
    "drip": lambda w, net: [dripping(net, w.req[:7])],
    "stuck": lambda w, net: [stuck(net, w.req)],
    "endless": lambda w, net: [endless(net, w.req)],
    "two endless": lambda w, net: [endless(net, w.req), endless(net, w.req)],
}


def dripping(net, data):
    s = LiveSock(net, "c", [data])
    s.drip = 20
    return s


def stuck(net, data):
    s = LiveSock(net, "c", [data])
    s.stuck = True
    return s


def endless(net, data):
    s = LiveSock(net, "c", [data])
    s.endless = data
    return s


def tcp(ctx, client="idle", pre=1, stops=1, again=0, timeout=1):
    """stop() of a serving TcpServer, at any moment, whatever a client does"""
    M = ctx.M
    val = ctx.word("v")
    req = tcp_frame(ctx, 1, 7, struct.pack(">BHH", 6, 9, val))

    def make():
        ctx.threads[:] = []
        w = World()
        w._shared_ = True
        w.no_more = False
        w.req = req
        w.net = LiveNet(ctx)
        ctx.env = w.net
        w.srv = ctx.keep(M.modbus_tcp.TcpServer(timeout_in_sec=timeout))
        w.handled = []
        w.srv.add_slave(7).add_block("h", tables(ctx)["H"], 0, 20)
        w.clients = CLIENTS[client](w, w.net)
        w.net.pending = list(w.clients)

        def joined(t):
            if w.net.after is None:
                w.net.after = {}
            w.joins = getattr(w, "joins", 0) + 1
        ctx.join_hook = joined
        w.srv.start()
        return w

    def stop(w):
        w.srv.stop()
        if again:
            w.net.after = None
            w.ended = done(w)
            w.srv.start()
            w.srv.stop()
        w.no_more = True
        return True

    def done(w):
        return all([t._done for t in ctx.threads if t._started])
    ops = [lambda w: serve_thread(ctx, w)] + [stop] * stops + [lambda w: serve_thread(ctx, w)
                                                                  for i in range(again)]
    for w, r in ctx.interleave(make, ops, pre=pre, roots=lambda w: [w.srv]):
        ctx.join_hook = None
        ctx.check(r is not None, "stop returns and the server ends")
        ctx.check(ctx.left_locked == 0, "no lock stays held")
        for ex, x in r:
            ctx.check(ex is None, "stop succeeds")
        ctx.check(done(w), "the thread of the server has ended")
        ctx.check(all([s.closed for s in w.net.made]), "a stopped server does not listen")
        ctx.check(all([s.closed for s in w.clients if s.accepted]), "a stopped server has closed the connections")
        if again:
            ctx.check(w.ended, "stop returns after the thread has ended")
        after(ctx, w.net.after, len(w.clients) + 1)
        # and it can be started again
        n = len(w.net.made)
        ex, x = ctx.raises(w.srv.start)
        ctx.check(ex is None, "a stopped server can be started")
    ctx.cover("done")


def after(ctx, counts, n):
    if counts is not None:
        ctx.check(counts.get("select", 0) <= 1, "the server ends after the requests in progress")


RTU_CLIENTS = ("none", "request", "cut", "noise", "two", "endless")


def rtu(ctx, client="none", pre=1, stops=1, again=0, is_open=True):
    """stop() of a serving RtuServer, at any moment, whatever arrives on the line"""
    M = ctx.M
    val = ctx.word("v")
    req = rtu_frame(ctx, 7, struct.pack(">BHH", 6, 9, val))
    noise = ctx.bytes("noise", 3)

    def make():
        ctx.threads[:] = []
        w = World()
        w._shared_ = True
        w.no_more = False
        p = w.port = LivePort(ctx, is_open=is_open)
        ctx.env = p
        w.srv = ctx.keep(M.modbus_rtu.RtuServer(p))
        w.srv.add_slave(7).add_block("h", tables(ctx)["H"], 0, 20)
        if client == "request":
            p.feed(req)
        elif client == "cut":
            p.feed(req[:5])
        elif client == "noise":
            p.feed(noise)
        elif client == "two":
            p.feed(req, b"", req)
        elif client == "endless":
            p.endless = req

        def joined(t):
            if p.after is None:
                p.after = {}
        ctx.join_hook = joined
        w.srv.start()
        return w

    def done(w):
        return all([t._done for t in ctx.threads if t._started])

    def stop(w):
        w.srv.stop()
        if again:
            w.port.after = None
            w.ended = done(w)
            w.srv.start()
            w.srv.stop()
        w.no_more = True
        return True
    ops = [lambda w: serve_thread(ctx, w)] + [stop] * stops + [lambda w: serve_thread(ctx, w)
                                                                  for i in range(again)]
    for w, r in ctx.interleave(make, ops, pre=pre, roots=lambda w: [w.srv]):
        ctx.join_hook = None
        ctx.check(r is not None, "stop returns and the server ends")
        ctx.check(ctx.left_locked == 0, "no lock stays held")
        for ex, x in r:
            ctx.check(ex is None, "stop succeeds")
        ctx.check(done(w), "the thread of the server has ended")
        ctx.check(not w.port.is_open, "a stopped server has closed its port")
        if again:
            ctx.check(w.ended, "stop returns after the thread has ended")
        if w.port.after is not None:
            ctx.check(w.port.after.get("read", 0) <= 6, "the server ends after the request in progress")
        ex, x = ctx.raises(w.srv.start)
        ctx.check(ex is None, "a stopped server can be started")
    ctx.cover("done")


def worker(ctx, init="ok", fails=0, exit_fails=False, pre=1, stops=1, work=2, args=()):
    """utils.WorkerThread: init once, main until stop (or a failure), exit once, stop returns"""
    M = ctx.M
    given = tuple([ctx.word("arg%d" % i) for i in range(len(args))])
    fail_at = ctx.choice("fail", fails) if fails else None

    def make():
        ctx.threads[:] = []
        w = World()
        w._shared_ = True
        w.no_more = False
        w.log = []
        w.after = None
        w.right = True

        def step(name, bad):
            def f(*a):
                ctx.point()
                w.right = w.right and ctx.eq(list(a), list(given))
                w.log.append(name)
                if w.after is not None:
                    w.after += 1
                    ctx.check(w.after <= 4, "the thread ends after stop")
                if bad():
                    raise ValueError(name)
                if name == "main":
                    # waits for something, some time
                    ctx.block(lambda: False, True)
            return f
        w.worker = M.utils.WorkerThread(
            step("main", lambda: fail_at is not None and w.log.count("main") == fail_at + 1), given,
            None if init == "none" else step("init", lambda: init == "fails"),
            step("exit", lambda: exit_fails))

        def joined(t):
            if w.after is None:
                w.after = 0
        ctx.join_hook = joined
        w.worker.start()
        return w

    def run(w):
        t = [t for t in ctx.threads if t._started]
        ctx.check(len(t) == 1, "one thread is started")
        ex, r = ctx.raises(t[0].run_target)
        ctx.check(ex is None or exit_fails, "a failure does not leave the thread")

    def stop(w):
        w.worker.stop()
        w.seen = list(w.log)
    for w, r in ctx.interleave(make, [run] + [stop] * stops, pre=pre, roots=lambda w: [w.worker]):
        ctx.join_hook = None
        ctx.check(r is not None, "stop returns and the thread ends")
        for ex, x in r:
            ctx.check(ex is None, "stop succeeds")
        ctx.check(w.right, "the functions get the arguments")
        log = list(w.log)
        if init != "none":
            ctx.check(len(log) > 0 and log[0] == "init" and log.count("init") == 1, "init is called once, first")
            log = log[1:]
        ctx.check(len(log) > 0 and log[-1] == "exit" and log.count("exit") == 1, "exit is called once, at the end")
        ctx.check(all([x == "main" for x in log[:-1]]), "main is called in between")
        if init == "fails":
            ctx.check(len(log) == 1, "main is not called when init has failed")
        if fail_at is not None:
            ctx.check(log.count("main") <= fail_at + 1, "main is not called again after a failure")
        ctx.check(w.seen == w.log, "nothing is called after stop has returned")
        if w.after is not None:
            ctx.check(w.after <= 2, "the thread ends after the call in progress")
    ctx.cover("done")
