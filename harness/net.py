"""A small network: sockets with scripted input, nondeterministic splits, short sends and faults.  It is the environment of
C20-C23, C31 and C33; the code under test sees it through the socket and select stubs."""
import socket as real_socket
import errno

TIMEOUT = real_socket.timeout
MSG_PEEK = real_socket.MSG_PEEK


class Idle(Exception):
    pass


class Net(object):
    def __init__(self, ctx, max_rounds=60):
        self.ctx = ctx
        self.made = []              # every socket the code created
        self.rounds = 0
        self.max_rounds = max_rounds
        self.on_idle = None         # called when nothing is ready
        self.pending = []           # connections waiting at the listening socket
        self.listening = None
        self.faults = []            # [countdown, exception factory]
        self.fault_on = None        # predicate (socket, operation) of the operations that may fail
        self.faulted = []
        self.connect_fails = []     # per connect: True when it is refused
        self.peer = None            # called with (socket, bytes) for what the code sends
        self.on_wait = None         # called with the socket on which a receive would wait
        self.armed = True           # scripted hooks may raise
        self.shorts = 0             # how many sends may be short
        self.clock = 1000.0
        self.readonly_order = False

    def time(self):
        self.clock += 0.001
        return self.clock

    def sleep(self, d):
        self.clock += d

    def new_socket(self, *a, **k):
        s = Sock(self, "made%d" % len(self.made))
        s.connected = False
        self.made.append(s)
        return s

    def op(self, sock, what):
        """one socket operation; a scripted fault strikes here"""
        if self.fault_on is not None and self.faults and self.fault_on(sock, what):
            f = self.faults[0]
            if f[0] == 0:
                self.faults.pop(0)
                self.faulted.append((sock.name, what))
                raise f[1]()
            f[0] -= 1

    def select(self, r, w=(), x=(), timeout=None):
        for s in list(r) + list(w) + list(x):
            if s.closed:
                raise ValueError("file descriptor cannot be a negative integer (-1)")
        ready = [s for s in r if s.readable()]
        writable = [s for s in w if s.connected]
        for s in ready:
            s.arrive()
        if timeout is not None and timeout == 0:
            return ready, writable, []
        self.rounds += 1
        if self.rounds > self.max_rounds:
            self.ctx.fail("the server spins without making progress")
        if not ready and self.on_idle is not None:
            self.on_idle()
        return ready, writable, []


def refused():
    return ConnectionRefusedError(errno.ECONNREFUSED, "refused")


def reset():
    return ConnectionResetError(errno.ECONNRESET, "reset")


class Sock(object):
    """end: what follows the scripted input: 'idle' (nothing more arrives), 'eof' or 'reset'"""

    def __init__(self, net, name, segs=(), end="idle"):
        self.net = net
        self.name = name
        self.cur = b""
        self.segs = [s for s in segs if len(s)]
        self.end = end
        self.closed = False
        self.timeout = None
        self.out = []
        self.connected = True
        self.listener = False
        self.peer_gone = False
        self.eofs = 0
        self.number = 3 + len(net.made)
        self.accepted = False

    # ---- the world
    def feed(self, *segs):
        self.segs = self.segs + [s for s in segs if len(s)]

    def readable(self):
        if self.listener:
            return len(self.net.pending) > 0
        return not self.connected or len(self.cur) > 0 or len(self.segs) > 0 or self.end != "idle"

    def arrive(self):
        if not self.listener and len(self.cur) == 0 and len(self.segs) > 0:
            self.cur = self.segs[0]
            self.segs = self.segs[1:]

    def left(self):
        r = b"" + self.cur
        for s in self.segs:
            r = r + s
        return r

    def sent(self):
        r = b""
        for c in self.out:
            r = r + c
        return r

    # ---- the interface of a socket
    def _live(self, what):
        if self.closed:
            raise OSError(errno.EBADF, "Bad file descriptor")
        self.net.op(self, what)

    def fileno(self):
        return -1 if self.closed else self.number

    def setblocking(self, b):
        self._live("setblocking")
        self.timeout = None if b else 0.0

    def settimeout(self, t):
        self._live("settimeout")
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setsockopt(self, *a):
        self._live("setsockopt")

    def getsockopt(self, *a):
        return 0

    def getpeername(self):
        self._live("getpeername")
        return (self.name, 1)

    def getsockname(self):
        self._live("getsockname")
        return ("local", 1)

    def bind(self, a):
        self._live("bind")
        self.address = a

    def listen(self, n=0):
        self._live("listen")
        self.listener = True
        self.net.listening = self

    def connect(self, a):
        self._live("connect")
        if self.net.connect_fails and self.net.connect_fails.pop(0):
            raise refused()
        self.address = a
        self.connected = True

    def accept(self):
        self._live("accept")
        if not self.net.pending:
            raise BlockingIOError(errno.EAGAIN, "nothing to accept")
        c = self.net.pending.pop(0)
        if isinstance(c, Exception):
            raise c
        c.accepted = True
        return c, (c.name, 1)

    def recv(self, n, flags=0):
        self._live("peek" if flags else "recv")
        self._conn()
        if len(self.cur) == 0 and len(self.segs) > 0 and self.timeout != 0:
            self.arrive()
        if len(self.cur) == 0 and self.net.on_wait is not None:
            self.net.on_wait(self)
            self.arrive()
        if len(self.cur) == 0:
            if self.end == "eof" and not self.segs:
                self.eofs += 1
                if self.eofs > 40:
                    self.net.ctx.fail("receives at the end of the stream for ever")
                return b""
            if self.end == "reset" and not self.segs:
                raise reset()
            if self.timeout is None:
                self.net.ctx.fail("a receive without any timeout waits for a silent peer for ever")
            if self.timeout == 0:
                raise BlockingIOError(errno.EAGAIN, "would block")
            raise TIMEOUT("timed out")
        if n >= len(self.cur):
            k = len(self.cur)
        else:
            k = self.net.ctx.concrete(n)
        data = self.cur[:k]
        if not flags & MSG_PEEK:
            self.cur = self.cur[k:]
        return data

    def recv_into(self, buf, n=0, flags=0):
        d = self.recv(n or len(buf), flags)
        buf[:len(d)] = d
        return len(d)

    def send(self, data, flags=0):
        self._live("send")
        self._gone()
        k = len(data)
        if self.net.shorts > 0 and k > 1:
            c = self.net.ctx.choice("short", 3)
            if c:
                self.net.shorts -= 1
                k = 1 if c == 1 else k - 1
        self._put(data[:k])
        return k

    def sendall(self, data, flags=0):
        self._live("send")
        self._gone()
        self._put(data)

    def _conn(self):
        if not self.connected:
            raise OSError(errno.ENOTCONN, "not connected")

    def _gone(self):
        self._conn()
        if self.peer_gone:
            raise BrokenPipeError(errno.EPIPE, "broken pipe")

    def _put(self, data):
        self.out.append(data)
        if self.net.peer is not None:
            self.net.peer(self, data)

    def shutdown(self, how):
        self._live("shutdown")

    def close(self):
        was = self.closed
        self.closed = True
        if not was:
            self.net.op(self, "close")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


def split(ctx, data, cuts, tag="cut"):
    """data in pieces: up to `cuts` cut positions"""
    n = len(data)
    pos = []
    lo = 0
    for i in range(cuts):
        p = lo + ctx.choice(tag + str(i), n - lo + 1)
        pos.append(p)
        lo = p
    out = []
    a = 0
    for p in pos + [n]:
        if p > a:
            out.append(data[a:p])
        a = p
    return out


class Served(object):
    """a TcpServer running on a Net until nothing is ready any more"""

    def __init__(self, ctx, net, **kw):
        self.ctx = ctx
        self.net = net
        ctx.env = net
        before = len(ctx.threads)
        self.srv = ctx.keep(ctx.M.modbus_tcp.TcpServer(**kw))
        self.before = before

    def run(self, idle=None):
        """starts the server, runs its thread; idle() is called when nothing is ready and returns False to stop"""
        srv = self.srv

        def on_idle():
            if idle is None or not idle():
                srv.stop()
        self.net.on_idle = on_idle
        srv.start()
        live = [t for t in self.ctx.threads[self.before:] if t._started and not t._done]
        for t in live:
            t.run_target()
        self.ended = len(live)
