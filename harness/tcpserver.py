"""TcpServer over the scripted network: C21 (reassembly) and C22 (faults)"""
import struct
from harness.common import *
from harness.net import *


def frame(ctx, tag, n):
    """a request frame of n bytes with a right length field, everything else arbitrary"""
    h = ctx.bytes(tag + ".h", 4)
    return h + struct.pack(">H", n - 6) + ctx.bytes(tag + ".b", n - 6)


def recorder(ctx, seen, replies, fail=None):
    """a data bank that records the requests and gives prescribed answers"""
    class Recorder(ctx.M.modbus.Databank):
        def handle_request(self, query, request):
            seen.append(request)
            if fail is not None and fail[0] == len(seen):
                raise fail[1]
            return replies(len(seen) - 1)
    return Recorder()


def flat(seen):
    r = b""
    for s in seen:
        r = r + s
    return r


def stream(ctx, sizes=(9, 10), cuts=2, end="idle", truncate=False, k=5, shorts=0, verbose=False):
    """consecutive frames in one stream, split anywhere, possibly ending anywhere"""
    frames = [frame(ctx, "f%d" % i, n) for i, n in enumerate(sizes)]
    data = flat(frames)
    done = len(frames)
    if truncate:
        t = ctx.choice("length", len(data) + 1)
        data = data[:t]
        done = 0
        while done < len(frames) and sum(sizes[:done + 1]) <= t:
            done += 1
    net = Net(ctx)
    net.shorts = shorts
    a = Sock(net, "a", split(ctx, data, cuts), end)
    net.pending.append(a)
    reps = [ctx.bytes("r%d" % i, k + i) for i in range(len(frames))]
    seen = []
    last = frame(ctx, "late", 8)
    late_rep = ctx.bytes("rlate", k)
    b = Sock(net, "b")

    def replies(i):
        if i < len(reps):
            return reps[i]
        return late_rep
    s = Served(ctx, net, databank=recorder(ctx, seen, replies))
    s.srv.set_verbose(verbose)
    state = []

    def idle():
        if len(state) == 0:
            state.append(len(seen))
            net.shorts = 0
            reps[:] = reps[:len(seen)]
            b.feed(last)
            net.pending.append(b)
            return True
        return False
    s.run(idle)
    ctx.check(len(state) == 1, "the server keeps running")
    ctx.observe("seen", list(seen))
    ctx.check(state[0] == done, "exactly the complete frames are executed")
    ctx.check(ctx.eq(flat(seen[:done]), flat(frames[:done])), "the frames are executed as they were sent, in order")
    ctx.check(ctx.eq(a.sent(), flat(reps[:done])), "every answer is sent completely, in order")
    ctx.check(len(seen) == done + 1 and ctx.eq(seen[-1], last), "another client's request is executed")
    ctx.check(ctx.eq(b.sent(), late_rep), "another client is answered")
    if end == "eof":
        ctx.check(a.closed, "a connection that has ended is closed")
    ctx.cover("done")


def any_stream(ctx, n=12, maxlen=8):
    """any n bytes (length fields of 1..maxlen): exactly the complete frames in it are executed"""
    data = ctx.bytes("d", n)
    net = Net(ctx)
    a = Sock(net, "a", [data], "eof")
    net.pending.append(a)
    seen = []
    s = Served(ctx, net, databank=recorder(ctx, seen, lambda i: b""))
    want = []
    p = 0
    while p + 6 <= n:
        ln = data[p + 4] * 256 + data[p + 5]
        ctx.assume(ln >= 1)
        ctx.assume(ctx.any([ln <= maxlen, ln > n]))
        if ln > n:
            break
        ln = ctx.concrete(ln)
        if p + 6 + ln > n:
            break
        want.append(data[p:p + 6 + ln])
        p += 6 + ln
    s.run()
    ctx.check(len(seen) == len(want), "exactly the complete frames are executed")
    ctx.check(ctx.all([ctx.eq(x, y) for x, y in zip(seen, want)]), "the frames are executed as they were sent, in order")
    ctx.check(a.closed, "the connection is closed at its end")
    ctx.cover("done")


def two_clients(ctx, sizes=(8, 9), cuts=1):
    """two clients at once, both streams split: each frame executed once, each client gets its own answers"""
    net = Net(ctx)
    fa, fb = frame(ctx, "fa", sizes[0]), frame(ctx, "fb", sizes[1])
    a = Sock(net, "a", split(ctx, fa, cuts, "a"))
    b = Sock(net, "b", split(ctx, fb, cuts, "b"))
    net.pending.append(a)
    net.pending.append(b)
    seen = []
    ra, rb = ctx.bytes("ra", 4), ctx.bytes("rb", 5)
    ctx.assume(fa[7] != fb[7])

    class Bank(ctx.M.modbus.Databank):
        def handle_request(self, query, request):
            seen.append(request)
            if len(request) > 7 and request[7] == fa[7]:
                return ra
            return rb
    s = Served(ctx, net, databank=Bank())
    s.run()
    ctx.check(len(seen) == 2, "each request is executed once")
    ctx.check(ctx.any([ctx.all([ctx.eq(seen[0], fa), ctx.eq(seen[1], fb)]),
                       ctx.all([ctx.eq(seen[0], fb), ctx.eq(seen[1], fa)])]), "the frames are executed as they were sent")
    ctx.check(ctx.eq(a.sent(), ra), "the first client gets its answer")
    ctx.check(ctx.eq(b.sent(), rb), "the second client gets its answer")
    ctx.cover("done")


def writes(ctx, cuts=2, shorts=0):
    """two pipelined write requests to the real data model: both stored, both answered"""
    net = Net(ctx)
    net.shorts = shorts
    u1, t1, t2, v1, v2 = ctx.int("unit", 1, 255), ctx.word("t1"), ctx.word("t2"), ctx.word("v1"), ctx.word("v2")
    f1 = tcp_frame(ctx, t1, u1, struct.pack(">BHH", 6, 10, v1))
    f2 = tcp_frame(ctx, t2, u1, struct.pack(">BHHBH", 16, 11, 1, 2, v2))
    a = Sock(net, "a", split(ctx, f1 + f2, cuts), "eof")
    net.pending.append(a)
    s = Served(ctx, net)
    sl = s.srv.add_slave(u1)
    m = Memory(ctx, sl)
    b = m.words("h", "H", 9, 4)
    s.run()
    ctx.check(ctx.eq(a.sent(), f1 + tcp_frame(ctx, t2, u1, struct.pack(">BHH", 16, 11, 1))), "both requests are answered")
    b.vals[1] = v1
    b.vals[2] = v2
    m.same("both requests are executed")
    ctx.cover("done")


# ---------------------------------------------------------------------------------------------------------------- C22

def after_fault(ctx, net, s, b, c, units, mem=None, both=0):
    """drives the server through its idle points: B's request (with both: it is there from the start), then the new client C;
    returns what was seen"""
    fb = tcp_frame(ctx, ctx.word("tb"), units, struct.pack(">BHH", 6, 10, ctx.word("vb")))
    fc = tcp_frame(ctx, ctx.word("tc"), units, struct.pack(">BHH", 6, 11, ctx.word("vc")))
    st = []
    if both:
        b.feed(fb)

    def idle():
        if len(st) == 0:
            st.append("b")
            net.fault_on = None
            net.armed = False
            if not both:
                b.feed(fb)
            return True
        if len(st) == 1:
            st.append("c")
            c.feed(fc)
            net.pending.append(c)
            return True
        if len(st) == 2:
            st.append("end")
            st.append(net.listening is not None and not net.listening.closed)
            st.append(c.closed or b.closed)
        return False
    s.run(idle)
    ctx.check("end" in st, "the server keeps serving")
    ctx.check(st[3], "the listening socket stays open")
    ctx.check(c.accepted, "the next client can connect")
    ctx.check(not st[4], "the other connections stay open")
    ctx.check(ctx.eq(b.sent(), fb), "the next request of another client is answered")
    ctx.check(ctx.eq(c.sent(), fc), "the next client is answered")
    ctx.cover("done")


KINDS = {"reset": reset, "timeout": lambda: TIMEOUT("timed out"), "aborted": lambda: ConnectionAbortedError(103, "aborted"),
         "would block": lambda: BlockingIOError(11, "again"), "other": lambda: OSError(9, "Bad file descriptor")}


def faulty_socket(ctx, n=12, faults=1, kind="reset", end="idle", where="a", upto=22, verbose=False, both=0):
    """a fault at any operation on A's socket (or on the listening socket) while A connects and sends n bytes; with `both`, B's
    request arrives at the same time (2: B has connected first)"""
    net = Net(ctx)
    u = ctx.byte("unit")
    ctx.assume(u > 0)
    req = tcp_frame(ctx, ctx.word("ta"), u, struct.pack(">BHH", 6, 9, ctx.word("va")))
    a = Sock(net, "a", [req[:n]], end)
    b = Sock(net, "b")
    c = Sock(net, "c")
    net.pending += [b, a] if both == 2 else [a, b]
    s = Served(ctx, net)
    s.srv.set_verbose(verbose)
    Memory(ctx, s.srv.add_slave(u)).words("h", "H", 8, 5)
    if where == "a":
        net.fault_on = lambda sock, what: sock is a
    else:
        net.fault_on = lambda sock, what: sock is net.listening and what == "accept"
    for i in range(faults):
        net.faults.append([ctx.choice("fault%d" % i, upto if i == 0 else 6), KINDS[kind]])
    after_fault(ctx, net, s, b, c, u, both=both)


def refused_connection(ctx, kind="aborted", times=1):
    """accept fails for connections that are gone again"""
    net = Net(ctx)
    u = ctx.byte("unit")
    ctx.assume(u > 0)
    for i in range(times):
        net.pending.append(KINDS[kind]())
    b = Sock(net, "b")
    net.pending.append(b)
    net.pending.append(KINDS[kind]())
    s = Served(ctx, net)
    Memory(ctx, s.srv.add_slave(u)).words("h", "H", 8, 5)
    after_fault(ctx, net, s, b, Sock(net, "c"), u)


def garbage(ctx, n=9, end="eof", err=True, chunks=0):
    """client A sends any n bytes"""
    net = Net(ctx, 40)
    data = ctx.bytes("d", n)
    # the unit and the cells the garbage may hit are not the ones of B and C
    a = Sock(net, "a", split(ctx, data, chunks), end)
    b = Sock(net, "b")
    net.pending.append(a)
    net.pending.append(b)
    s = Served(ctx, net, error_on_missing_slave=err)
    u = 77
    if n > 6:
        ctx.assume(ctx.any([data[6] != 77, data[4] * 256 + data[5] > n]))
        ctx.assume(ctx.any([data[4] * 256 + data[5] <= n, data[4] * 256 + data[5] > 300]))
    if n > 7:
        ctx.assume(ctx.any([data[6] != 0, data[4] > 0]))
    Memory(ctx, s.srv.add_slave(u)).words("h", "H", 8, 5)
    s.srv.add_slave(5).add_block("h", tables(ctx)["H"], 0, 3)
    after_fault(ctx, net, s, b, Sock(net, "c"), u)


def failing_handling(ctx, exc="ValueError"):
    """the handling of A's request raises"""
    net = Net(ctx)
    u = ctx.byte("unit")
    ctx.assume(u > 0)
    E = {"ValueError": ValueError("x"), "KeyError": KeyError("x"), "OSError": OSError("x"), "struct": struct.error("x"),
         "modbus": ctx.M.modbus.ModbusError(3), "request": ctx.M.modbus.ModbusInvalidRequestError("x"),
         "mbap": ctx.M.modbus_tcp.ModbusInvalidMbapError("x"), "memory": MemoryError()}[exc]
    fa = frame(ctx, "fa", 9)
    state = []

    class Bank(ctx.M.modbus.Databank):
        def handle_request(self, query, request):
            if not state:
                state.append(1)
                raise E
            return ctx.M.modbus.Databank.handle_request(self, query, request)
    a = Sock(net, "a", [fa])
    b = Sock(net, "b")
    net.pending.append(a)
    net.pending.append(b)
    s = Served(ctx, net, databank=Bank())
    Memory(ctx, s.srv.add_slave(u)).words("h", "H", 8, 5)
    after_fault(ctx, net, s, b, Sock(net, "c"), u)
    ctx.check(len(state) == 1, "the request was handled")


SERVER_HOOKS = ("modbus_tcp.TcpServer.on_connect", "modbus_tcp.TcpServer.on_disconnect", "modbus_tcp.TcpServer.after_recv",
                "modbus_tcp.TcpServer.before_send", "modbus_tcp.TcpServer.after_send", "modbus_tcp.TcpServer.on_error",
                "modbus.Server.before_handle_request", "modbus.Server.after_handle_request", "modbus.Slave.handle_request",
                "modbus.Slave.handle_write_single_register_request", "modbus.Databank.on_error", "modbus.ModbusBlock.setitem",
                "modbus.Slave.on_exception")


def failing_hook(ctx, hook=SERVER_HOOKS[0], times=1, exc="ValueError", end="eof", cut=0, second=None):
    """a hook raises while A's request (good, refused or cut) is served"""
    net = Net(ctx)
    u = ctx.byte("unit")
    ctx.assume(u > 0)
    fa = tcp_frame(ctx, ctx.word("ta"), u, struct.pack(">BHH", 6, ctx.word("aa"), ctx.word("va")))
    if cut:
        fa = fa[:cut]
    a = Sock(net, "a", [fa], end)
    b = Sock(net, "b")
    net.pending.append(a)
    net.pending.append(b)
    left = [times]
    E = {"ValueError": ValueError("x"), "OSError": OSError("x")}[exc]

    def boom(args):
        if net.armed and left[0] > 0:
            left[0] -= 1
            raise E
    s = Served(ctx, net)
    Memory(ctx, s.srv.add_slave(u)).words("h", "H", 8, 5)
    ctx.M.hooks.install_hook(hook, boom)
    if second:
        ctx.M.hooks.install_hook(second, boom)
    after_fault(ctx, net, s, b, Sock(net, "c"), u)
