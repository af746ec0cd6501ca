"""Concurrent operations (C26-C29); the interleavings are explored by symex/sched.py."""
import struct
import threading
from harness.common import *
from harness.net import *
from harness.rtu import Port


def ints_of(ctx):
    """the integer variables of the query class and its module, {(where, name): value}"""
    m = ctx.M.modbus_tcp
    out = {}
    for where, holder in (("class", m.TcpQuery), ("module", m)):
        for k, v in list(vars(holder).items()):
            if type(v) is int or isinstance(v, int) and not isinstance(v, bool) and not k.startswith("__"):
                out[(where, k)] = v
    return out


def counter(ctx):
    """(get, set) of the counter behind the transaction ids: the integer that a request changes"""
    m = ctx.M.modbus_tcp
    a = ints_of(ctx)
    m.TcpQuery().build_request(b"\x03\x00\x00\x00\x01", 1)
    m.TcpQuery().build_request(b"\x03\x00\x00\x00\x01", 1)
    b = ints_of(ctx)
    names = [k for k in b if k in a and a[k] != b[k]]
    if len(names) != 1:
        return None
    where, name = names[0]
    holder = m.TcpQuery if where == "class" else m
    return (lambda: vars(holder)[name]), (lambda v: setattr(holder, name, v))


def tid(ctx, frame):
    return struct.unpack(">H", frame[0:2])[0]


def build(ctx, i=0):
    return ctx.M.modbus_tcp.TcpQuery().build_request(struct.pack(">BHH", 3, i, 1), i + 1)


def step(ctx):
    """from every counter state a request gets the id behind the one of the request before it"""
    c = counter(ctx)
    s = ctx.word("state")
    if c is None:
        ctx.incomplete("the counter of the transaction ids was not found")
    else:
        c[1](s)
    a = build(ctx, 0)
    if c is not None:
        ctx.check(ctx.all([c[0]() >= 0, c[0]() <= 0xFFFF]), "the counter stays in its range")
    b = build(ctx, 1)
    ctx.observe("frames", (a, b))
    x, y = tid(ctx, a), tid(ctx, b)
    ctx.check(y == (x + 1) % 65536, "the numbering continues, after 65535 at 0")
    if c is not None:
        # so the ids of all states are different: they run through all values
        ctx.check(ctx.any([x == s, x == (s + 1) % 65536]), "the id follows the counter")
    ctx.cover("done")


def concurrent_ids(ctx, n=2, each=1, pre=1):
    """requests built at the same time get consecutive ids"""
    c = counter(ctx)
    s = ctx.word("state")

    class W(object):
        pass

    def make():
        w = W()
        if c is not None:
            c[1](s)
        w.before = tid(ctx, build(ctx, 9))
        return w

    def op(w, i):
        return [tid(ctx, build(ctx, i)) for j in range(each)]
    for w, r in ctx.interleave(make, [(lambda w, i=i: op(w, i)) for i in range(n)], pre=pre,
                               roots=lambda w: [ctx.M.modbus_tcp.TcpQuery]):
        ctx.check(r is not None, "no deadlock")
        ctx.check(ctx.left_locked == 0, "no lock stays held")
        ctx.check(ctx.all([ex is None for ex, v in r]), "no failure")
        got = [v for ex, l in r for v in l]
        after = tid(ctx, build(ctx, 8))
        m = n * each
        ctx.check(ctx.all([ctx.any([g == (w.before + 1 + i) % 65536 for i in range(m)]) for g in got]),
                  "concurrent requests take the following ids")
        ctx.check(ctx.all([got[i] != got[j] for i in range(m) for j in range(i)]), "no id is used twice")
        ctx.check(after == (w.before + 1 + m) % 65536, "the numbering continues behind them")
    ctx.cover("done")


def master_ids(ctx, n=2, each=1, pre=1):
    """requests of several masters at the same time carry different ids"""
    M = ctx.M
    c = counter(ctx)
    s = ctx.word("state")

    class W(object):
        pass

    def make():
        w = W()
        if c is not None:
            c[1](s)
        w.before = tid(ctx, build(ctx, 9))
        w.net = net = Net(ctx, 60)
        ctx.env = net
        w.frames = []
        net.peer = lambda sock, data: w.frames.append(data)
        w.masters = [ctx.keep(M.modbus_tcp.TcpMaster("device%d" % i, 502)) for i in range(n)]
        return w

    def op(w, i):
        for j in range(each):
            ctx.raises(w.masters[i].execute, i + 1, 3, j, 1)
    for w, r in ctx.interleave(make, [(lambda w, i=i: op(w, i)) for i in range(n)], pre=pre,
                               roots=lambda w: [M.modbus_tcp.TcpQuery] + w.masters):
        ctx.check(r is not None, "no deadlock")
        ctx.check(ctx.all([ex is None for ex, v in r]), "no failure")
        got = [tid(ctx, f) for f in w.frames]
        m = n * each
        ctx.check(len(got) == m, "every master sends its requests")
        ctx.check(ctx.all([got[i] != got[j] for i in range(m) for j in range(i)]), "no id is used twice")
        ctx.check(ctx.all([ctx.any([g == (w.before + 1 + i) % 65536 for i in range(m)]) for g in got]),
                  "concurrent requests take the following ids")
    ctx.cover("done")


# ------------------------------------------------------------------------------------------------- one slave (C27, C29)

def canon(ctx, r):
    """an outcome of a call that can be compared: failures by their type"""
    ex, v = r
    if ex is not None:
        return ["raised " + type(ex).__name__]
    if v is None or type(v).__name__ in ("Slave", "ModbusBlock"):
        return ["done"]
    if type(v) in (list, tuple):
        return ["values"] + list(v)
    return ["value", v]


def memory_of(ctx, slave, names, reads=()):
    """what can be read from a slave through its API and its requests"""
    out = []
    for name, table, start, n in names:
        for k in range(n):
            ex, r = ctx.raises(slave.get_values, name, start + k, 1)
            out.append(r[0] if ex is None else -7)
    for fc, a, n in reads:
        ex, r = ctx.raises(slave.handle_request, pdu_read(fc, a, n))
        out.append(r if ex is None else b"raised " + type(ex).__name__.encode("ascii"))
    return out


class World(object):
    pass


def serial(ctx, make, ops, state):
    """outcomes of all serial orders of the operations: [(results, state), ...]"""
    orders = [[0]]
    for i in range(1, len(ops)):
        orders = [o[:k] + [i] + o[k:] for o in orders for k in range(len(o) + 1)]
    out = []
    for o in orders:
        w = make()
        res = [None] * len(ops)
        for i in o:
            res[i] = canon(ctx, ctx.raises(ops[i], w))
        out.append([res, state(w)])
    return out


def serializable(ctx, make, ops, state, pre=1, roots=None, what="the outcome is that of one after the other"):
    want = serial(ctx, make, ops, state)
    for w, r in ctx.interleave(make, ops, pre=pre, roots=roots):
        ctx.check(r is not None, "no deadlock")
        ctx.check(ctx.left_locked == 0, "no lock stays held")
        got = [[canon(ctx, x) for x in r], state(w)]
        ctx.check(ctx.any([ctx.eq(got, x) for x in want]), what)
    ctx.observe("serial", want)


OPS27 = ("read_h", "read_i", "read_c", "write_1", "write_n", "mask", "rw", "coil", "coils", "set", "set_c", "get", "get_c", "get_all",
         "add", "remove", "clear", "set1")
WRITERS = ("write_1", "write_n", "mask", "rw", "coil", "coils", "set", "set_c", "add", "remove", "clear", "set1")
TABLE_OF = {"read_h": "H", "read_i": "I", "read_c": "C", "write_1": "H", "write_n": "H", "mask": "H", "rw": "H", "coil": "C",
            "coils": "C", "set": "H", "set1": "H", "set_c": "C", "get": "H", "get_c": "C", "get_all": "H"}


def slave_op(ctx, op, i, unsigned=True):
    """an operation on the slave w.slave with arbitrary values; both sides of a pair meet in the same cells"""
    t = tables(ctx)
    lo, hi = (0, 0xFFFF) if unsigned else (-0x8000, 0x7FFF)

    def val(k):
        return ctx.int("op%d.%d" % (i, k), lo, hi)

    def word(k):
        return ctx.word("op%d.w%d" % (i, k))
    if op in ("read_h", "read_i"):
        p = pdu_read(3 if op == "read_h" else 4, 11, 2)
    elif op == "read_c":
        p = pdu_read(1, 1, 2)
    elif op == "write_1":
        p = struct.pack(">BHH", 6, 11, word(0))
    elif op == "write_n":
        p = struct.pack(">BHHBHH", 16, 11, 2, 4, word(0), word(1))
    elif op == "mask":
        p = struct.pack(">BHHH", 22, 11, word(0), word(1))
    elif op == "rw":
        p = struct.pack(">BHHHHBHH", 23, 11, 2, 11, 2, 4, word(0), word(1))
    elif op == "coil":
        p = struct.pack(">BHH", 5, 1, ctx.pick("op%d.on" % i, (0, 0xFF00)))
    elif op == "coils":
        p = struct.pack(">BHHBB", 15, 1, 2, 1, ctx.pick("op%d.bits" % i, (1, 2)))
    else:
        p = None
    if p is not None:
        return lambda w: w.db.handle_request(raw_query(ctx, 1), p)
    if op == "set":
        v = [val(0), val(1)]
        return lambda w: w.slave.set_values("h", 11, v)
    if op == "set1":
        v = val(0)
        return lambda w: w.slave.set_values("h", 11, v)
    if op == "set_c":
        c = [ctx.int("op%d.c%d" % (i, k), 0, 1) for k in range(2)]
        return lambda w: w.slave.set_values("c", 1, c)
    if op == "get":
        return lambda w: w.slave.get_values("h", 11, 2)
    if op == "get_all":
        return lambda w: w.slave.get_values("h", 10, 3)
    if op == "get_c":
        return lambda w: w.slave.get_values("c", 1, 2)
    if op == "add":
        return lambda w: w.slave.add_block("n", t["H"], 13, 1)
    if op == "remove":
        return lambda w: w.slave.remove_block("h")
    if op == "clear":
        return lambda w: w.slave.remove_all_blocks()
    raise ValueError(op)


def pair_world(ctx, unsigned):
    t = tables(ctx)
    lo, hi = (0, 0xFFFF) if unsigned else (-0x8000, 0x7FFF)
    h = [ctx.int("h%d" % k, lo, hi) for k in range(3)]
    c = [ctx.int("c%d" % k, 0, 1) for k in range(3)]

    def make():
        w = World()
        w._shared_ = True
        w.db = ctx.M.modbus.Databank()
        w.slave = w.db.add_slave(1, unsigned)
        w.slave.add_block("h", t["H"], 10, 3)
        w.slave.add_block("i", t["I"], 10, 3)
        w.slave.add_block("c", t["C"], 0, 3)
        w.slave.set_values("h", 10, list(h))
        w.slave.set_values("c", 0, list(c))
        return w
    return make


PLACES = (("h", "H", 10, 3), ("c", "C", 0, 3), ("i", "I", 10, 1), ("n", "H", 13, 1))


def slave_pair(ctx, a="write_n", b="get", pre=1, unsigned=True, third=None):
    """operations on one slave at the same time"""
    names = [a, b] + ([third] if third else [])
    ops = [slave_op(ctx, op, i, unsigned) for i, op in enumerate(names)]
    serializable(ctx, pair_world(ctx, unsigned), ops,
                 lambda w: memory_of(ctx, w.slave, PLACES, ((3, 10, 3), (1, 0, 3))), pre)
    ctx.cover("done")


def program_pair(ctx, a=("write_n",), b=("get", "get"), pre=1, unsigned=True):
    """short sequences of operations at the same time: the order of the operations of each thread is kept"""
    fa = [slave_op(ctx, op, 10 + i, unsigned) for i, op in enumerate(a)]
    fb = [slave_op(ctx, op, 20 + i, unsigned) for i, op in enumerate(b)]
    make = pair_world(ctx, unsigned)

    def state(w):
        return memory_of(ctx, w.slave, PLACES, ((3, 10, 3), (1, 0, 3)))

    def run(w, fs):
        return [canon(ctx, ctx.raises(f, w)) for f in fs]
    # all merges of the two sequences
    orders = [[]]
    total = len(a) + len(b)
    done = []
    while orders:
        o = orders.pop()
        if len(o) == total:
            done.append(o)
            continue
        if o.count(0) < len(a):
            orders.append(o + [0])
        if o.count(1) < len(b):
            orders.append(o + [1])
    want = []
    for o in done:
        w = make()
        r = [[], []]
        for i in o:
            f = (fa, fb)[i][len(r[i])]
            r[i].append(canon(ctx, ctx.raises(f, w)))
        want.append([r, state(w)])
    for w, r in ctx.interleave(make, [lambda w: run(w, fa), lambda w: run(w, fb)], pre=pre):
        ctx.check(r is not None, "no deadlock")
        ctx.check(ctx.left_locked == 0, "no lock stays held")
        ctx.check(ctx.all([ex is None for ex, v in r]), "no failure")
        got = [[v for ex, v in r], state(w)]
        ctx.check(ctx.any([ctx.eq(got, x) for x in want]), "the outcome is that of one operation after the other")
    ctx.cover("done")


# ------------------------------------------------------------------------------------------------ registries (C29)

OPS29 = ("add_slave", "get_slave", "remove_slave", "remove_all_slaves", "request", "broadcast", "request_absent")


def registry_op(ctx, op, i):
    u = ctx.int("op%d.unit" % i, 1, 3)
    if op == "add_slave":
        return lambda w: keep_slave(w, i, w.srv.add_slave(u))
    if op == "get_slave":
        return lambda w: same_slave(w, w.srv.get_slave(u))
    if op == "remove_slave":
        return lambda w: w.srv.remove_slave(u)
    if op == "remove_all_slaves":
        return lambda w: w.srv.remove_all_slaves()
    v = ctx.word("op%d.v" % i)
    if op == "request":
        return lambda w: w.srv.get_db().handle_request(raw_query(ctx, u), struct.pack(">BHH", 6, 10, v))
    if op == "broadcast":
        return lambda w: w.srv.get_db().handle_request(raw_query(ctx, 0), struct.pack(">BHH", 6, 10, v))
    raise ValueError(op)


def keep_slave(w, i, s):
    w.added.append((i, s))
    return None


def same_slave(w, s):
    """which slave it is: one of those of the beginning or one that is added by an operation"""
    for k, x in enumerate(w.first):
        if x is s:
            return [k]
    return [9]


def registry_pair(ctx, a="add_slave", b="add_slave", pre=1, third=None):
    """slaves are registered, looked up, used and removed at the same time"""
    t = tables(ctx)
    names = [a, b] + ([third] if third else [])
    ops = [registry_op(ctx, op, i) for i, op in enumerate(names)]

    def make():
        w = World()
        w._shared_ = True
        w.srv = ctx.keep(ctx.M.modbus_tcp.TcpServer())
        w.added = []
        w.first = []
        for u in (1, 2):
            s = w.srv.add_slave(u)
            s.add_block("h", t["H"], 10, 1)
            w.first.append(s)
        return w

    def state(w):
        out = []
        for u in (1, 2, 3):
            ex, s = ctx.raises(w.srv.get_slave, u)
            if ex is not None:
                out.append([type(ex).__name__])
                continue
            k = same_slave(w, s)[0]
            if k == 9:
                # an added slave is the one its call returned
                k = [10 + i for i, x in w.added if x is s]
            out.append(k)
        if names.count("broadcast") and names.count("broadcast") + names.count("request") > 1:
            # a broadcast is executed by each slave on its own (the values of one slave: C27)
            return [out]
        return [out, [s.get_values("h", 10, 1)[0] for s in w.first]]
    serializable(ctx, make, ops, state, pre, roots=lambda w: [w.srv, w.srv.get_db()])
    ctx.cover("done")


BLOCK_OPS = ("add_a", "add_b", "add_c", "remove", "clear", "lookup")


def block_op(ctx, op, i, lo, hi, sizes):
    t = tables(ctx)
    if op.startswith("add"):
        # a: a new name at any place; b: the name of an existing block; c: another type
        name = {"add_a": "n", "add_b": "h", "add_c": "n", "add_d": "m"}[op]
        a = ctx.int("op%d.a" % i, lo, hi)
        n = ctx.pick("op%d.n" % i, sizes[i]) if len(sizes[i]) > 1 else sizes[i][0]
        tp = t["C"] if op == "add_c" else t["H"]
        return lambda w: w.slave.add_block(name, tp, a, n)
    if op == "remove":
        name = ctx.pick("op%d.name" % i, ("h", "n"))
        return lambda w: w.slave.remove_block(name)
    if op == "clear":
        return lambda w: w.slave.remove_all_blocks()
    if op == "lookup":
        a = ctx.int("op%d.a" % i, lo, hi)
        return lambda w: w.slave.handle_request(pdu_read(3, a, 2))
    raise ValueError(op)


def block_pair(ctx, a="add_a", b="add_d", pre=1, third=None, lo=5, hi=15, sizes=((2, 1), (2, 1), (2, 1))):
    """blocks are defined and removed at the same time"""
    t = tables(ctx)
    names = [a, b] + ([third] if third else [])
    ops = [block_op(ctx, op, i, lo, hi, sizes) for i, op in enumerate(names)]
    probe = ctx.int("probe", lo - 1, hi + 1)

    def make():
        w = World()
        w._shared_ = True
        w.slave = ctx.M.modbus.Slave(1)
        w.slave.add_block("h", t["H"], 8, 2)
        w.slave.set_values("h", 8, [501, 502])
        return w

    def state(w):
        out = [memory_of(ctx, w.slave, (), ((3, probe, 1), (1, probe, 1), (3, probe, 2)))]
        for name in ("h", "n", "m"):
            ex, r = ctx.raises(w.slave.get_values, name, probe, 1)
            out.append([type(ex).__name__] if ex is not None else list(r))
        return out
    serializable(ctx, make, ops, state, pre)
    ctx.cover("done")


# ------------------------------------------------------------------------------------------------ one master (C28)

class PointSock(Sock):
    def recv(self, n, flags=0):
        got = 0
        try:
            d = Sock.recv(self, n, flags)
            got = len(d)
        finally:
            self.net.log.received(got)
        return d


class PointNet(Net):
    """other threads may run before every socket operation"""

    def new_socket(self, *a, **k):
        s = PointSock(self, "made%d" % len(self.made))
        s.connected = False
        self.made.append(s)
        return s

    def op(self, sock, what):
        self.ctx.point()
        Net.op(self, sock, what)

    def select(self, r, w=(), x=(), timeout=None):
        self.ctx.point()
        return Net.select(self, r, w, x, timeout)


class PointPort(Port):
    def _live(self):
        self.ctx.point()
        Port._live(self)

    def open(self):
        self.ctx.point()
        Port.open(self)

    def read(self, size=1):
        got = 0
        try:
            d = Port.read(self, size)
            got = len(d)
        finally:
            self.log.received(got)
        return d


class Traffic(object):
    """which call has a request on the way; answers the requests"""

    def __init__(self, ctx, over, data, kinds):
        self.ctx = ctx
        self.over = over
        self.data = data
        self.kinds = kinds
        self.waiting = {}
        self.overtaken = {}
        self.requests = []
        self.buf = {}

    def who(self):
        op = getattr(threading.current_thread(), "_op", None)
        return op.i if op is not None else 99

    def done(self):
        self.waiting.pop(self.who(), None)
        self.overtaken.pop(self.who(), None)

    def received(self, n):
        i = self.who()
        self.ctx.check(i not in self.overtaken, "no request is sent while another call waits for its answer")
        if i in self.waiting:
            self.waiting[i] -= n
            if self.waiting[i] <= 0:
                self.waiting.pop(i)

    def sent(self, where, key, data):
        """bytes of a request; whole requests are answered"""
        i = self.who()
        for j in list(self.waiting):
            if j != i:
                # it is still waiting if it reads once more
                self.overtaken[j] = True
        self.overtaken.pop(i, None)
        buf = self.buf.get(key, b"") + data
        n = 8 if self.over != "tcp" else 12
        if len(buf) < n:
            self.buf[key] = buf
            return
        self.buf[key] = buf[n:]
        req = buf[:n]
        at = self.ctx.concrete(req[9] if self.over == "tcp" else req[3])
        self.requests.append(at)
        kind = self.kinds.get(at, "data")
        if kind == "silence":
            self.waiting[i] = 1
            return
        if kind == "data":
            d = self.data[at]
            pdu = struct.pack(">BBH", 3, 2, d)
        else:
            pdu = struct.pack(">BB", 0x83, kind)
        if self.over == "tcp":
            ans = req[0:4] + struct.pack(">H", 1 + len(pdu)) + req[6:7] + pdu
        else:
            ans = rtu_frame(self.ctx, req[0], pdu)
        self.waiting[i] = len(ans)
        where.feed(ans[:3], ans[3:])


def reset_fault():
    return reset()


def master_calls(ctx, over="tcp", n=2, pre=1, calls=1, fault=None, ops=("connect", "send", "recv"), kinds=None, before=None,
                 hook=None, opened=False):
    """calls of execute on one master at the same time.
    fault: upper bound of the position of a socket or port operation that fails (any position up to it);
    before: the same for a call that fails before; kinds: answers by request: "silence" or an exception code"""
    M = ctx.M
    data = [ctx.word("d%d" % i) for i in range(n * calls + 2)]
    at = ctx.choice("fault", fault) if fault else None
    at0 = ctx.choice("before", before) if before else None

    def execute(w, k):
        ex, r = ctx.raises(w.m.execute, 7, 3, k, 1)
        w.log.done()
        return ex, r

    def make():
        w = World()
        w._shared_ = True
        w.log = Traffic(ctx, over, data, kinds or {})
        if over == "rtu":
            w.port = PointPort(ctx, is_open=False)
            w.port.log = w.log
            w.port.on_write = lambda d: w.log.sent(w.port, 0, d)
            ctx.env = w.port
            w.m = ctx.keep(M.modbus_rtu.RtuMaster(w.port))
        else:
            w.net = PointNet(ctx)
            w.net.log = w.log
            w.net.peer = lambda sock, d: w.log.sent(sock, sock.name, d)
            ctx.env = w.net
            cls = M.modbus_tcp.TcpMaster if over == "tcp" else M.modbus_rtu_over_tcp.RtuOverTcpMaster
            w.m = ctx.keep(cls("device", 502))
        w.failures = 0
        if opened:
            w.m.open()
        if at0 is not None:
            arm(w, at0)
            execute(w, n * calls)
            disarm(w)
        if at is not None:
            arm(w, at)
        w.raised = []
        return w

    def arm(w, k):
        if over == "rtu":
            if k == 0:
                w.port.write_fails = [True]
            else:
                w.port.faults = [k - 1]
        else:
            w.net.fault_on = lambda s, what: what in ops
            w.net.faults = [[k, reset_fault]]

    def disarm(w):
        if over == "rtu":
            w.failures += 0 if w.port.write_fails or w.port.faults else 1
            w.port.write_fails, w.port.faults = [], []
        else:
            w.net.faults = []

    def struck(w):
        if over == "rtu":
            return 0 if w.port.write_fails or w.port.faults else 1
        return 0 if w.net.faults else 1

    def run(w, i):
        out = []
        for c in range(calls):
            out.append(execute(w, i * calls + c))
        return out

    if hook is not None:
        # a hook that raises in one of the calls, whichever comes first
        def boom(args):
            if ctx.boom:
                ctx.boom -= 1
                raise OSError("hook")
        M.hooks.install_hook(hook, boom)
    ctx.boom = 0

    def begin():
        w = make()
        ctx.boom = 1 if hook is not None else 0
        return w
    for w, r in ctx.interleave(begin, [(lambda w, i=i: run(w, i)) for i in range(n)], pre=pre,
                               roots=lambda w: [w.m]):
        ctx.check(r is not None, "no deadlock")
        ctx.check(ctx.left_locked == 0, "no lock stays held")
        failed = 0
        for i, (ex, out) in enumerate(r):
            ctx.check(ex is None, "no failure of the harness")
            for c, (ex, got) in enumerate(out):
                k = i * calls + c
                kind = (kinds or {}).get(k, "data")
                if ex is None:
                    ctx.check(kind == "data", "a call without answer raises")
                    ctx.check(ctx.eq(list(got), [data[k]]), "every call returns its own data")
                elif isinstance(ex, M.modbus.ModbusError):
                    ctx.check(kind == ex.get_exception_code(), "a Modbus error is the answer of the own request")
                elif kind != "silence":
                    failed += 1
        hit = (struck(w) if at is not None else 0) + (1 if hook is not None else 0)
        ctx.check(failed <= hit, "calls fail only where the transport failed")
        # afterwards the master works
        if at is not None:
            disarm(w)
        ex, got = execute(w, n * calls + 1)
        if at is None and hook is None and not kinds:
            ctx.check(ex is None, "the next call succeeds")
        if ex is None:
            ctx.check(ctx.eq(list(got), [data[n * calls + 1]]), "the next call returns its own data")
            ctx.cover("after")
    ctx.cover("done")


# ------------------------------------------------------------------------------------------------ hooks (C30, C27)

def hook_op(ctx, op, w_of=None):
    """an operation on the hooks of one name"""
    if op == "call":
        return lambda w: w.call()
    if op == "remove_all":
        return lambda w: w.remove(None)
    if op.startswith("install"):
        k = int(op[7:])
        return lambda w: w.install(k)
    if op.startswith("remove"):
        k = int(op[6:])
        return lambda w: w.remove(k)
    raise ValueError(op)


def hooks_pair(ctx, a="call", b="remove0", start=(0, 1), pre=1, third=None, gives=None):
    """hooks are installed, removed and called at the same time"""
    h = ctx.M.hooks
    names = [a, b] + ([third] if third else [])
    ops = [hook_op(ctx, op) for op in names]
    v = ctx.word("v")

    class HookWorld(object):
        _shared_ = True

        def __init__(self):
            self.gone = []
            self.late = []
            self.local = threading.local()
            self.fct = [(lambda args, k=k: self.hit(k, args)) for k in range(4)]

        def hit(self, k, args):
            log = self.local.log
            log.append(k)
            if k in self.gone:
                self.late.append(k)
            if k == gives:
                return args
            return None

        def call(self):
            self.local.log = []
            r = h.call_hooks("x", v)
            return self.local.log + ([] if r is None else [77, r])

        def install(self, k):
            if k in self.gone:
                self.gone.remove(k)
            h.install_hook("x", self.fct[k])

        def remove(self, k):
            if k is None:
                h.uninstall_hook("x")
                self.gone.extend(range(4))
            else:
                h.uninstall_hook("x", self.fct[k])
                self.gone.append(k)

    def make():
        clear_hooks(ctx)
        w = HookWorld()
        for k in start:
            h.install_hook("x", w.fct[k])
        return w

    def state(w):
        w.gone = []
        return w.call()
    want = serial(ctx, make, ops, state)
    for w, r in ctx.interleave(make, ops, pre=pre, roots=lambda w: [w] + hook_stores(ctx)):
        ctx.check(r is not None, "no deadlock")
        ctx.check(ctx.left_locked == 0, "no lock stays held")
        ctx.check(not w.late, "a hook that has been uninstalled is not called")
        got = [[canon(ctx, x) for x in r], state(w)]
        ctx.check(ctx.any([ctx.eq(got, x) for x in want]), "hooks are installed, removed and called one after the other")
    clear_hooks(ctx)
    ctx.cover("done")


def hook_stores(ctx):
    """the containers in which the module keeps the hooks"""
    return [x for k, x in vars(ctx.M.hooks).items() if isinstance(x, (dict, list)) and not k.startswith("__")]


def clear_hooks(ctx):
    ex, r = ctx.raises(ctx.M.hooks.uninstall_hook, "x")


def hook_order(ctx, hook="modbus.Server.before_handle_request", op="set"):
    """a hook of a server uses the slave while another thread uses the slave"""
    h = ctx.M.hooks
    make0 = pair_world(ctx, True)
    v = ctx.word("v")
    f = slave_op(ctx, op, 1)

    def make():
        ex, r = ctx.raises(h.uninstall_hook, hook)
        w = make0()
        w.srv = ctx.keep(ctx.M.modbus_tcp.TcpServer(databank=w.db))
        h.install_hook(hook, lambda args: w.slave.set_values("h", 10, v))
        return w

    def request(w):
        return w.srv._handle(tcp_frame(ctx, 5, 1, pdu_read(3, 10, 2)))
    if not hasattr(ctx.M.modbus.Server, "_handle"):
        ctx.incomplete("the function that serves one request was not found")
        ctx.cover("done")
        return
    for w, r in ctx.interleave(make, [request, f], pre=1):
        ctx.check(r is not None, "no deadlock", known=("hook-lock-order", True))
        ctx.check(ctx.all([ex is None for ex, x in r]), "no failure")
        ctx.check(ctx.left_locked == 0, "no lock stays held")
        ctx.check(w.slave.get_values("h", 10, 1)[0] == v, "the hook stores its value")
    ctx.cover("done")
