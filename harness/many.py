"""Larger numbers of slaves, blocks, clients, requests and hooks than the other harnesses use: nothing may depend on how many
there are.  Identities are concrete, values symbolic."""
import struct
from harness.common import *
from harness.net import *
from harness import rtu


def ids(n):
    """n different slave ids in a mixed order"""
    return [(7 + 37 * i) % 255 + 1 for i in range(n)]


def slaves(ctx, n=40, probe=3):
    """C13, C09: n slaves; each id gives its own slave, requests and removal touch only the one they name"""
    db = ctx.M.modbus.Databank()
    us = ids(n)
    made = {}
    for u in us:
        made[u] = db.add_slave(u)
        made[u].add_block("b", ctx.M.defines.HOLDING_REGISTERS, u, 2)
        made[u].set_values("b", u, u * 3)
    for u in us:
        ctx.check(db.get_slave(u) is made[u], "an id gives the slave registered under it")
        ex, r = ctx.raises(db.add_slave, u)
        ctx.check(ex is not None, "an id is registered once")
    for k in range(probe):
        u = us[(k * 13 + n - 1) % n]
        v = ctx.word("v%d" % k)
        ctx.check(ctx.eq(ask(ctx, db, struct.pack(">BHH", 6, u, v), u), struct.pack(">BHH", 6, u, v)), "a request is answered")
        for w in us:
            want = v if w == u else w * 3
            ctx.check(made[w].get_values("b", w, 1)[0] == want, "only the addressed slave is written")
            ctx.check(ctx.eq(ask(ctx, db, pdu_read(3, w, 1), w), struct.pack(">BBH", 3, 2, want)), "a slave's own value is read")
        made[u].set_values("b", u, u * 3)
    gone = us[::3]
    for u in gone:
        db.remove_slave(u)
    for u in us:
        ex, r = ctx.raises(db.get_slave, u)
        ctx.check((ex is not None) if u in gone else r is made[u], "the removed slaves and only they are gone")
        ctx.check(nothing(ask(ctx, db, pdu_read(3, u, 1), u)) if u in gone else True, "a removed slave does not answer")
    db.remove_all_slaves()
    for u in us:
        ctx.check(ctx.raises(db.get_slave, u)[0] is not None, "all slaves are removed")
    ctx.cover("done")


def broadcast(ctx, n=40, fc=6, refusing=5):
    """C10: a broadcast write reaches every one of n slaves, whatever some of them refuse"""
    db = ctx.M.modbus.Databank()
    us = ids(n)
    bad = us[1::refusing] if refusing else []
    made = {}
    for u in us:
        made[u] = db.add_slave(u)
        made[u].add_block("b", ctx.M.defines.HOLDING_REGISTERS, 900 if u in bad else 4, 3)
    v = ctx.word("v")
    pdu = struct.pack(">BHH", 6, 5, v) if fc == 6 else struct.pack(">BHHBH", 16, 5, 1, 2, v)
    ctx.check(nothing(ask(ctx, db, pdu, 0)), "a broadcast is not answered")
    for u in us:
        a = 900 if u in bad else 4
        ctx.check(ctx.eq(list(made[u].get_values("b", a, 3)), [0, 0 if u in bad else v, 0]),
                  "every slave that has the register is written")
    ctx.cover("done")


def blocks(ctx, n=40):
    """C11, C12: n blocks of one table, defined in a mixed order, next to each other; then every third is removed"""
    s = ctx.M.modbus.Slave(1)
    H, I = ctx.M.defines.HOLDING_REGISTERS, ctx.M.defines.ANALOG_INPUTS
    order = [(11 + 17 * i) % n for i in range(n)]
    where = dict((i, (10 * i, 10)) for i in order)
    for i in order:
        s.add_block("n%d" % i, H, *where[i])
        if i % 2:
            s.add_block("i%d" % i, I, 10 * i + 5, 10)
    vals = dict((i, ctx.word("v%d" % i)) for i in (0, 1, n // 2, n - 1))
    for i in order:
        s.set_values("n%d" % i, 10 * i + 9, vals.get(i, i))

    def reached(i, there):
        v = vals.get(i, i)
        r = s.handle_request(pdu_read(3, 10 * i + 9, 1))
        ctx.check(ctx.eq(r, struct.pack(">BBH", 3, 2, v) if there else struct.pack(">BB", 0x83, 2)),
                  "a block is reached by requests while it is defined")
        ex, r = ctx.raises(s.get_values, "n%d" % i, 10 * i + 9, 1)
        ctx.check(r[0] == v if there and ex is None else not there, "a block is reached by its name while it is defined")
        ex, r = ctx.raises(s.add_block, "x", H, 10 * i + 3, 4)
        ctx.check((ex is None) == (not there), "a block is refused exactly where another one is")
        if ex is None:
            s.remove_block("x")
    for i in order:
        reached(i, True)
    for i in order[::3]:
        s.remove_block("n%d" % i)
    gone = set(order[::3])
    for i in order:
        reached(i, i not in gone)
    for i in gone:
        vals.pop(i, None)
        s.add_block("n%d" % i, H, *where[i])
        s.set_values("n%d" % i, 10 * i + 9, i)
    for i in order:
        reached(i, True)
    s.remove_all_blocks()
    for i in order:
        reached(i, False)
    ctx.cover("done")


def clients(ctx, n=12, rounds=2, lazy=0, leave=False):
    """C21, C22: n clients are connected at once and send one request per round; each gets its own answers, none is dropped"""
    net = Net(ctx, max_rounds=40 + 12 * n * rounds)
    v = [ctx.word("v%d" % i) for i in range(n)]
    cs = [Sock(net, "c%d" % i) for i in range(n)]
    for i, c in enumerate(cs):
        c.number = 30 + i
        net.pending.append(c)
    s = Served(ctx, net)
    m = Memory(ctx, s.srv.add_slave(1))
    m.add("b", "H", 0, [0] * n)
    state = dict(round=0)

    def idle():
        if state["round"] >= rounds:
            return False
        r = state["round"]
        state["round"] += 1
        for i, c in enumerate(cs):
            if i < lazy and r == 0:
                continue
            pdu = struct.pack(">BHH", 6, i, v[i]) if r % 2 == 0 else pdu_read(3, i, 1)
            c.feed(tcp_frame(ctx, 100 * r + i, 1, pdu))
            if leave and i % 3 == 1 and r == rounds - 1:
                c.end = "eof"
        return True
    s.run(idle)
    ctx.check(state["round"] == rounds, "the server goes on")
    for i, c in enumerate(cs):
        want = b""
        for r in range(1 if i < lazy else 0, rounds):
            pdu = struct.pack(">BHH", 6, i, v[i]) if r % 2 == 0 else struct.pack(">BBH", 3, 2, 0 if i < lazy and r < 2 else v[i])
            want = want + tcp_frame(ctx, 100 * r + i, 1, pdu)
        ctx.check(ctx.eq(c.sent(), want), "every client gets the answers to its own requests")
    ctx.check(all([c.closed for c in cs]) and all([x.closed for x in net.made]),
              "a stopped server has closed every connection and its listening socket")
    ctx.cover("done")


def requests(ctx, n=60, over="tcp", pieces=False):
    """C21, C25: many requests over one connection or line, each executed once and answered"""
    vals = [ctx.word("v%d" % i) for i in range(4)]
    reqs = []
    want = b""
    for i in range(n):
        v = vals[i % 4]
        pdu = struct.pack(">BHH", 6, i % 5, v)
        if i % 3 == 2:
            pdu = pdu_read(3, (i - 1) % 5, 1)
            ans = struct.pack(">BBH", 3, 2, vals[(i - 1) % 4])
        else:
            ans = pdu
        if over == "tcp":
            reqs.append(tcp_frame(ctx, 1000 + 7 * i, 1, pdu))
            want = want + tcp_frame(ctx, 1000 + 7 * i, 1, ans)
        else:
            reqs.append(rtu_frame(ctx, 1, pdu))
            want = want + rtu_frame(ctx, 1, ans)
    if over == "tcp":
        net = Net(ctx, max_rounds=10 * n)
        data = b""
        for r in reqs:
            data = data + r
        a = Sock(net, "a", [data] if not pieces else [data[k:k + 5] for k in range(0, len(data), 5)])
        net.pending.append(a)
        s = Served(ctx, net)
        m = Memory(ctx, s.srv.add_slave(1))
        m.add("b", "H", 0, [0] * 5)
        s.run()
        ctx.check(ctx.eq(a.sent(), want), "every request is executed once, in order, and answered")
    else:
        srv, port = rtu.rtu_server(ctx)
        port.max_reads = 20 * n
        m = Memory(ctx, srv.add_slave(1))
        m.add("b", "H", 0, [0] * 5)
        port.steps = [(lambda r: lambda: port.feed(r))(r) for r in reqs]
        rtu.serve(ctx, srv, port)
        ctx.check(ctx.eq(port.sent(), want), "every request is executed once, in order, and answered")
    ctx.cover("done")


def hooks(ctx, n=20):
    """C30: n functions under one name are called in installation order until one answers"""
    h = ctx.M.hooks
    called = []
    fs = []
    stop = ctx.choice("stop", 3)
    at = (None, 0, n - 2)[stop]

    def make(i):
        def f(args):
            called.append((i, args))
            return "r%d" % i if i == at else None
        return f
    for i in range(n):
        fs.append(make(i))
        h.install_hook("some.hook", fs[i])
        h.install_hook("other%d.hook" % i, fs[i])
    args = (1, 2)
    r = h.call_hooks("some.hook", args)
    upto = n if at is None else at + 1
    ctx.check([i for i, a in called] == list(range(upto)), "the functions are called in the order of their installation")
    ctx.check(all([a is args or a == args for i, a in called]), "the arguments are passed")
    ctx.check(r == (None if at is None else "r%d" % at), "the first result is the result")
    for i in range(0, n, 2):
        h.uninstall_hook("some.hook", fs[i])
    del called[:]
    at = None
    h.call_hooks("some.hook", args)
    ctx.check([i for i, a in called] == list(range(1, n, 2)), "uninstalled functions are not called")
    del called[:]
    h.call_hooks("other%d.hook" % (n - 1), args)
    ctx.check([i for i, a in called] == [n - 1], "only the functions of the name are called")
    ctx.cover("done")


def noise(ctx, n=256, valid=True):
    """C25: n bytes of noise directly followed by a frame that alone would be valid, then silence: one line of bytes that is not
    a valid frame; nothing is executed"""
    srv, port = rtu.rtu_server(ctx)
    u = ctx.int("unit", 1, 255)
    m = Memory(ctx, srv.add_slave(u))
    b = m.words("h", "H", 9, 2)
    head = ctx.bytes("f", 4)
    pad = bytes([(5 * i + 1) % 251 for i in range(n - 4)])
    f = head + pad + rtu_frame(ctx, u, struct.pack(">BHH", 6, 10, ctx.word("w")))
    k = len(f)
    ctx.assume(f[k - 2] + 256 * f[k - 1] != crc16(ctx, f[:k - 2]))
    val = ctx.word("v")
    nxt = rtu_frame(ctx, u, struct.pack(">BHH", 6, 9, val))
    mark = []

    def second():
        mark.append(port.sent())
        port.feed(nxt)
    port.steps = [lambda: port.feed(f), second]
    rtu.serve(ctx, srv, port)
    ctx.check(len(mark) == 1 and len(mark[0]) == 0, "bytes that are not a valid frame are not answered")
    b.vals = [val, b.vals[1]]
    ctx.check(ctx.eq(port.sent(), nxt), "the next valid frame is answered")
    m.same("only the valid frame is executed")
    ctx.cover("done")
