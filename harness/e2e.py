"""Master and server of the library together (C20): the master's bytes run through the server's own thread and back"""
import struct
from harness.common import *
from harness.net import *
from harness.rtu import Port, Line, serve


def connect(ctx, over, verbose=False, shorts=0, chop=0, **kw):
    """(server, master) joined by TCP ("tcp"), a serial line ("rtu") or a TCP/serial gateway ("gate")"""
    M = ctx.M
    net = Net(ctx, 400)
    net.shorts = shorts
    ctx.env = net
    state = {"exchanges": 0, "chops": chop}

    def pieces(data):
        if state["chops"] and len(data) > 1:
            state["chops"] -= 1
            k = 1 + ctx.choice("chop", len(data) - 1)
            return [data[:k], data[k:]]
        return [data]

    if over == "tcp":
        srv = ctx.keep(M.modbus_tcp.TcpServer(**kw))

        def exchange(data):
            state["exchanges"] += 1
            conn = Sock(net, "conn%d" % state["exchanges"], pieces(data))
            net.pending.append(conn)
            net.on_idle = srv.stop
            before = len(ctx.threads)
            srv.start()
            for t in [t for t in ctx.threads if t._started and not t._done]:
                t.run_target()
            return conn.sent()
    else:
        line = Line(ctx)
        srv = ctx.keep(M.modbus_rtu.RtuServer(line, **kw))
        line.server = srv
        ctx.env = net

        def exchange(data):
            state["exchanges"] += 1
            line.written = []
            line.steps = [lambda: line.feed(*pieces(data))]
            line.stopped = False
            line.max_reads = 600
            serve(ctx, srv, line)
            return line.sent()
    buf = []

    def joined():
        r = b""
        for b in buf:
            r = r + b
        buf[:] = []
        return r

    if over == "rtu":
        port = Port(ctx)
        master = ctx.keep(M.modbus_rtu.RtuMaster(port))
        port.on_write = buf.append

        def wait():
            if buf:
                port.feed(*pieces(exchange(joined())))
        port.on_wait = wait
    else:
        cls = M.modbus_tcp.TcpMaster if over == "tcp" else M.modbus_rtu_over_tcp.RtuOverTcpMaster
        master = ctx.keep(cls("device", 502))

        def peer(sock, data):
            if sock in net.made:
                buf.append(data)
        net.peer = peer

        def wait(sock):
            if buf and sock in net.made:
                sock.feed(*pieces(exchange(joined())))
        net.on_wait = wait
    srv.set_verbose(verbose)
    master.set_verbose(verbose)
    return srv, master


def words(ctx, vals):
    return [v & 0xFFFF for v in vals]


def bit(ctx, v):
    return ctx.ite(v == 0, 0, 1)


def read_all(ctx, m, unit, b, what):
    """what the master reads of a block is what it holds"""
    fc = {"C": 1, "D": 2, "H": 3, "I": 4}[b.table]
    ex, r = ctx.raises(m.execute, unit, fc, b.start, b.n)
    ctx.check(ex is None, what + ": the read succeeds")
    want = words(ctx, b.vals) if b.table in "HI" else b.vals
    ctx.observe("read", tuple(r))
    ctx.check(ctx.eq(list(r), list(want)), what + ": the master reads what the slave holds")


def slave_with(ctx, srv, unit, unsigned, n, start):
    m = Memory(ctx, srv.add_slave(unit, unsigned))
    lo, hi = (0, 0xFFFF) if unsigned else (-0x8000, 0x7FFF)
    return m, dict(C=m.bits("c", "C", start, n), D=m.bits("d", "D", start, n),
                   H=m.words("h", "H", start, n, lo=lo, hi=hi), I=m.words("i", "I", start, n, lo=lo, hi=hi))


def stored(ctx, v, unsigned):
    return regval(ctx, v & 0xFFFF, unsigned)


def step(ctx, m, srv, unit, bs, op, q, unsigned, tag):
    """one write, by the master or locally; the expectation is updated"""
    h, c = bs["H"], bs["C"]
    o = ctx.choice(tag + ".at", h.n - q + 1)
    a = h.start + o
    if op in (5, 15):
        vals = [ctx.int("%s.v%d" % (tag, i), 0, 1) for i in range(q)]
    else:
        vals = [ctx.int("%s.v%d" % (tag, i), -0x8000, 0xFFFF) for i in range(q)]
    if op == 5:
        ex, r = ctx.raises(m.execute, unit, 5, a, output_value=vals[0])
        c.vals[o] = vals[0]
    elif op == 6:
        ex, r = ctx.raises(m.execute, unit, 6, a, output_value=vals[0])
        h.vals[o] = stored(ctx, vals[0], unsigned)
    elif op == 15:
        ex, r = ctx.raises(m.execute, unit, 15, a, output_value=vals)
        c.vals[o:o + q] = vals
    elif op == 16:
        ex, r = ctx.raises(m.execute, unit, 16, a, output_value=vals)
        h.vals[o:o + q] = [stored(ctx, v, unsigned) for v in vals]
    elif op == 22:
        am, om = ctx.word(tag + ".and"), ctx.word(tag + ".or")
        ex, r = ctx.raises(m.execute, unit, 22, a, and_mask=am, or_mask=om)
        h.vals[o] = regval(ctx, ((h.vals[o] & 0xFFFF) & am) | (om & (0xFFFF ^ am)), unsigned)
    elif op == 23:
        h.vals[o:o + q] = [stored(ctx, v, unsigned) for v in vals]
        ex, r = ctx.raises(m.execute, unit, 23, h.start, h.n, output_value=vals, write_starting_address_fc23=a)
        ctx.check(ex is None and ctx.eq(list(r), words(ctx, h.vals)), "function 23 returns the registers after the write")
    elif op == "set":
        # a local write of values the slave can hold
        lo, hi = (0, 0xFFFF) if unsigned else (-0x8000, 0x7FFF)
        vals = [ctx.int("%s.l%d" % (tag, i), lo, hi) for i in range(q)]
        srv.get_slave(unit).set_values("h", a, vals)
        h.vals[o:o + q] = vals
        ex, r = None, None
    elif op == "inputs":
        lo, hi = (0, 0xFFFF) if unsigned else (-0x8000, 0x7FFF)
        v1 = [ctx.int("%s.i%d" % (tag, i), lo, hi) for i in range(q)]
        v2 = [ctx.int("%s.d%d" % (tag, i), 0, 1) for i in range(q)]
        srv.get_slave(unit).set_values("i", a, v1)
        srv.get_slave(unit).set_values("d", a, v2)
        bs["I"].vals[o:o + q] = v1
        bs["D"].vals[o:o + q] = v2
        ex, r = None, None
    ctx.check(ex is None, "a valid write succeeds")
    if op in (5, 6):
        w = ctx.ite(vals[0] == 0, 0, 0xFF00) if op == 5 else vals[0] & 0xFFFF
        ctx.check(ctx.eq(list(r), [a, w]), "the write returns its address and value")
    elif op in (15, 16):
        ctx.check(ctx.eq(list(r), [a, q]), "the write returns its address and quantity")
    elif op == 22:
        ctx.check(ctx.eq(list(r), [a, am, om]), "the mask write returns its address and masks")


def roundtrip(ctx, over="tcp", ops=(6,), q=1, n=3, unsigned=True, chop=0, shorts=0, verbose=False):
    """writes by the master and locally, then everything read by the master and locally"""
    unit = ctx.int("unit", 1, 255)
    start = ctx.int("start", 0, 65536 - n)
    srv, m = connect(ctx, over, verbose, shorts, chop)
    mem, bs = slave_with(ctx, srv, unit, unsigned, n, start)
    for i, op in enumerate(ops):
        step(ctx, m, srv, unit, bs, op, 1 if op in (5, 6, 22) else q, unsigned, "s%d" % i)
    mem.same("the slave holds what was written")
    for t in "CDHI":
        read_all(ctx, m, unit, bs[t], t)
    mem.same("reading changes nothing")
    ctx.cover("done")


def history(ctx, over="tcp", k=2, q=2, n=3, unsigned=True, options=(5, 6, 15, 16, 22, 23, "set", "inputs")):
    """any k writes"""
    unit = ctx.int("unit", 1, 255)
    srv, m = connect(ctx, over)
    mem, bs = slave_with(ctx, srv, unit, unsigned, n, 7)
    for i in range(k):
        op = ctx.pick("op%d" % i, options)
        step(ctx, m, srv, unit, bs, op, 1 if op in (5, 6, 22) else q, unsigned, "s%d" % i)
    mem.same("the slave holds what was written")
    for t in "CDHI":
        read_all(ctx, m, unit, bs[t], t)
    ctx.cover("done")


LIMIT = {1: 2000, 2: 2000, 3: 125, 4: 125, 15: 1968, 16: 123}


def errors(ctx, over="tcp", fc=3, q=1, n=4, unsigned=True):
    """any address: refused with the slave's exception code, or executed"""
    unit = ctx.int("unit", 1, 255)
    start = ctx.int("start", 0, 65536 - n)
    addr = ctx.word("addr")
    srv, m = connect(ctx, over)
    mem, bs = slave_with(ctx, srv, unit, unsigned, n, start)
    inside = ctx.all([addr >= start, addr + q <= start + n])
    vals = [ctx.int("v%d" % i, 0, 1 if fc in (5, 15) else 0xFFFF) for i in range(min(q, 4))]
    if fc in (1, 2, 3, 4):
        ex, r = ctx.raises(m.execute, unit, fc, addr, q)
    elif fc in (5, 6):
        ex, r = ctx.raises(m.execute, unit, fc, addr, output_value=vals[0])
    elif fc == 22:
        ex, r = ctx.raises(m.execute, unit, fc, addr, and_mask=1, or_mask=2)
    elif fc in (15, 16):
        ex, r = ctx.raises(m.execute, unit, fc, addr, output_value=(vals + [1] * q)[:q])
    code = 2
    if fc in LIMIT and (q == 0 or q > LIMIT[fc]):
        code = 3
        inside = False
    if ex is None:
        ctx.check(inside, "a refused request raises")
        ctx.cover("done")
    else:
        ctx.check(isinstance(ex, ctx.M.modbus.ModbusError), "a refused request raises a Modbus error")
        ctx.check(ex.get_exception_code() == code, "the exception code is the slave's")
        ctx.check(ctx.not_(inside), "a valid request succeeds")
        mem.same("a refused request changes nothing")
        ctx.cover("refused")


def slave_error(ctx, over="tcp", hook="modbus.Slave.handle_write_single_register_request"):
    """an error the slave raises (here from a hook) reaches the master with its code"""
    unit = ctx.int("unit", 1, 255)
    code = ctx.int("code", 1, 255)
    srv, m = connect(ctx, over)
    mem, bs = slave_with(ctx, srv, unit, True, 3, 5)

    def boom(args):
        raise ctx.M.modbus.ModbusError(code)
    ctx.M.hooks.install_hook(hook, boom)
    ex, r = ctx.raises(m.execute, unit, 6, 6, output_value=ctx.word("v"))
    ctx.check(isinstance(ex, ctx.M.modbus.ModbusError), "the slave's error raises a Modbus error")
    ctx.check(ex.get_exception_code() == code, "the exception code is the slave's")
    mem.same("a refused request changes nothing")
    ctx.M.hooks.uninstall_hook(hook)
    read_all(ctx, m, unit, bs["H"], "afterwards")
    ctx.cover("done")


def missing(ctx, over="tcp", fc=3):
    """a slave that is not there: an error, no data; the master goes on"""
    unit = ctx.int("unit", 1, 255)
    other = ctx.int("other", 1, 255)
    ctx.assume(unit != other)
    srv, m = connect(ctx, over)
    mem, bs = slave_with(ctx, srv, unit, True, 3, 5)
    if fc == 3:
        ex, r = ctx.raises(m.execute, other, 3, 5, 2)
    else:
        ex, r = ctx.raises(m.execute, other, 6, 5, output_value=ctx.word("v"))
    ctx.check(ex is not None, "a request to a missing slave raises")
    ctx.check(not isinstance(ex, ctx.M.modbus.ModbusError), "nobody answered: no Modbus exception")
    mem.same("the request has no effect")
    read_all(ctx, m, unit, bs["H"], "afterwards")
    ctx.cover("done")


def big(ctx, over="tcp", fc=3, q=125, unsigned=True, chop=0):
    """requests and answers of the largest sizes: every value symbolic, the address fixed"""
    unit = 17
    srv, m = connect(ctx, over, chop=chop)
    mem = Memory(ctx, srv.add_slave(unit, unsigned))
    t = {1: "C", 2: "D", 3: "H", 4: "I", 15: "C", 16: "H", 23: "H"}[fc]
    lo, hi = (0, 0xFFFF) if unsigned else (-0x8000, 0x7FFF)
    if t in "CD":
        b = mem.bits("b", t, 4000, q + 2)
    else:
        b = mem.words("b", t, 4000, q + 2, lo=lo, hi=hi)
    if fc == 15:
        vals = [ctx.int("v%d" % i, 0, 1) for i in range(q)]
    elif fc in (16, 23):
        # the master treats negative values apart: the sign of each value is fixed
        vals = [ctx.int("v%d" % i, lo if i % 3 == 1 else 0, hi if i % 3 != 1 or lo == 0 else -1)
                for i in range(min(q, 121 if fc == 23 else 123))]
    if fc < 5:
        ex, r = ctx.raises(m.execute, unit, fc, 4001, q)
        ctx.check(ex is None, "the read succeeds")
        want = b.vals[1:1 + q]
        ctx.check(ctx.eq(list(r), words(ctx, want) if t in "HI" else want), "the master reads what the slave holds")
    elif fc == 23:
        b.vals[1:1 + len(vals)] = vals
        ex, r = ctx.raises(m.execute, unit, fc, 4001, q, output_value=vals, write_starting_address_fc23=4001)
        ctx.check(ex is None, "the exchange succeeds")
        ctx.check(ctx.eq(list(r), words(ctx, b.vals[1:1 + q])), "function 23 returns the registers after the write")
    else:
        b.vals[1:1 + q] = vals
        ex, r = ctx.raises(m.execute, unit, fc, 4001, output_value=vals)
        ctx.check(ex is None and ctx.eq(list(r), [4001, q]), "the write returns its address and quantity")
    mem.same("the slave holds what was written, and nothing else changed")
    ctx.cover("done")


SIZES = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "q": 8, "Q": 8}


def formats(ctx, over="tcp", fmt=">I", q=None, unsigned=True):
    """values written with a data_format are the registers that format lays out, and the same format reads them back"""
    unit = 17
    srv, m = connect(ctx, over)
    mem = Memory(ctx, srv.add_slave(unit, unsigned))
    lo, hi = (0, 0xFFFF) if unsigned else (-0x8000, 0x7FFF)
    little, vals, flat = fmt[0] == "<", [], []
    for i, c in enumerate(fmt[1:]):
        n = SIZES[c]
        top = 1 << (8 * n)
        v = ctx.int("v%d" % i, -(top >> 1) if c.islower() else 0, (top >> 1) - 1 if c.islower() else top - 1)
        vals.append(v)
        octets = [(v >> (8 * (n - 1 - j))) & 0xFF for j in range(n)]
        flat.extend(reversed(octets) if little else octets)
    n = len(flat) // 2
    b = mem.words("h", "H", 10, n + 2, lo=lo, hi=hi)
    ex, r = ctx.raises(m.execute, unit, 16, 11, output_value=vals, data_format=fmt)
    ctx.check(ex is None, "the write succeeds")
    ctx.check(ctx.eq(list(r), [11, n]), "the write returns its address and quantity")
    b.vals[1:1 + n] = [regval(ctx, flat[2 * i] * 256 + flat[2 * i + 1], unsigned) for i in range(n)]
    mem.same("the registers hold the values as the format lays them out, and nothing else changed")
    ex, r = ctx.raises(m.execute, unit, 3, 11, n, data_format=fmt)
    ctx.check(ex is None, "the read succeeds")
    ctx.check(ctx.eq(list(r), vals), "the format reads back what it wrote")
    ex, r = ctx.raises(m.execute, unit, 3, 11, n, returns_raw=True)
    ctx.check(ex is None, "the raw read succeeds")
    ctx.check(ctx.eq(list(r), flat), "the raw answer is the octets of the registers")
    ctx.cover("done")
