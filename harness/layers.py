"""Properties of the protocol seen from outside: through the real servers and masters on scripted transports (C09, C10,
C14-C19)"""
import struct
from harness.common import *
from harness.net import *
from harness import rtu
from harness import tcpmaster


def served(ctx, over, frames, setup, end="idle", err=True):
    """the frames are sent one by one to a real server; what it sends in return to each"""
    outs = []
    if over == "tcp":
        net = Net(ctx)
        a = Sock(net, "a")
        net.pending.append(a)
        s = Served(ctx, net, error_on_missing_slave=err)
        setup(s.srv)
        state = []

        def idle():
            outs.append(a.sent())
            if len(state) < len(frames):
                a.feed(frames[len(state)])
                state.append(1)
                return True
            return False
        s.run(idle)
        srv = s.srv
    else:
        srv, port = rtu.rtu_server(ctx, error_on_missing_slave=err)
        setup(srv)

        def step(i):
            def f():
                outs.append(port.sent())
                if i < len(frames):
                    port.feed(frames[i])
            return f
        port.steps = [step(i) for i in range(len(frames) + 1)]
        rtu.serve(ctx, srv, port)
    ctx.check(len(outs) == len(frames) + 1, "the server keeps serving")
    return srv, [outs[i + 1][len(outs[i]):] for i in range(len(frames))]


def pack(ctx, over, unit, pdu, tid=None):
    if over == "tcp":
        return tcp_frame(ctx, 0x1234 if tid is None else tid, unit, pdu)
    return rtu_frame(ctx, unit, pdu)


def addressed(ctx, over="tcp", nslaves=2, fcs=(6, 3), err=True):
    """C09: requests to any units through a real server: answers and effects of the registered ones only"""
    ids, mems = [], []

    def setup(srv):
        for i in range(nslaves):
            k = ctx.int("id%d" % i, 1, 255)
            for j in ids:
                ctx.assume(k != j)
            m = Memory(ctx, srv.add_slave(k))
            m.words("hr%d" % i, "H", 7, 2)
            ids.append(k)
            mems.append(m)
    frames, todo = [], []
    for i, fc in enumerate(fcs):
        unit = ctx.int("unit%d" % i, 1, 255)
        v = ctx.word("v%d" % i)
        pdu = struct.pack(">BHH", 6, 8, v) if fc == 6 else struct.pack(">BHHBH", 16, 7, 1, 2, v) if fc == 16 else struct.pack(
            ">BHH", fc, 7, 2)
        frames.append(pack(ctx, over, unit, pdu, 0x4000 + i))
        todo.append((fc, unit, v, pdu))
    srv, outs = served(ctx, over, frames, setup, err=err)
    ctx.observe("outs", list(outs))
    for i, (fc, unit, v, pdu) in enumerate(todo):
        target = None
        for k, m in zip(ids, mems):
            if unit == k:
                target = m
        if target is None:
            ctx.check(len(outs[i]) == 0, "no slave with this id: no answer")
            ctx.cover("absent")
            continue
        b = target.blocks[0]
        if fc == 6:
            b.vals[1] = v
            want = pdu
        elif fc == 16:
            b.vals[0] = v
            want = struct.pack(">BHH", 16, 7, 1)
        elif fc == 3:
            want = struct.pack(">BBHH", 3, 4, b.vals[0], b.vals[1])
        else:
            want = struct.pack(">BB", fc + 0x80, 2 if fc < 7 else 1)
        ctx.check(ctx.eq(outs[i], pack(ctx, over, unit, want, 0x4000 + i)), "the addressed slave answers under its own id")
        ctx.cover("answered")
    for m in mems:
        m.same("only the addressed slave changes")
    ctx.cover("done")


def broadcast(ctx, over="tcp", fc=6, q=1, good=True):
    """C10: a broadcast through a real server is executed by all slaves and answered by nothing, the next request as ever"""
    mems = []

    def setup(srv):
        for k, unsigned in ((3, True), (1, False), (9, True)):
            m = Memory(ctx, srv.add_slave(k, unsigned))
            m.words("hr%d" % k, "H", 7 if k != 9 else 30, 3, unsigned)
            m.bits("co%d" % k, "C", 7, 9)
            mems.append((m, unsigned, k))
    vals = [ctx.word("v%d" % i) for i in range(q)]
    if fc == 6:
        pdu = struct.pack(">BHH", 6, 8, vals[0])
    elif fc == 5:
        pdu = struct.pack(">BHH", 5, 8, 0xFF00)
    elif fc == 16:
        pdu = struct.pack(">BHHB", 16, 7, q, 2 * q) + words(vals)
    elif fc == 15:
        pdu = struct.pack(">BHHBB", 15, 7, 3, 1, vals[0] & 255)
    elif fc == 22:
        pdu = struct.pack(">BHHH", 22, 8, vals[0], 0x00FF)
    elif fc == 23:
        pdu = struct.pack(">BHHHHB", 23, 7, 2, 8, q, 2 * q) + words(vals)
    else:
        pdu = struct.pack(">BHH", fc, 7, 1)
    f = pack(ctx, over, 0, pdu, ctx.word("tid"))
    nxt = pack(ctx, over, 1, struct.pack(">BHH", 6, 7, 4711), 5)
    srv, outs = served(ctx, over, [f, nxt], setup)
    ctx.observe("outs", list(outs))
    ctx.check(len(outs[0]) == 0, "a broadcast is never answered")
    ctx.check(ctx.eq(outs[1], nxt), "the next request is answered")
    for m, unsigned, k in mems:
        h, c = m.blocks
        if k != 9:
            if fc == 6:
                h.vals[1] = regval(ctx, vals[0], unsigned)
            elif fc in (16, 23):
                for i in range(q):
                    h.vals[i + (fc == 23)] = regval(ctx, vals[i], unsigned)
            elif fc == 22:
                old = ctx.ite(h.vals[1] >= 0, h.vals[1], h.vals[1] + 65536)
                h.vals[1] = regval(ctx, (old & vals[0]) | (0xFF & (0xFFFF - vals[0])), unsigned)
        if fc == 5:
            c.vals[1] = 1
        elif fc == 15:
            for i in range(3):
                c.vals[i] = (vals[0] >> i) & 1
        if k == 1:
            h.vals[0] = 4711
        m.same("every slave carries out a broadcast write; a broadcast read changes nothing")
    ctx.cover("done")


def words(vals):
    r = b""
    for v in vals:
        r = r + struct.pack(">H", v)
    return r


def watch(ctx, unit_of, seen):
    """every request that reaches a slave is recorded and answered by a fixed PDU (documented hook)"""
    def hook(args):
        seen.append(args[1])
        return struct.pack(">BB", 0x41, 7)
    ctx.M.hooks.install_hook("modbus.Slave.handle_request", hook)


def rtu_damaged(ctx, n=7):
    """C16: any n bytes with a wrong CRC arrive at a real RTU server: nothing is executed or answered"""
    seen = []
    watch(ctx, None, seen)
    unit = ctx.int("unit", 1, 255)
    f = ctx.bytes("f", n)
    if n >= 3:
        ctx.assume(ctx.not_(f[n - 2] + 256 * f[n - 1] == crc16(ctx, f[:n - 2])))
    srv, outs = served(ctx, "rtu", [f], lambda s: s.add_slave(unit))
    ctx.check(len(seen) == 0, "a frame with a wrong CRC executes nothing")
    ctx.check(len(outs[0]) == 0, "a frame with a wrong CRC is not answered")
    ctx.cover("done")


def rtu_valid(ctx, n=7):
    """C16: any valid frame of n bytes reaches the slave it is addressed to, its PDU unchanged, and is answered by a valid frame"""
    seen = []
    watch(ctx, None, seen)
    unit = ctx.int("unit", 1, 255)
    pdu = ctx.bytes("pdu", n - 3)
    srv, outs = served(ctx, "rtu", [rtu_frame(ctx, unit, pdu)], lambda s: s.add_slave(unit))
    ctx.check(len(seen) == 1 and ctx.eq(list(seen[0]), list(pdu)), "exactly the PDU bytes are handed on")
    ctx.check(ctx.eq(outs[0], rtu_frame(ctx, unit, struct.pack(">BB", 0x41, 7))), "the response frame is address, PDU and CRC")
    ctx.cover("done")


def rtu_corrupted(ctx, n=8):
    """C17: a valid frame XOR an error arrives at a real RTU server; on the accepted path no forbidden pattern is possible"""
    seen = []
    watch(ctx, None, seen)
    unit = ctx.int("unit", 1, 255)
    body = ctx.bytes("body", n - 3)
    f = rtu_frame(ctx, unit, body)
    e = ctx.bytes("error", n)
    g = bytes([a ^ b for a, b in zip(f, e)])
    k = g[0]
    ctx.assume(k != 0)
    srv, outs = served(ctx, "rtu", [g], lambda s: s.add_slave(k))
    if len(seen) or len(outs[0]):
        ctx.no_error_pattern(e, "a corrupted frame is accepted", content=[unit] + list(body))
        ctx.cover("accepted")
    else:
        ctx.check(ctx.any([x != 0 for x in e]), "the uncorrupted frame is accepted")
        ctx.cover("rejected")


def master_corrupted(ctx, over="serial", n=7, fc=3):
    """C17: a corrupted answer arrives at a real master: no data and (serial) no exception of the slave is taken from it.
    Over TCP the first five bytes of a corrupted answer can be a valid exception frame: that is another frame."""
    unit = ctx.byte("unit")
    if n == 5:
        body = struct.pack(">B", fc + 0x80) + ctx.bytes("body", 1)
    elif fc == 6:
        body = struct.pack(">B", fc) + ctx.bytes("body", n - 4)
    else:
        body = struct.pack(">BB", fc, n - 5) + ctx.bytes("body", n - 5)
    f = rtu_frame(ctx, unit, body)
    e = ctx.bytes("error", n)
    g = bytes([a ^ b for a, b in zip(f, e)])
    answer = lambda req: [g]
    if over == "serial":
        m, port = rtu.serial_master(ctx, answer)
    else:
        m, port = rtu.tcp_master(ctx, answer, "idle")
    if fc == 6:
        ex, r = ctx.raises(m.execute, unit, 6, 1, output_value=2)
    else:
        ex, r = ctx.raises(m.execute, unit, fc, 1, (n - 5) // 2 if n > 5 else 1)
    if ex is None or over == "serial" and isinstance(ex, ctx.M.modbus.ModbusError):
        ctx.no_error_pattern(e, "data is returned from a corrupted frame", content=[unit] + list(body))
        ctx.cover("accepted")
    else:
        ctx.check(ctx.any([x != 0 for x in e]) or n == 5 and over != "serial", "the uncorrupted frame is accepted")
        ctx.cover("rejected")


def tcp_frames(ctx, n=12, wrong=True):
    """C15: a frame of any content and length field, at the end of a connection: executed and answered exactly if complete"""
    seen = []
    watch(ctx, None, seen)
    net = Net(ctx)
    f = ctx.bytes("f", n)
    if n >= 6:
        ctx.assume(f[4] * 256 + f[5] >= n - 6)
        ctx.assume(f[4] * 256 + f[5] > 0)
    a = Sock(net, "a", [f], "eof")
    net.pending.append(a)
    s = Served(ctx, net)
    unit = ctx.int("unit", 1, 255)
    s.srv.add_slave(unit)
    s.run()
    good = False
    if n >= 7:
        good = ctx.all([f[4] == (n - 6) >> 8, f[5] == (n - 6) & 255])
    ctx.observe("sent", a.sent())
    if len(seen):
        ctx.check(good, "only complete frames are executed")
        ctx.check(len(seen) == 1 and ctx.eq(list(seen[0]), list(f[7:])), "exactly the PDU is handed to the data model")
        if f[6] == 0:
            ctx.check(len(a.sent()) == 0, "a broadcast is not answered")
        else:
            ctx.check(ctx.eq(a.sent(), f[:4] + struct.pack(">HB", 3, unit) + struct.pack(">BB", 0x41, 7)),
                      "the answer carries the ids of the request and its own length")
        ctx.cover("answered")
    else:
        ctx.check(ctx.not_(ctx.all([good, ctx.any([f[6] == unit, f[6] == 0])])) if n > 6 else True, "complete frames are executed")
        ctx.check(len(a.sent()) == 0, "nothing is answered")
        ctx.cover("silent")


CALLS = ("coils", "inputs", "holding", "input", "coil", "register", "multi coils", "multi registers", "mask", "read write", "status",
         "diagnostic", "device", "raw", "file")


def sent_frame(ctx, over="tcp", call="holding"):
    """C14, C16, C18: the bytes that a real master puts on its connection for a call with arbitrary arguments"""
    got = []

    def answer(req):
        got.append(req)
        return []
    if over == "serial":
        m, port = rtu.serial_master(ctx, answer)
    elif over == "gate":
        m, net = rtu.tcp_master(ctx, answer, "eof")
    else:
        net = Net(ctx)
        ctx.env = net
        m = ctx.keep(ctx.M.modbus_tcp.TcpMaster("device", 502))

        def peer(sock, data):
            got.append(data)
            sock.end = "eof"
        net.peer = peer
    u, a, v = ctx.byte("unit"), ctx.word("addr"), ctx.word("value")
    q = ctx.word("qty")
    D = ctx.M.defines
    kw = {}
    if call in ("coils", "inputs", "holding", "input"):
        fc = 1 + ("coils", "inputs", "holding", "input").index(call)
        q = 9 if fc < 3 else 3
        args = (fc, a, q)
        pdu = struct.pack(">BHH", fc, a, q)
    elif call == "coil":
        on = ctx.int("on", 0, 1)
        args, kw = (5, a), dict(output_value=on)
        pdu = struct.pack(">BHH", 5, a, 0xFF00 * on)
    elif call == "register":
        args, kw = (6, a), dict(output_value=v)
        pdu = struct.pack(">BHH", 6, a, v)
    elif call == "multi coils":
        bits = [ctx.int("b%d" % i, 0, 1) for i in range(10)]
        args, kw = (15, a), dict(output_value=bits)
        pdu = struct.pack(">BHHB", 15, a, 10, 2) + bytes(pack_bits(ctx, bits))
    elif call == "multi registers":
        regs = [ctx.int("r%d" % i, -0x8000, 0xFFFF) for i in range(3)]
        args, kw = (16, a), dict(output_value=regs)
        pdu = struct.pack(">BHHB", 16, a, 3, 6) + words([ctx.ite(r < 0, r + 65536, r) for r in regs])
    elif call == "mask":
        args, kw = (22, a), dict(and_mask=v, or_mask=q)
        pdu = struct.pack(">BHHH", 22, a, v, q)
    elif call == "read write":
        regs = [ctx.word("r%d" % i) for i in range(2)]
        args, kw = (23, a, 4), dict(output_value=regs, write_starting_address_fc23=v)
        pdu = struct.pack(">BHHHHB", 23, a, 4, v, 2, 4) + words(regs)
    elif call == "status":
        args = (7, 0)
        pdu = struct.pack(">B", 7)
    elif call == "diagnostic":
        d = [ctx.byte("d%d" % i) for i in range(2)]
        args, kw = (8, a), dict(output_value=d)
        pdu = struct.pack(">BHBB", 8, a, d[0], d[1])
    elif call == "device":
        d = [ctx.byte("d%d" % i) for i in range(2)]
        args, kw = (43, 0), dict(output_value=d)
        pdu = struct.pack(">BBBB", 43, 14, d[0], d[1])
    elif call == "raw":
        pdu = ctx.bytes("pdu", 6)
        args, kw = (D.RAW, 0), dict(pdu=pdu, expected_length=8)
    else:
        n2 = ctx.word("file")
        args, kw = (20, (a, v), (2, 1)), dict(number_file=(n2, 3))
        pdu = struct.pack(">BBBHHHBHHH", 20, 14, 6, n2, a, 2, 6, 3, v, 1)
    ex, r = ctx.raises(m.execute, u, *args, **kw)
    ctx.check(ex is not None, "no answer: an error")
    sent = b""
    for s in got:
        sent = sent + s
    if over == "tcp":
        ctx.check(len(sent) == len(pdu) + 7, "one request frame is sent")
        ctx.check(ctx.eq(list(sent[2:]), [0, 0, 0, len(pdu) + 1, u] + list(pdu)), "header and PDU of the request are as prescribed")
    else:
        ctx.check(ctx.eq(sent, rtu_frame(ctx, u, pdu)), "the request is address, prescribed PDU and CRC")
    ctx.observe("pdu", sent[7:] if over == "tcp" else sent)
    ctx.cover("done")
