"""Several calls on one master (C18, C19, C23, C24): every call sends its own prescribed request and returns the data of its own
answer, whatever calls and failures preceded it"""
import struct
from harness.common import *
from harness.net import *
from harness import master, rtu

SPECS = ("coils 1", "coils 9", "coils 16", "inputs 9", "holding 1", "holding 2", "input 1", "input 4", "coil", "register",
         "multi coils 3", "multi coils 9", "multi registers 1", "multi registers 2", "formatted 2", "mask", "read write 1",
         "read write 2", "status", "diagnostic 0", "diagnostic 2", "device", "raw", "file 1", "file 2", "long 2", "returned 2",
         "words 1")


def words(vals):
    out = b""
    for v in vals:
        out = out + struct.pack(">H", v)
    return out


def prepare(ctx, t, spec):
    """(positional arguments, keyword arguments, request PDU, the PDU of a right answer, what the call then returns)"""
    kind, n = spec.rsplit(" ", 1) if spec[-1].isdigit() else (spec, "0")
    n = int(n)
    a, v = ctx.word("addr" + t), ctx.word("value" + t)
    if kind in ("coils", "inputs"):
        fc = 1 if kind == "coils" else 2
        nb = (n + 7) // 8
        data = ctx.bytes("data" + t, nb)
        return ((fc, a, n), {}, struct.pack(">BHH", fc, a, n), struct.pack(">BB", fc, nb) + data,
                [(data[i // 8] >> (i % 8)) & 1 for i in range(n)])
    if kind in ("holding", "input", "long", "returned", "words"):
        fc = 4 if kind == "input" else 3
        data = ctx.bytes("data" + t, 2 * n)
        kw, want = {}, [master.word_at(data, 2 * i) for i in range(n)]
        if kind == "long":
            kw, want = dict(data_format=">I"), [want[0] * 65536 + want[1]]
        elif kind == "returned":
            kw, want = dict(returns_raw=True), list(data)
        elif kind == "words":
            kw, want = dict(data_format=">BB"), list(data)
        return (fc, a, n), kw, struct.pack(">BHH", fc, a, n), struct.pack(">BB", fc, 2 * n) + data, want
    if kind == "coil":
        on = ctx.int("on" + t, 0, 1)
        pdu = struct.pack(">BHH", 5, a, 0xFF00 * on)
        return (5, a), dict(output_value=on), pdu, pdu, [a, 0xFF00 * on]
    if kind == "register":
        pdu = struct.pack(">BHH", 6, a, v)
        return (6, a), dict(output_value=v), pdu, pdu, [a, v]
    if kind == "multi coils":
        bits = [ctx.int("b%s-%d" % (t, i), 0, 1) if i in (0, n - 1) else i % 2 for i in range(n)]
        pdu = struct.pack(">BHHB", 15, a, n, (n + 7) // 8) + bytes(pack_bits(ctx, bits))
        return (15, a), dict(output_value=bits), pdu, struct.pack(">BHH", 15, a, n), [a, n]
    if kind == "multi registers":
        regs = [ctx.word("r%s-%d" % (t, i)) for i in range(n)]
        pdu = struct.pack(">BHHB", 16, a, n, 2 * n) + words(regs)
        return (16, a), dict(output_value=regs), pdu, struct.pack(">BHH", 16, a, n), [a, n]
    if kind == "formatted":
        regs = [ctx.int("f%s-%d" % (t, i), 0, 0xFFFFFFFF) for i in range(n)]
        pdu = struct.pack(">BHHB", 16, a, 2 * n, 4 * n)
        for r in regs:
            pdu = pdu + struct.pack(">I", r)
        return (16, a), dict(output_value=regs, data_format=">" + n * "I"), pdu, struct.pack(">BHH", 16, a, 2 * n), [a, 2 * n]
    if kind == "mask":
        o = ctx.word("or" + t)
        pdu = struct.pack(">BHHH", 22, a, v, o)
        return (22, a), dict(and_mask=v, or_mask=o), pdu, pdu, [a, v, o]
    if kind == "read write":
        regs = [ctx.word("w%s-%d" % (t, i)) for i in range(3 - n)]
        data = ctx.bytes("data" + t, 2 * n)
        pdu = struct.pack(">BHHHHB", 23, a, n, v, len(regs), 2 * len(regs)) + words(regs)
        return ((23, a, n), dict(output_value=regs, write_starting_address_fc23=v), pdu, struct.pack(">BB", 23, 2 * n) + data,
                [master.word_at(data, 2 * i) for i in range(n)])
    if kind == "status":
        d = ctx.bytes("data" + t, 1)
        return (7, 0), {}, struct.pack(">B", 7), struct.pack(">B", 7) + d, list(d)
    if kind == "diagnostic":
        d = ctx.bytes("data" + t, n)
        pdu = struct.pack(">BH", 8, a) + d
        return (8, a), dict(output_value=list(d)), pdu, pdu, [a] + list(d)
    if kind == "device":
        d = ctx.bytes("data" + t, 4)
        return ((43, 0), dict(output_value=[1, v & 255]), struct.pack(">BBBB", 43, 14, 1, v & 255), struct.pack(">BB", 43, 14) + d,
                [14] + list(d))
    if kind == "raw":
        d = ctx.bytes("data" + t, 4)
        pdu = struct.pack(">BH", 6, a) + d[:2]
        return ((ctx.M.defines.RAW, 0), dict(pdu=pdu, data_format=">HBB"), pdu, struct.pack(">B", 6) + d,
                [master.word_at(d, 0), d[2], d[3]])
    if kind == "file":
        f = ctx.word("file" + t)
        addr, qty, num = (a, 3)[:n], (1, 2)[:n], (f, v)[:n]
        pdu = struct.pack(">BB", 20, 7 * n)
        ans, want = struct.pack(">BB", 20, sum([2 + 2 * q for q in qty])), []
        for i in range(n):
            pdu = pdu + struct.pack(">BHHH", 6, num[i], addr[i], qty[i])
            d = ctx.bytes("data%s-%d" % (t, i), 2 * qty[i])
            ans = ans + struct.pack(">BB", 2 * qty[i] + 1, 6) + d
            want.append(tuple([master.word_at(d, 2 * j) for j in range(qty[i])]))
        return (20, addr, qty), dict(number_file=num), pdu, ans, want
    raise ValueError(spec)


def calls(ctx, over="tcp", specs=("coils 9", "holding 1"), bad=()):
    """bad: per call None (a right answer), "exception", "silence", "cut" (the last byte is missing and comes later) or "closed" """
    unit = ctx.byte("unit")
    got, answers, state = [], [], dict(late=b"")
    code = []

    def peer(req):
        got.append(req)
        kind, pdu = answers[-1]
        if kind == "exception":
            pdu = struct.pack(">BB", 0x80 + pdu[0], code[-1])
        f = req[:4] + struct.pack(">HB", len(pdu) + 1, unit) + pdu if over == "tcp" else rtu_frame(ctx, unit, pdu)
        if kind in ("silence", "closed"):
            return []
        if kind == "cut":
            if over != "tcp":
                # what is left is not by chance a frame of its own
                ctx.assume(f[-3] + 256 * f[-2] != crc16(ctx, f[:-3]))
            state["late"] = f[-1:]
            return [f[:-1]]
        return [f]
    if over == "serial":
        m, port = rtu.serial_master(ctx, peer)
    elif over == "gate":
        m, net = rtu.tcp_master(ctx, peer)
    else:
        net = Net(ctx)
        ctx.env = net
        m = ctx.keep(ctx.M.modbus_tcp.TcpMaster("device", 502))
    if over != "serial":
        def on_send(sock, data):
            sock.feed(*peer(data))
            sock.end = "eof" if answers[-1][0] == "closed" else "idle"
        net.peer = on_send
    for i, spec in enumerate(specs):
        args, kw, pdu, ans, want = prepare(ctx, str(i), spec)
        kind = bad[i] if i < len(bad) else None
        if state["late"]:
            # what was missing from an earlier answer arrives now
            if over == "serial":
                port.feed(state["late"])
            else:
                for s in net.made:
                    if not s.closed:
                        s.feed(state["late"])
            state["late"] = b""
        code.append(ctx.int("code%d" % i, 1, 255) if kind == "exception" else 0)
        answers.append((kind, ans))
        del got[:]
        ex, r = ctx.raises(m.execute, unit, *args, **kw)
        ctx.check(len(got) == 1, "call %d (%s): one request is sent" % (i, spec))
        if over == "tcp":
            ctx.check(len(got[0]) == len(pdu) + 7 and ctx.eq(list(got[0][2:]), [0, 0, 0, len(pdu) + 1, unit] + list(pdu)),
                      "call %d (%s): the request is the prescribed one" % (i, spec))
        else:
            ctx.check(ctx.eq(got[0], rtu_frame(ctx, unit, pdu)), "call %d (%s): the request is the prescribed one" % (i, spec))
        if kind is None:
            ctx.check(ex is None, "call %d (%s): a right answer is accepted" % (i, spec))
            ctx.check(ctx.eq(list(r), want), "call %d (%s): the data of its own answer is returned" % (i, spec))
        else:
            ctx.check(ex is not None, "call %d (%s): %s is an error" % (i, spec, kind))
            if kind == "exception":
                ctx.check(isinstance(ex, ctx.M.modbus.ModbusError) and ex.get_exception_code() == code[-1],
                          "call %d (%s): the exception of the slave is raised" % (i, spec))
        ctx.check(ctx.locks_free(), "locks are released")
    ctx.observe("last", got[0])
    ctx.cover("done")


def tour(n):
    """a sequence over 0..n-1 in which every ordered pair stands next to each other once (Eulerian circuit)"""
    left = dict((i, list(range(n - 1, -1, -1))) for i in range(n))
    stack, out = [0], []
    while stack:
        v = stack[-1]
        if left[v]:
            stack.append(left[v].pop())
        else:
            out.append(stack.pop())
    return out[::-1]


def chunks(specs, size):
    """call sequences of `size` calls in which every ordered pair of `specs` occurs"""
    t = [specs[i] for i in tour(len(specs))]
    return [tuple(t[k:k + size]) for k in range(0, len(t) - 1, size - 1)]
