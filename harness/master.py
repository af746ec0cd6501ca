"""Requests the master builds (C18) and what it makes of the answers (C19)"""
import struct
from harness.common import *


def pdu_master(ctx, answer=None, sent=None, units=None, hooks=True):
    """a Master whose frames are the PDUs themselves; every request gets `answer`"""
    M = ctx.M
    sent = [] if sent is None else sent

    class PduQuery(M.modbus.Query):
        def build_request(self, pdu, slave):
            if units is not None:
                units.append(slave)
            return pdu

        def parse_response(self, response):
            return response

    class PduMaster(M.modbus.Master):
        def _do_open(self):
            pass

        def _do_close(self):
            return True

        def _send(self, buf):
            sent.append(buf)

        def _recv(self, expected_length=-1):
            if answer is None:
                raise ValueError("no answer")
            return answer

        def _make_query(self):
            return PduQuery()
    return ctx.keep(PduMaster(1.0)), sent


def outcome(ctx, ok, ex, sent, want, what):
    """exactly the prescribed request when the arguments are valid, nothing sent and an error otherwise"""
    if len(sent) == 0:
        ctx.check(ctx.not_(ok), what + ": valid arguments are sent")
        ctx.check(ex is not None, what + ": refused arguments raise")
        ctx.cover("refused")
    else:
        ctx.check(len(sent) == 1, what + ": one request")
        ctx.observe("request", sent[0])
        ctx.check(ok, what + ": arguments that do not fit are refused")
        ctx.check(ctx.eq(list(sent[0]), want), what + ": the request is the prescribed one")
        ctx.cover("sent")
    ctx.check(ctx.locks_free(), "locks are released")


def word_ok(ctx, v):
    return ctx.all([v >= 0, v <= 0xFFFF])


def reg_ok(ctx, v):
    return ctx.all([v >= -0x8000, v <= 0xFFFF])


def req_read(ctx, fc=3, qty=None):
    m, sent = pdu_master(ctx)
    a = ctx.int("addr", -70000, 140000)
    ok = word_ok(ctx, a)
    if qty is None:
        # quantities that do not fit 16 bits
        qty = ctx.int("qty", -70000, 140000)
        ctx.assume(ctx.any([qty < 0, qty > 0xFFFF]))
        ok = False
    unit = ctx.byte("unit")
    ex, r = ctx.raises(m.execute, unit, fc, a, qty)
    outcome(ctx, ok, ex, sent, [fc] + be16(ctx, a) + be16(ctx, qty), "read")


def req_single(ctx, fc=6):
    m, sent = pdu_master(ctx)
    a = ctx.int("addr", -70000, 140000)
    v = ctx.int("value", -70000, 140000)
    ex, r = ctx.raises(m.execute, 1, fc, a, output_value=v)
    if fc == 5:
        outcome(ctx, word_ok(ctx, a), ex, sent, [5] + be16(ctx, a) + [ctx.ite(v == 0, 0, 0xFF), 0], "single coil")
    else:
        outcome(ctx, ctx.all([word_ok(ctx, a), reg_ok(ctx, v)]), ex, sent, [6] + be16(ctx, a) + be16(ctx, v),
                "single register")


def req_mask(ctx):
    m, sent = pdu_master(ctx)
    a, x, y = ctx.int("addr", -70000, 140000), ctx.int("and", -70000, 140000), ctx.int("or", -70000, 140000)
    ex, r = ctx.raises(m.execute, 1, 22, a, and_mask=x, or_mask=y)
    outcome(ctx, ctx.all([word_ok(ctx, a), word_ok(ctx, x), word_ok(ctx, y)]), ex, sent,
            [22] + be16(ctx, a) + be16(ctx, x) + be16(ctx, y), "mask write")


def req_coils(ctx, n=3, hi=1, kind="list"):
    m, sent = pdu_master(ctx)
    a = ctx.int("addr", -70000, 140000)
    vals = [ctx.int("v%d" % i, 0, hi) for i in range(n)]
    ex, r = ctx.raises(m.execute, 1, 15, a, output_value=vals if kind == "list" else tuple(vals))
    bits = [ctx.ite(v != 0, 1, 0) for v in vals]
    outcome(ctx, word_ok(ctx, a), ex, sent, [15] + be16(ctx, a) + [n >> 8, n & 255, (n + 7) // 8] + pack_bits(ctx, bits),
            "multiple coils")


def req_regs(ctx, n=3, kind="list", fmt=None, free=None):
    """register values: the ones with index in `free` may lie outside of 16 bits"""
    m, sent = pdu_master(ctx)
    a = ctx.int("addr", -70000, 140000)
    ok = word_ok(ctx, a)
    if free is None:
        free = range(min(n, 3))
    vals = []
    for i in range(n):
        if i in free:
            v = ctx.int("v%d" % i, -70000, 140000)
            ok = ctx.all([ok, reg_ok(ctx, v)])
        else:
            v = ctx.int("v%d" % i, 0, 0xFFFF)
        vals.append(v)
    want = [16] + be16(ctx, a) + [n >> 8, n & 255, 2 * n]
    for v in vals:
        want = want + be16(ctx, v)
    ex, r = ctx.raises(m.execute, 1, 16, a, output_value=vals if kind == "list" else tuple(vals))
    outcome(ctx, ok, ex, sent, want, "multiple registers")


def req_regs_format(ctx, fmt=">HH", lims=((0, 0xFFFF), (0, 0xFFFF))):
    """registers given in a user-defined format"""
    m, sent = pdu_master(ctx)
    a = ctx.int("addr", -70000, 140000)
    vals = [ctx.int("v%d" % i, lo, hi) for i, (lo, hi) in enumerate(lims)]
    data = struct.pack(fmt, *vals)
    n = len(data)
    ex, r = ctx.raises(m.execute, 1, 16, a, output_value=vals, data_format=fmt)
    outcome(ctx, word_ok(ctx, a), ex, sent, [16] + be16(ctx, a) + [0, n // 2, n] + list(data), "formatted registers")


def req_rdwr(ctx, n=2, qty=3):
    m, sent = pdu_master(ctx)
    a, w = ctx.int("addr", -70000, 140000), ctx.int("waddr", -70000, 140000)
    vals = [ctx.int("v%d" % i, -70000, 140000) if i < 2 else ctx.word("v%d" % i) for i in range(n)]
    ok = ctx.all([word_ok(ctx, a), word_ok(ctx, w)] + [reg_ok(ctx, v) for v in vals[:2]])
    ex, r = ctx.raises(m.execute, 1, 23, a, qty, vals, write_starting_address_fc23=w)
    want = [23] + be16(ctx, a) + be16(ctx, qty) + be16(ctx, w) + [n >> 8, n & 255, 2 * n]
    for v in vals:
        want = want + be16(ctx, v)
    outcome(ctx, ok, ex, sent, want, "read/write registers")


def req_files(ctx, n=1, qtys=(2,)):
    m, sent = pdu_master(ctx)
    files = tuple([ctx.int("file%d" % i, -70000, 140000) for i in range(n)])
    recs = tuple([ctx.int("rec%d" % i, -70000, 140000) for i in range(n)])
    ex, r = ctx.raises(m.execute, 1, 20, recs, tuple(qtys), number_file=files)
    want = [20, 7 * n]
    for f, s, q in zip(files, recs, qtys):
        want = want + [6] + be16(ctx, f) + be16(ctx, s) + be16(ctx, q)
    outcome(ctx, ctx.all([word_ok(ctx, v) for v in files + recs]), ex, sent, want, "file record")


def req_files_bad(ctx, case=0):
    m, sent = pdu_master(ctx)
    a = ctx.word("a")
    args = [((a, a), (1,), (a,)), ((a,), (1,), (a, a)), ((), (), ()), (a, 1, None), ((a,), 1, (a,)), ([a], [1], [a])][case]
    ex, r = ctx.raises(m.execute, 1, 20, args[0], args[1], number_file=args[2])
    outcome(ctx, False, ex, sent, [], "file record")


def req_other(ctx, case="status", n=2):
    m, sent = pdu_master(ctx)
    if case == "status":
        ex, r = ctx.raises(m.execute, 1, 7, ctx.int("addr", -70000, 140000))
        outcome(ctx, True, ex, sent, [7], "exception status")
    elif case == "diag":
        sub = ctx.int("sub", -70000, 140000)
        vals = [ctx.int("d%d" % i, -300, 600) for i in range(n)]
        ex, r = ctx.raises(m.execute, 1, 8, sub, output_value=vals)
        ok = ctx.all([word_ok(ctx, sub)] + [ctx.all([v >= 0, v <= 255]) for v in vals])
        outcome(ctx, ok, ex, sent, [8] + be16(ctx, sub) + [v & 255 for v in vals], "diagnostic")
    elif case == "devinfo":
        x, y = ctx.int("code", -300, 600), ctx.int("object", -300, 600)
        ex, r = ctx.raises(m.execute, 1, 43, 0, output_value=[x, y])
        ok = ctx.all([x >= 0, x <= 255, y >= 0, y <= 255])
        outcome(ctx, ok, ex, sent, [43, 14, x & 255, y & 255], "device identification")
    elif case == "raw":
        pdu = ctx.bytes("pdu", n)
        ex, r = ctx.raises(m.execute, 1, 0, ctx.word("a"), ctx.word("q"), pdu=pdu)
        outcome(ctx, True, ex, sent, list(pdu), "raw request")
    else:
        fc = ctx.int("fc", -10, 300)
        ctx.assume(ctx.all([fc != k for k in (0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 20, 22, 23, 43)]))
        ex, r = ctx.raises(m.execute, 1, fc, ctx.word("a"), 1, 1)
        outcome(ctx, False, ex, sent, [], "unsupported function")
        ctx.check(isinstance(ex, ctx.M.exceptions.ModbusFunctionNotSupportedError), "function not supported error")


def req_unit(ctx, framing="tcp", fc=3):
    """unit ids outside 0..255 raise, and nothing is sent"""
    M = ctx.M
    sent = []

    class Master(M.modbus.Master):
        def _do_open(self):
            pass

        def _do_close(self):
            return True

        def _send(self, buf):
            sent.append(buf)

        def _recv(self, expected_length=-1):
            raise ValueError("no answer")

        def _make_query(self):
            return M.modbus_tcp.TcpQuery() if framing == "tcp" else M.modbus_rtu.RtuQuery()
    m = ctx.keep(Master(1.0))
    unit = ctx.int("unit", -70000, 70000)
    a, v = ctx.word("a"), ctx.word("v")
    ex, r = ctx.raises(m.execute, unit, fc, a, 1, v)
    ok = ctx.all([unit >= 0, unit <= 255])
    if sent:
        ctx.check(ok, "a unit id outside 0..255 is refused")
        pdu = [fc] + be16(ctx, a) + (be16(ctx, v) if fc == 6 else [0, 1])
        f = list(sent[0])
        if framing == "tcp":
            ctx.check(ctx.eq(f[2:], [0, 0, 0, 6, unit & 255] + pdu), "the frame carries unit id and request")
        else:
            ctx.check(ctx.eq(f[:-2], [unit & 255] + pdu), "the frame carries unit id and request")
        ctx.cover("sent")
    else:
        ctx.check(ctx.not_(ok), "unit ids 0..255 are accepted")
        ctx.check(ex is not None, "refused unit ids raise")
        ctx.cover("refused")


# ---------------------------------------------------------------------------------------------------------------- C19

def call(ctx, m, fc, qty, extra):
    """a call with valid arguments; the request PDU of RAW calls is a read of registers"""
    kw = dict(extra)
    a = 5
    if fc in (5, 6):
        return ctx.raises(m.execute, 1, fc, a, output_value=1, **kw)
    if fc == 22:
        return ctx.raises(m.execute, 1, fc, a, and_mask=1, or_mask=2, **kw)
    if fc in (15, 16):
        return ctx.raises(m.execute, 1, fc, a, output_value=[1] * qty, **kw)
    if fc == 23:
        return ctx.raises(m.execute, 1, fc, a, qty, [1, 2], **kw)
    if fc == 8:
        return ctx.raises(m.execute, 1, fc, 0, output_value=[1] * qty, **kw)
    if fc == 43:
        return ctx.raises(m.execute, 1, fc, 0, output_value=[1, 0], **kw)
    if fc == 20:
        n = len(qty)
        return ctx.raises(m.execute, 1, fc, tuple([3] * n), tuple(qty), number_file=tuple([4] * n), **kw)
    if fc == 0:
        return ctx.raises(m.execute, 1, fc, 0, pdu=struct.pack(">BHH", 3, a, 1), **kw)
    return ctx.raises(m.execute, 1, fc, a, qty, **kw)


def word_at(pdu, i):
    return pdu[i] * 256 + pdu[i + 1]


def expected(ctx, fc, qty, pdu):
    """(condition under which pdu answers the request, the data then returned)"""
    n = len(pdu)
    if fc in (1, 2):
        nb = (qty + 7) // 8
        return ctx.all([n == 2 + nb, pdu[1] == nb]), lambda: [(pdu[2 + k // 8] >> (k % 8)) & 1 for k in range(qty)]
    if fc in (3, 4, 23):
        return ctx.all([n == 2 + 2 * qty, pdu[1] == 2 * qty]), lambda: [word_at(pdu, 2 + 2 * k) for k in range(qty)]
    if fc in (5, 6, 15, 16):
        return n == 5, lambda: [word_at(pdu, 1), word_at(pdu, 3)]
    if fc == 22:
        return n == 7, lambda: [word_at(pdu, 1), word_at(pdu, 3), word_at(pdu, 5)]
    if fc == 7:
        return n == 2, lambda: [pdu[1]]
    if fc == 8:
        return n == 3 + qty, lambda: [word_at(pdu, 1)] + list(pdu[3:])
    if fc == 43:
        return n >= 2, lambda: list(pdu[1:])
    if fc == 20:
        total = 2 + sum([2 + 2 * q for q in qty])
        if n != total:
            return False, None
        conds = [pdu[1] == n - 2]
        out = []
        p = 2
        for q in qty:
            conds.append(pdu[p] == 2 * q + 1)
            conds.append(pdu[p + 1] == 6)
            out.append(tuple([word_at(pdu, p + 2 + 2 * k) for k in range(q)]))
            p += 2 + 2 * q
        return ctx.all(conds), lambda: out
    raise ValueError(fc)


def answered(ctx, fc=3, qty=2, n=6, extra=(), other=False):
    """every answer of n bytes"""
    pdu = ctx.bytes("pdu", n)
    m, sent = pdu_master(ctx, pdu)
    ex, r = call(ctx, m, fc, qty, extra)
    ctx.check(len(sent) == 1, "the request is sent")
    if n < 2:
        ctx.check(ex is not None, "a truncated answer raises")
        ctx.cover("error")
        return
    good, data = expected(ctx, fc, qty, pdu)
    good = ctx.all([pdu[0] == fc, good])
    exc = ctx.all([pdu[0] == fc + 0x80, n == 2])
    if ex is None:
        ctx.check(good, "data is returned only from an answer to this request of the right size")
        ctx.observe("data", tuple(r))
        ctx.check(ctx.eq(list(r), data()), "the decoded data is the data of the answer")
        ctx.cover("data")
    else:
        ctx.check(ctx.not_(good), "an answer as specified is accepted")
        if isinstance(ex, ctx.M.exceptions.ModbusError):
            ctx.check(ctx.implies(exc, ex.get_exception_code() == pdu[1]), "the exception code of the answer is raised")
            ctx.check(pdu[0] >= 0x80, "a Modbus error is raised only for an exception answer")
            ctx.cover("exception")
        else:
            ctx.check(ctx.not_(exc), "an exception answer raises the Modbus error")
            ctx.cover("error")
    ctx.check(ctx.locks_free(), "locks are released")


def formatted(ctx, fc=3, qty=2, fmt=">I", kinds=(4,)):
    """user-defined format for read data; kinds: byte sizes of the values, negative when signed"""
    n = 2 * qty
    data = ctx.bytes("data", n)
    code = 3 if fc == 0 else fc
    m, sent = pdu_master(ctx, struct.pack(">BB", code, n) + data)
    ex, r = call(ctx, m, fc, qty, (("data_format", fmt),))
    if sum([abs(k) for k in kinds]) != n:
        ctx.check(ex is not None, "an answer whose amount of data does not fit the format raises")
        ctx.cover("error")
        return
    ctx.check(ex is None, "an answer as specified is accepted")
    want = []
    p = 0
    for k in kinds:
        v = 0
        for i in range(abs(k)):
            v = v * 256 + data[p + i]
        p += abs(k)
        if k < 0:
            v = ctx.ite(v >= 1 << (8 * -k - 1), v - (1 << (8 * -k)), v)
        want.append(v)
    ctx.observe("data", tuple(r))
    ctx.check(ctx.eq(list(r), want), "the data is decoded with the given format")
    ctx.cover("data")


def raw_returned(ctx, fc=3, qty=2, n=6):
    """returns_raw: the bytes of the data part"""
    pdu = ctx.bytes("pdu", n)
    m, sent = pdu_master(ctx, pdu)
    ex, r = call(ctx, m, fc, qty, (("returns_raw", True),))
    if ex is None:
        ctx.check(pdu[0] == (3 if fc == 0 else fc), "data is returned only from an answer to this function")
        if fc in (1, 2, 3, 4, 20, 23):
            ctx.check(pdu[1] == n - 2, "data is returned only when the byte count is right")
            ctx.check(ctx.eq(r, pdu[2:]), "the raw data is returned")
        else:
            ctx.check(ctx.eq(r, pdu[1:]), "the raw data is returned")
        ctx.cover("data")
    else:
        if n >= 2:
            code = 3 if fc == 0 else fc
            ok = pdu[0] == code
            if fc in (1, 2, 3, 4, 20, 23):
                ok = ctx.all([ok, pdu[1] == n - 2])
            ctx.check(ctx.not_(ok), "an answer as specified is accepted")
        ctx.cover("error")


def raw_call(ctx, n=4, fmt=">BH"):
    """function RAW: any request, answers to it are decoded with the caller's format"""
    pdu = ctx.bytes("pdu", n)
    m, sent = pdu_master(ctx, pdu)
    req = ctx.bytes("req", 3)
    ctx.assume(req[0] < 0x80)
    ex, r = ctx.raises(m.execute, 1, 0, 0, pdu=req, data_format=fmt)
    size = struct.calcsize(fmt)
    if ex is None:
        ctx.check(pdu[0] == req[0], "data is returned only from an answer to this function")
        ctx.check(n == size + 1, "data is returned only from an answer of the right size")
        ctx.check(ctx.eq(tuple(r), struct.unpack(fmt, pdu[1:])), "the data is decoded with the given format")
        ctx.cover("data")
    else:
        if n == size + 1:
            ctx.check(pdu[0] != req[0], "an answer as specified is accepted")
        if isinstance(ex, ctx.M.exceptions.ModbusError):
            ctx.check(pdu[0] >= 0x80, "a Modbus error is raised only for an exception answer")
        ctx.cover("error")
