"""Framing: C14 (TCP master side), C15 (TCP server side), C16 and C17 (RTU)"""
import struct
from harness.common import *


# ---------------------------------------------------------------------------------------------------------------- C14

def tcp_build(ctx, n=5):
    """any unit id, any PDU of n bytes"""
    q = ctx.M.modbus_tcp.TcpQuery()
    pdu = ctx.bytes("pdu", n)
    unit = ctx.int("unit", -1000, 70000)
    ex, f = ctx.raises(q.build_request, pdu, unit)
    if ex is None:
        ctx.observe("frame", f[2:])
        ctx.check(ctx.all([unit >= 0, unit <= 255]), "a unit id outside 0..255 is refused")
        ctx.check(len(f) == n + 7, "the frame is header and PDU")
        ctx.check(ctx.eq(list(f[2:]), [0, 0, (n + 1) >> 8, (n + 1) & 255, unit] + list(pdu)),
                  "request frame: protocol id 0, length, unit id, PDU")
        ctx.cover("built")
    else:
        ctx.check(ctx.any([unit < 0, unit > 255]), "a unit id in 0..255 is accepted")
        ctx.check(isinstance(ex, ctx.M.exceptions.InvalidArgumentError), "refused as an invalid argument")
        ctx.cover("refused")
    ctx.check(ctx.locks_free(), "locks are released")


def tcp_parse(ctx, n=9, reqlen=5, dirty=False):
    """any response of n bytes to a request with any unit id and PDU"""
    q = ctx.M.modbus_tcp.TcpQuery()
    unit = ctx.byte("unit")
    req = q.build_request(ctx.bytes("pdu", reqlen), unit)
    if dirty:
        # an earlier answer, whatever its outcome, does not change the verdict on the next one
        ctx.raises(q.parse_response, ctx.bytes("early", 10))
    resp = ctx.bytes("resp", n)
    ex, p = ctx.raises(q.parse_response, resp)
    good = n >= 7
    if n >= 7:
        good = ctx.all([ctx.eq(resp[0:2], req[0:2]), resp[2] == 0, resp[3] == 0, resp[6] == unit,
                        ctx.eq(list(resp[4:6]), [(n - 6) >> 8, (n - 6) & 255])])
    if ex is None:
        ctx.observe("pdu", p)
        ctx.check(good, "accepted: transaction, protocol, unit and length match")
        ctx.check(ctx.eq(list(p), list(resp[7:])), "exactly the PDU bytes are handed on")
        ctx.cover("accepted")
    else:
        ctx.check(ctx.not_(good), "a matching response is accepted")
        ctx.cover("rejected")


def tcp_execute(ctx, n=11, fc=3, qty=1):
    """the master returns data only from a frame that matches its request (any frame of n bytes arrives)"""
    M = ctx.M
    sent = []
    resp = ctx.bytes("resp", n)

    class Master(M.modbus.Master):
        def _do_open(self):
            pass

        def _do_close(self):
            return True

        def _send(self, buf):
            sent.append(buf)

        def _recv(self, expected_length=-1):
            return resp

        def _make_query(self):
            return M.modbus_tcp.TcpQuery()
    unit = ctx.byte("unit")
    m = ctx.keep(Master(1.0))
    ex, r = ctx.raises(m.execute, unit, fc, ctx.word("a"), qty)
    ctx.check(len(sent) == 1, "one request is sent")
    req = sent[0]
    good = False
    if n >= 7:
        good = ctx.all([ctx.eq(resp[0:2], req[0:2]), resp[2] == 0, resp[3] == 0, resp[6] == unit,
                        ctx.eq(list(resp[4:6]), [(n - 6) >> 8, (n - 6) & 255])])
    if ex is None:
        ctx.check(good, "data is returned only from a response that matches the request")
        ctx.cover("data")
    elif isinstance(ex, M.modbus.ModbusError):
        ctx.check(good, "a slave's exception is taken only from a response that matches the request")
        ctx.cover("exception")
    else:
        ctx.cover("rejected")


# ---------------------------------------------------------------------------------------------------------------- C15

def tcp_server_parse(ctx, n=9):
    q = ctx.M.modbus_tcp.TcpQuery()
    req = ctx.bytes("req", n)
    ex, r = ctx.raises(q.parse_request, req)
    good = n >= 7 and ctx.eq(list(req[4:6]), [(n - 6) >> 8, (n - 6) & 255])
    if ex is None:
        ctx.check(good, "accepted: the length field is the number of bytes that follow")
        unit, pdu = r
        ctx.check(ctx.all([unit == req[6], ctx.eq(list(pdu), list(req[7:]))]), "exactly unit id and PDU are handed on")
        ctx.cover("accepted")
    else:
        ctx.check(ctx.not_(good), "a request whose length field is right is accepted")
        ctx.cover("rejected")


def tcp_server_build(ctx, n=9, k=5):
    """request frame of n bytes (valid), response PDU of k bytes"""
    q = ctx.M.modbus_tcp.TcpQuery()
    tid, pid, unit = ctx.word("tid"), ctx.word("pid"), ctx.byte("unit")
    req = struct.pack(">HHHB", tid, pid, n - 6, unit) + ctx.bytes("pdu", n - 7)
    q.parse_request(req)
    resp = ctx.bytes("resp", k)
    f = q.build_response(resp)
    ctx.observe("frame", f)
    ctx.check(ctx.eq(list(f), list(req[0:4]) + [(k + 1) >> 8, (k + 1) & 255, unit] + list(resp)),
              "response frame: ids of the request, length of the response, response PDU")
    ctx.cover("done")


def tcp_server_execute(ctx, n=12, fc=None, reg=True):
    """any frame of n bytes on a server with slave memory: framed answer, or nothing executed"""
    M = ctx.M
    db = M.modbus.Databank()
    s = db.add_slave(17)
    m = Memory(ctx, s)
    m.words("h", "H", 5, 3)
    m.bits("c", "C", 5, 3)
    frame = ctx.bytes("frame", n)
    if n >= 7:
        ctx.assume(frame[6] == 17)
    if fc is not None and n >= 8:
        ctx.assume(frame[7] == fc)
    good = n >= 7 and ctx.eq(list(frame[4:6]), [(n - 6) >> 8, (n - 6) & 255])
    ex, r = ctx.raises(db.handle_request, M.modbus_tcp.TcpQuery(), frame)
    if ex is not None:
        # function codes above 127 have no exception reply; the server drops the request
        ctx.check(frame[7] > 127 if n > 7 else False, "handling a frame raises nothing")
        m.same("a frame that is not answered is not executed")
        return
    ctx.observe("answer", r)
    if nothing(r):
        m.same("a frame that is not answered is not executed")
        ctx.cover("silent")
        return
    # known: errors outside of the slave (a damaged frame that reaches the server's databank) are answered by two raw bytes
    raw = False
    if len(r) == 2:
        raw = ctx.all([r[0] >= 0x80, r[1] == 4])
    framed = False
    if len(r) >= 9:
        framed = ctx.all([ctx.eq(r[0:4], frame[0:4]), r[6] == 17, (r[4] * 256 + r[5]) == len(r) - 6])
    ctx.check(framed, "every answer is a frame with the ids of the request", known=("raw-server-failure", raw))
    ctx.check(good, "only a frame whose length field is right is answered")
    ctx.cover("answered")


def tcp_server_refuses(ctx, n=12, fc=6):
    """a frame whose length field is wrong executes nothing, whatever its content"""
    M = ctx.M
    db = M.modbus.Databank()
    s = db.add_slave(17)
    m = Memory(ctx, s)
    m.words("h", "H", 5, 3)
    m.bits("c", "C", 5, 3)
    frame = ctx.bytes("frame", n)
    if n >= 8:
        ctx.assume(frame[7] == fc)
    if n >= 7:
        ctx.assume(ctx.not_(ctx.eq(list(frame[4:6]), [(n - 6) >> 8, (n - 6) & 255])))
    ctx.raises(db.handle_request, M.modbus_tcp.TcpQuery(), frame)
    m.same("a frame that is too short or whose length field is wrong executes nothing")
    ctx.cover("done")


# ---------------------------------------------------------------------------------------------------------------- C16

def rtu_build(ctx, n=5, side="request"):
    q = ctx.M.modbus_rtu.RtuQuery()
    pdu = ctx.bytes("pdu", n)
    if side == "request":
        unit = ctx.int("unit", -1000, 70000)
        ex, f = ctx.raises(q.build_request, pdu, unit)
        if ex is not None:
            ctx.check(ctx.any([unit < 0, unit > 255]), "an address in 0..255 is accepted")
            ctx.cover("refused")
            return
        ctx.check(ctx.all([unit >= 0, unit <= 255]), "an address outside 0..255 is refused")
    else:
        unit = ctx.byte("unit")
        q.parse_request(rtu_frame(ctx, unit, ctx.bytes("req", 3)))
        f = q.build_response(pdu)
    ctx.observe("frame", f)
    ctx.check(ctx.eq(list(f), list(rtu_frame(ctx, unit, pdu))), "frame is address, PDU and CRC, low byte first")
    ctx.cover("built")


def rtu_parse(ctx, n=6, side="server", dirty=False):
    """any frame of n bytes"""
    q = ctx.M.modbus_rtu.RtuQuery()
    f = ctx.bytes("frame", n)
    if side == "server":
        if dirty:
            ctx.raises(q.parse_request, ctx.bytes("early", 6))
        ex, r = ctx.raises(q.parse_request, f)
        unit = None
    else:
        unit = ctx.byte("unit")
        q.build_request(ctx.bytes("pdu", 5), unit)
        if dirty:
            ctx.raises(q.parse_response, ctx.bytes("early", 6))
        ex, r = ctx.raises(q.parse_response, f)
    good = n >= 3
    if n >= 3:
        crc = crc16(ctx, f[:-2])
        good = f[n - 2] + 256 * f[n - 1] == crc
        if side != "server":
            good = ctx.all([good, f[0] == unit])
    if ex is None:
        ctx.check(good, "accepted: the CRC (and the address) is right")
        if side == "server":
            a, pdu = r
            ctx.check(a == f[0], "the address is handed on")
        else:
            pdu = r
        ctx.check(ctx.eq(list(pdu), list(f[1:-2])), "exactly the PDU bytes are handed on")
        ctx.cover("accepted")
    else:
        ctx.check(ctx.not_(good), "a frame with the right CRC (and address) is accepted")
        ctx.cover("rejected")


def rtu_execute(ctx, n=8, fc=6, unit=9):
    """any frame of n bytes on a server: executed and answered only if its CRC is right"""
    M = ctx.M
    db = M.modbus.Databank()
    s = db.add_slave(unit)
    m = Memory(ctx, s)
    m.words("h", "H", 5, 3)
    m.bits("c", "C", 5, 3)
    f = ctx.bytes("frame", n)
    if n >= 2:
        ctx.assume(ctx.all([f[0] == unit, f[1] == fc]))
    bad = True
    if n >= 3:
        bad = ctx.not_(f[n - 2] + 256 * f[n - 1] == crc16(ctx, f[:-2]))
    ctx.assume(bad)
    ex, r = ctx.raises(db.handle_request, M.modbus_rtu.RtuQuery(), f)
    ctx.check(ex is None and nothing(r), "a frame with a wrong CRC is not answered")
    m.same("a frame with a wrong CRC executes nothing")
    ctx.cover("done")


# ---------------------------------------------------------------------------------------------------------------- C17

def rtu_corrupted(ctx, n=8, side="server", content=True, db=False):
    """a valid frame XOR an error pattern; on the accepted path no forbidden pattern is possible"""
    M = ctx.M
    q = M.modbus_rtu.RtuQuery()
    unit = ctx.byte("unit") if content else 0x11
    body = ctx.bytes("body", n - 3) if content else struct.pack(">B", 3) * (n - 3)
    f = rtu_frame(ctx, unit, body)
    e = ctx.bytes("error", n)
    g = bytes([a ^ b for a, b in zip(f, e)])
    if side == "server":
        ex, r = ctx.raises(q.parse_request, g)
    else:
        q.build_request(struct.pack(">BHH", 3, 0, 1), unit)
        ex, r = ctx.raises(q.parse_response, g)
    if ex is None:
        ctx.no_error_pattern(e, "a corrupted frame is accepted", content=[unit] + list(body))
        ctx.cover("accepted")
    else:
        ctx.check(ctx.any([x != 0 for x in e]), "the uncorrupted frame is accepted")
        ctx.cover("rejected")
