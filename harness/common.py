"""Helpers shared by the harnesses.  Everything goes through the public interface of modbus_tk."""
import struct

RD_COILS, RD_DI, RD_HR, RD_IR = 1, 2, 3, 4
W_COIL, W_REG, W_COILS, W_REGS, W_MASK, RW_REGS = 5, 6, 15, 16, 22, 23

TABLES = {1: "COILS", 2: "DISCRETE_INPUTS", 3: "HOLDING_REGISTERS", 4: "ANALOG_INPUTS"}


def tables(ctx):
    d = ctx.M.defines
    return dict(C=d.COILS, D=d.DISCRETE_INPUTS, H=d.HOLDING_REGISTERS, I=d.ANALOG_INPUTS)


def pdu_read(fc, addr, qty):
    return struct.pack(">BHH", fc, addr, qty)


def pack_bits(ctx, bits):
    """bits packed least-significant-bit first, zero padded"""
    out = []
    n = len(bits)
    k = 0
    while k < n:
        v = 0
        j = 0
        while j < 8 and k + j < n:
            v = v + (ctx.ite(bits[k + j], 1, 0) << j)
            j += 1
        out.append(v)
        k += 8
    return out


def be16(ctx, v):
    """two bytes of a register value (two's complement)"""
    v = v & 0xFFFF
    return [v >> 8, v & 0xFF]


def signed16(ctx, w):
    return struct.unpack(">h", struct.pack(">H", w))[0]


def regval(ctx, w, unsigned):
    """the value a slave stores for the 16-bit word w"""
    if unsigned:
        return w
    return signed16(ctx, w)


def raw_query(ctx, unit, seen=None):
    """a Query whose frames are the PDUs themselves, for one unit"""
    class RawQuery(ctx.M.modbus.Query):
        def parse_request(self, request):
            return (unit, request)

        def build_response(self, response_pdu):
            return response_pdu
    return RawQuery()


def ask(ctx, db, pdu, unit=1):
    """the answer of the data model to a request PDU"""
    return db.handle_request(raw_query(ctx, unit), pdu)


class Block(object):
    def __init__(self, slave, name, table, start, vals):
        self.slave = slave
        self.name = name
        self.table = table
        self.start = start
        self.vals = list(vals)
        self.n = len(self.vals)

    def read(self, ctx):
        return self.slave.get_values(self.name, self.start, self.n)


class Memory(object):
    """slave memory with known contents, and the comparison of all of it with an expectation"""

    def __init__(self, ctx, slave):
        self.ctx = ctx
        self.slave = slave
        self.blocks = []

    def add(self, name, table, start, vals):
        t = tables(self.ctx)[table]
        self.slave.add_block(name, t, start, len(vals))
        b = Block(self.slave, name, table, start, vals)
        self.slave.set_values(name, start, list(b.vals))
        self.blocks.append(b)
        return b

    def words(self, name, table, start, n, unsigned=True, lo=None, hi=None):
        if lo is None:
            lo = 0 if unsigned else -0x8000
            hi = 0xFFFF if unsigned else 0x7FFF
        return self.add(name, table, start, [self.ctx.int("%s.%d" % (name, i), lo, hi) for i in range(n)])

    def bits(self, name, table, start, n):
        return self.add(name, table, start, [self.ctx.int("%s.%d" % (name, i), 0, 1) for i in range(n)])

    def same(self, what, known=None):
        """every cell equals the expectation"""
        conds = []
        for b in self.blocks:
            got = b.read(self.ctx)
            conds.append(self.ctx.eq(list(got), b.vals))
        self.ctx.check(self.ctx.all(conds), what, known=known)


def is_exception(ctx, r, fc, code):
    return ctx.eq(r, struct.pack(">BB", fc + 0x80, code))


def crc16(ctx, data):
    """CRC-16/Modbus by its bit-wise definition (polynomial 0xA001 reflected, initial value 0xFFFF)"""
    crc = 0xFFFF
    for b in data:
        crc = crc ^ b
        for _ in range(8):
            low = crc & 1
            crc = crc >> 1
            # low ? crc ^ 0xA001 : crc, written without a branch
            crc = crc ^ ((low << 15) ^ (low << 13) ^ low)
    return crc


def rtu_frame(ctx, unit, pdu):
    body = struct.pack(">B", unit) + pdu
    crc = crc16(ctx, body)
    return body + struct.pack("<H", crc)


def tcp_frame(ctx, tid, unit, pdu, pid=0, length=None):
    if length is None:
        length = len(pdu) + 1
    return struct.pack(">HHHB", tid, pid, length, unit) + pdu


def nothing(r):
    """no bytes are sent for this answer"""
    return r is None or len(r) == 0


def related(ctx, req, d):
    """d, with its transaction identifier taken relative to the one of the request (zeros: the same)"""
    r = b""
    for i in range(min(2, len(d), len(req))):
        r = r + struct.pack(">B", req[i] ^ d[i])
    return r + d[len(r):]
