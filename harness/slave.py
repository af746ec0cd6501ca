"""Requests executed by the data model: C01..C08"""
import struct
from harness.common import *

LIMIT = {1: 2000, 2: 2000, 3: 125, 4: 125, 15: 1968, 16: 123}
TABLE = {1: "C", 2: "D", 3: "H", 4: "I", 5: "C", 6: "H", 15: "C", 16: "H", 22: "H", 23: "H"}


def new_slave(ctx, unsigned=True):
    db = ctx.M.modbus.Databank()
    s = db.add_slave(1, unsigned)
    return db, s, Memory(ctx, s)


def neighbours(ctx, m, table, st, n, unsigned):
    """a block right behind the target in the same table, one before it, and blocks at the same addresses elsewhere"""
    if table in ("C", "D"):
        m.bits("behind", table, st + n, 2)
        m.bits("before", table, st - 5, 3)
        m.bits("twin", "D" if table == "C" else "C", st, n)
        m.words("hr", "H", st, 2, unsigned)
        m.words("ir", "I", st, 2, unsigned)
    else:
        m.words("behind", table, st + n, 2, unsigned)
        m.words("before", table, st - 5, 3, unsigned)
        m.words("twin", "I" if table == "H" else "H", st, n, unsigned)
        m.bits("co", "C", st, 2)
        m.bits("di", "D", st, 2)


def start_of(ctx, n):
    """start of the target block: room for neighbours, and every cell has a 16-bit address"""
    return ctx.int("start", 5, 65536 - n)


# ---------------------------------------------------------------------------------------------------------------- C01

def read_bits(ctx, fc=1, n=10, q=None, off=None, unsigned=True, neighbours_too=True, start=None):
    db, s, m = new_slave(ctx, unsigned)
    st = start_of(ctx, n) if start is None else start
    t = TABLE[fc]
    if neighbours_too:
        neighbours(ctx, m, t, st, n, unsigned)
    b = m.words("target", t, st, n, lo=-0x8000 if n < 100 else 0, hi=0xFFFF)
    if q is None:
        q = 1 + ctx.choice("q", n)
    if off is None:
        off = ctx.choice("off", n - q + 1)
    r = ask(ctx, db, pdu_read(fc, st + off, q))
    ctx.observe("reply", r)
    want = [fc, (q + 7) // 8] + pack_bits(ctx, b.vals[off:off + q])
    ctx.check(ctx.eq(list(r), want), "read bits: the reply is the packed cells")
    m.same("read bits: no cell changes")
    ctx.cover("done")


def big_block(ctx, s, table):
    """a block of any size at any start; (start, size)"""
    ctx.big_blocks()
    st = ctx.int("start", 0, 65535)
    size = ctx.int("size", 1, 65536)
    s.add_block("big", tables(ctx)[table], st, size)
    return st, size


def big_read(ctx, fc=1, q=3, unsigned=True):
    """arbitrary block size, arbitrary offset, all contents at the addresses read"""
    db, s, m = new_slave(ctx, unsigned)
    t = TABLE[fc]
    st, size = big_block(ctx, s, t)
    a = ctx.word("addr")
    ctx.assume(ctx.all([a >= st, a + q <= st + size]))
    if fc in (1, 2):
        vals = [ctx.int("v%d" % i, 0, 1) for i in range(q)]
    else:
        vals = [ctx.int("v%d" % i, 0 if unsigned else -0x8000, 0xFFFF if unsigned else 0x7FFF) for i in range(q)]
    s.set_values("big", a, vals)
    r = ask(ctx, db, pdu_read(fc, a, q))
    ctx.observe("reply", r)
    if fc in (1, 2):
        want = [fc, (q + 7) // 8] + pack_bits(ctx, vals)
    else:
        want = [fc, 2 * q]
        for v in vals:
            want = want + be16(ctx, v)
    ctx.check(ctx.eq(list(r), want), "read: the reply is the stored cells")
    ctx.check(ctx.eq(list(s.get_values("big", a, q)), vals), "read: no cell changes")
    ctx.cover("done")


# ---------------------------------------------------------------------------------------------------------------- C02

def read_regs(ctx, fc=3, n=8, q=None, off=None, unsigned=True, neighbours_too=True, start=None):
    db, s, m = new_slave(ctx, unsigned)
    st = start_of(ctx, n) if start is None else start
    t = TABLE[fc]
    if neighbours_too:
        neighbours(ctx, m, t, st, n, unsigned)
    b = m.words("target", t, st, n, unsigned)
    if q is None:
        q = 1 + ctx.choice("q", n)
    if off is None:
        off = ctx.choice("off", n - q + 1)
    r = ask(ctx, db, pdu_read(fc, st + off, q))
    ctx.observe("reply", r)
    want = [fc, 2 * q]
    for v in b.vals[off:off + q]:
        want = want + be16(ctx, v)
    ctx.check(ctx.eq(list(r), want), "read registers: the reply is the stored words")
    m.same("read registers: no cell changes")
    ctx.cover("done")


def reread(ctx, fc=3, change=16, n=3, unsigned=True, twice=1):
    """a read request, a change of any cells by `change`, and a read request again: the reply is the stored cells each time"""
    db, s, m = new_slave(ctx, unsigned)
    st = ctx.int("start", 5, 65535 - n)
    t = TABLE[fc]
    neighbours(ctx, m, t, st, n, unsigned)
    b = m.bits("target", t, st, n) if t in "CD" else m.words("target", t, st, n, unsigned)
    q = 1 + ctx.choice("q", n)
    off = ctx.choice("off", n - q + 1)

    def read(what):
        r = ask(ctx, db, pdu_read(fc, st + off, q))
        vals = b.vals[off:off + q]
        if t in "CD":
            want = [fc, (q + 7) // 8] + pack_bits(ctx, vals)
        else:
            want = [fc, 2 * q]
            for v in vals:
                want = want + be16(ctx, v)
        ctx.check(ctx.eq(list(r), want), what)
    read("the first read: the stored cells")
    for k in range(twice):
        tag = "n%d." % k
        at = ctx.choice(tag + "at", n)
        many = 1 if change in (5, 6, 22) else min(2, n - at)
        lo, hi = (0, 1) if t in "CD" else (-0x8000, 0x7FFF) if change == "set" and not unsigned else (0, 0xFFFF)
        new = [ctx.int(tag + "v%d" % i, lo, hi) for i in range(many)]
        a = st + at
        if change == 5:
            ask(ctx, db, struct.pack(">BHH", 5, a, ctx.ite(new[0], 0xFF00, 0)))
        elif change == 6:
            ask(ctx, db, struct.pack(">BHH", 6, a, new[0]))
        elif change == 22:
            om = ctx.word(tag + "or")
            ask(ctx, db, struct.pack(">BHHH", 22, a, new[0], om))
            new = [((b.vals[at] & 0xFFFF) & new[0]) | (om & (0xFFFF - new[0]))]
        elif change == 15:
            ask(ctx, db, struct.pack(">BHHB", 15, a, many, 1) + bytes(pack_bits(ctx, new)))
        elif change == 16:
            ask(ctx, db, struct.pack(">BHHB", 16, a, many, 2 * many) + b"".join([struct.pack(">H", v) for v in new]))
        elif change == 23:
            ask(ctx, db, struct.pack(">BHHHHB", 23, st + off, q, a, many, 2 * many) + b"".join([struct.pack(">H", v) for v in new]))
        elif change == "again":
            s.remove_block("target")
            s.add_block("target", tables(ctx)[t], st, n)
            b.vals = [0] * n
        if change == "set":
            s.set_values("target", a, list(new))
            b.vals[at:at + many] = new
        elif change != "again":
            b.vals[at:at + many] = [v if t in "CD" else regval(ctx, v, unsigned) for v in new]
        read("read again after a change: the stored cells")
    m.same("only the written cells have changed")
    ctx.cover("done")


# ---------------------------------------------------------------------------------------------------------------- C03

def layout(ctx, s, table, nblocks, max_start=65535):
    """up to three blocks with arbitrary starts and sizes, in arbitrary order of definition, not overlapping"""
    ctx.big_blocks()
    t = tables(ctx)[table]
    out = []
    for i in range(nblocks):
        st = ctx.int("st%d" % i, 0, max_start)
        sz = ctx.int("sz%d" % i, 1, 65536)
        for (a, b) in out:
            ctx.assume(ctx.any([st + sz <= a, a + b <= st]))
        s.add_block("b%d" % i, t, st, sz)
        out.append((st, sz))
    return out


def inside(ctx, blocks, a, q):
    return ctx.any([ctx.all([a >= st, a + q <= st + sz]) for st, sz in blocks])


def refusal_read(ctx, fc=3, nblocks=2, valid_q=(1, 2), other=True, unsigned=True):
    """for all addresses, quantities and layouts: refused with the right code, or not refused"""
    db, s, m = new_slave(ctx, unsigned)
    t = TABLE[fc]
    blocks = layout(ctx, s, t, nblocks)
    if other:
        # another table covers everything: it must not help
        s.add_block("other", tables(ctx)[{"C": "D", "D": "C", "H": "I", "I": "H"}[t]], 0, 65536)
    a = ctx.word("addr")
    case = ctx.choice("case", 1 + len(valid_q))
    if case == 0:
        q = ctx.word("qty")
    else:
        q = valid_q[case - 1]
    bad_q = ctx.any([q < 1, q > LIMIT[fc]])
    ok = inside(ctx, blocks, a, q)
    if case == 0:
        ctx.assume(ctx.any([bad_q, ctx.not_(ok)]))
    else:
        ctx.assume(ok)
    r = ask(ctx, db, pdu_read(fc, a, q))
    ctx.observe("reply", r)
    e2 = ctx.eq(r, struct.pack(">BB", fc + 0x80, 2))
    e3 = ctx.eq(r, struct.pack(">BB", fc + 0x80, 3))
    ctx.check(ctx.implies(bad_q, e3), "quantity out of limits: exception 3")
    ctx.check(ctx.implies(ctx.all([ctx.not_(bad_q), ctx.not_(ok)]), e2), "range outside the blocks: exception 2")
    if case:
        ctx.check(r[0] == fc, "valid request is not refused")
        ctx.cover("accepted")
    else:
        ctx.cover("refused")


def refusal_write(ctx, fc=16, nblocks=2, nbytes=4, unsigned=True):
    """multiple writes with any address, quantity and byte count, carrying nbytes data bytes"""
    db, s, m = new_slave(ctx, unsigned)
    t = TABLE[fc]
    blocks = layout(ctx, s, t, nblocks)
    s.add_block("other", tables(ctx)[{"C": "D", "H": "I"}[t]], 0, 65536)
    a = ctx.word("addr")
    top = nbytes * 8 if fc == 15 else nbytes // 2
    case = ctx.choice("case", 2 if fc == 16 else 3)
    if case == 0:
        q, bc = ctx.word("qty"), ctx.byte("bc")
    else:
        q, bc = top - (case - 1), nbytes
    data = ctx.bytes("data", nbytes)
    need = 2 * q if fc == 16 else (q + 7) // 8
    bad_q = ctx.any([q < 1, q > LIMIT[fc], bc != need])
    ok = inside(ctx, blocks, a, q)
    # truncated or over-long data of an otherwise valid request belongs to C08
    if case == 0:
        ctx.assume(ctx.any([bad_q, ctx.not_(ok)]))
    else:
        ctx.assume(ok)
    # any cell of any block: unchanged by a refused request
    x = ctx.int("x", 0, 200000)
    i = ctx.choice("xblock", nblocks)
    ctx.assume(inside(ctx, [blocks[i]], x, 1))
    old = ctx.int("old", 0, 1 if fc == 15 else 0xFFFF)
    s.set_values("b%d" % i, x, old)
    r = ask(ctx, db, struct.pack(">BHHB", fc, a, q, bc) + data)
    ctx.observe("reply", r)
    e2 = ctx.eq(r, struct.pack(">BB", fc + 0x80, 2))
    e3 = ctx.eq(r, struct.pack(">BB", fc + 0x80, 3))
    ctx.check(ctx.implies(bad_q, e3), "quantity or byte count wrong: exception 3")
    ctx.check(ctx.implies(ctx.all([ctx.not_(bad_q), ctx.not_(ok)]), e2), "range outside the blocks: exception 2")
    if case:
        ctx.check(r[0] == fc, "valid request is not refused")
    else:
        ctx.check(s.get_values("b%d" % i, x, 1)[0] == old, "a refused request changes no cell")
    ctx.cover("done")


def refusal_single(ctx, fc=6, nblocks=2, unsigned=True):
    db, s, m = new_slave(ctx, unsigned)
    t = TABLE[fc]
    blocks = layout(ctx, s, t, nblocks)
    s.add_block("other", tables(ctx)[{"C": "D", "H": "I"}[t]], 0, 65536)
    a = ctx.word("addr")
    ok = inside(ctx, blocks, a, 1)
    x = ctx.int("x", 0, 200000)
    i = ctx.choice("xblock", nblocks)
    ctx.assume(inside(ctx, [blocks[i]], x, 1))
    old = ctx.int("old", 0, 1 if fc == 5 else 0xFFFF)
    s.set_values("b%d" % i, x, old)
    if fc == 5:
        pdu = struct.pack(">BHH", fc, a, ctx.pick("v", [0, 0xFF00]))
    elif fc == 6:
        pdu = struct.pack(">BHH", fc, a, ctx.word("v"))
    else:
        pdu = struct.pack(">BHHH", fc, a, ctx.word("and"), ctx.word("or"))
    r = ask(ctx, db, pdu)
    ctx.observe("reply", r)
    ctx.check(ctx.ite(ok, r[0] == fc, ctx.eq(r, struct.pack(">BB", fc + 0x80, 2))), "refused iff out of range")
    ctx.check(ctx.any([ctx.all([ok, x == a]), s.get_values("b%d" % i, x, 1)[0] == old]),
              "a refused request changes no cell")
    ctx.cover("done")


# ---------------------------------------------------------------------------------------------------------------- C04

def write_single(ctx, fc=6, n=6, unsigned=True):
    """any address inside or outside, any value: exactly one cell of exactly one table"""
    db, s, m = new_slave(ctx, unsigned)
    st = start_of(ctx, n)
    t = TABLE[fc]
    neighbours(ctx, m, t, st, n, unsigned)
    if fc == 5:
        b = m.words("target", t, st, n, lo=0, hi=1)
    else:
        b = m.words("target", t, st, n, unsigned)
    a = ctx.word("addr")
    v = ctx.word("value")
    req = struct.pack(">BHH", fc, a, v)
    r = ask(ctx, db, req)
    ctx.observe("reply", r)
    good = True
    val = regval(ctx, v, unsigned)
    if fc == 5:
        good = ctx.any([v == 0, v == 0xFF00])
        val = ctx.ite(v == 0, 0, 1)
    hit = False
    for blk in m.blocks:
        if blk.table == t:
            for i in range(blk.n):
                here = a == blk.start + i
                hit = ctx.any([hit, here])
                blk.vals[i] = ctx.ite(ctx.all([good, here]), val, blk.vals[i])
    ctx.check(ctx.implies(ctx.all([good, hit]), ctx.eq(r, req)), "single write: the reply echoes the request")
    ctx.check(ctx.implies(ctx.all([ctx.not_(good), hit]), ctx.eq(r, struct.pack(">BB", fc + 0x80, 3))),
              "invalid coil value: exception 3")
    ctx.check(ctx.implies(ctx.not_(hit), r[0] == fc + 0x80), "address outside the blocks is refused")
    m.same("single write: exactly the addressed cell changes")
    ctx.cover("done")


def big_write_single(ctx, fc=6, unsigned=True):
    """block of any size: the addressed cell takes the value, any other cell keeps its value"""
    db, s, m = new_slave(ctx, unsigned)
    t = TABLE[fc]
    st, size = big_block(ctx, s, t)
    a = ctx.word("addr")
    x = ctx.int("x", 0, 131071)
    ctx.assume(ctx.all([a >= st, a < st + size, x >= st, x < st + size]))
    old = ctx.int("old", 0, 0x7FFF)
    s.set_values("big", x, old)
    if fc == 5:
        v = ctx.pick("v", [0, 0xFF00])
        val = 1 if v else 0
    else:
        v = ctx.word("v")
        val = regval(ctx, v, unsigned)
    req = struct.pack(">BHH", fc, a, v)
    r = ask(ctx, db, req)
    ctx.observe("reply", r)
    ctx.check(ctx.eq(r, req), "single write: the reply echoes the request")
    ctx.check(s.get_values("big", a, 1)[0] == val, "single write: the addressed cell holds the value")
    ctx.check(ctx.any([x == a, s.get_values("big", x, 1)[0] == old]), "single write: other cells keep their value")
    ctx.cover("done")


# ---------------------------------------------------------------------------------------------------------------- C05

def data_bits(ctx, data, q):
    return [(data[k // 8] >> (k % 8)) & 1 for k in range(q)]


def data_words(ctx, data, q, unsigned):
    return [struct.unpack(">H" if unsigned else ">h", data[2 * k:2 * k + 2])[0] for k in range(q)]


def write_multi(ctx, fc=16, n=8, q=None, off=None, unsigned=True, neighbours_too=True, start=None):
    db, s, m = new_slave(ctx, unsigned)
    st = start_of(ctx, n) if start is None else start
    t = TABLE[fc]
    if neighbours_too:
        neighbours(ctx, m, t, st, n, unsigned)
    if fc == 15:
        b = m.words("target", t, st, n, lo=0, hi=1)
    else:
        b = m.words("target", t, st, n, unsigned)
    if q is None:
        q = 1 + ctx.choice("q", n)
    if off is None:
        off = ctx.choice("off", n - q + 1)
    nb = 2 * q if fc == 16 else (q + 7) // 8
    data = ctx.bytes("data", nb)
    r = ask(ctx, db, struct.pack(">BHHB", fc, st + off, q, nb) + data)
    ctx.observe("reply", r)
    ctx.check(ctx.eq(r, struct.pack(">BHH", fc, st + off, q)), "multiple write: reply carries address and quantity")
    b.vals[off:off + q] = data_bits(ctx, data, q) if fc == 15 else data_words(ctx, data, q, unsigned)
    m.same("multiple write: every addressed cell holds its value, no other cell changes")
    ctx.cover("done")


def big_write(ctx, fc=16, q=3, unsigned=True):
    db, s, m = new_slave(ctx, unsigned)
    t = TABLE[fc]
    st, size = big_block(ctx, s, t)
    a = ctx.word("addr")
    x = ctx.int("x", 0, 131071)
    ctx.assume(ctx.all([a >= st, a + q <= st + size, x >= st, x < st + size]))
    old = ctx.int("old", 0, 0x7FFF)
    s.set_values("big", x, old)
    nb = 2 * q if fc == 16 else (q + 7) // 8
    data = ctx.bytes("data", nb)
    r = ask(ctx, db, struct.pack(">BHHB", fc, a, q, nb) + data)
    ctx.observe("reply", r)
    ctx.check(ctx.eq(r, struct.pack(">BHH", fc, a, q)), "multiple write: reply carries address and quantity")
    vals = data_bits(ctx, data, q) if fc == 15 else data_words(ctx, data, q, unsigned)
    got = s.get_values("big", x, 1)[0]
    ctx.check(ctx.eq(list(s.get_values("big", a, q)), vals), "multiple write: the addressed cells hold the values")
    ctx.check(ctx.any([ctx.all([x >= a, x < a + q]), got == old]), "multiple write: other cells keep their value")
    ctx.cover("done")


# ---------------------------------------------------------------------------------------------------------------- C06

def mask_write(ctx, n=5, unsigned=True):
    db, s, m = new_slave(ctx, unsigned)
    st = start_of(ctx, n)
    neighbours(ctx, m, "H", st, n, unsigned)
    b = m.words("target", "H", st, n, unsigned)
    off = ctx.choice("off", n)
    am = ctx.word("and")
    om = ctx.word("or")
    req = struct.pack(">BHHH", 22, st + off, am, om)
    r = ask(ctx, db, req)
    ctx.observe("reply", r)
    ctx.check(ctx.eq(r, req), "mask write: the reply echoes the request")
    old = b.vals[off] & 0xFFFF
    new = (old & am) | (om & (0xFFFF - am))
    rr = ask(ctx, db, pdu_read(3, st + off, 1))
    ctx.observe("read", rr)
    ctx.check(ctx.eq(list(rr), [3, 2] + be16(ctx, new)), "mask write: the register reads back as the masked word")
    b.vals[off] = regval(ctx, new, unsigned)
    m.same("mask write: the cell holds the masked value, no other cell changes")
    ctx.cover("done")


def big_mask_write(ctx, unsigned=True):
    db, s, m = new_slave(ctx, unsigned)
    st, size = big_block(ctx, s, "H")
    a = ctx.word("addr")
    x = ctx.int("x", 0, 131071)
    ctx.assume(ctx.all([a >= st, a < st + size, x >= st, x < st + size]))
    old = ctx.word("old")
    s.set_values("big", x, regval(ctx, old, unsigned))
    am = ctx.word("and")
    om = ctx.word("or")
    req = struct.pack(">BHHH", 22, a, am, om)
    r = ask(ctx, db, req)
    ctx.observe("reply", r)
    ctx.check(ctx.eq(r, req), "mask write: the reply echoes the request")
    before = ctx.ite(x == a, old, 0)
    new = (before & am) | (om & (0xFFFF - am))
    ctx.check(s.get_values("big", a, 1)[0] == regval(ctx, new, unsigned), "mask write: the cell holds the masked value")
    ctx.check(ctx.any([x == a, s.get_values("big", x, 1)[0] == regval(ctx, old, unsigned)]),
              "mask write: other cells keep their value")
    ctx.cover("done")


# ---------------------------------------------------------------------------------------------------------------- C07

def rdwr(ctx, n=5, unsigned=True, two=False, qr=None, qw=None, ro=None, wo=None):
    """any valid read and write ranges in one block, or the read in one and the write in another block"""
    db, s, m = new_slave(ctx, unsigned)
    st = start_of(ctx, n + 4)
    b = m.words("target", "H", st, n, unsigned)
    m.words("behind", "H", st + n, 2, unsigned)
    m.words("ir", "I", st, n, unsigned)
    rb = m.words("second", "H", st + n + 2, 2, unsigned) if two else b
    if qr is None:
        qr = 1 + ctx.choice("qr", rb.n)
    if qw is None:
        qw = 1 + ctx.choice("qw", b.n)
    if ro is None:
        ro = ctx.choice("ro", rb.n - qr + 1)
    if wo is None:
        wo = ctx.choice("wo", b.n - qw + 1)
    data = ctx.bytes("data", 2 * qw)
    req = struct.pack(">BHHHHB", 23, rb.start + ro, qr, st + wo, qw, 2 * qw) + data
    r = ask(ctx, db, req)
    ctx.observe("reply", r)
    b.vals[wo:wo + qw] = data_words(ctx, data, qw, unsigned)
    want = [23, 2 * qr]
    for v in rb.vals[ro:ro + qr]:
        want = want + be16(ctx, v)
    ctx.check(ctx.eq(list(r), want), "read/write multiple: the reply is the read range after the write")
    m.same("read/write multiple: exactly the write range changes")
    ctx.cover("done")


def rdwr_refused(ctx, n=4, nbytes=4, unsigned=True):
    """any addresses, quantities and byte count: invalid ones are refused and nothing is written"""
    db, s, m = new_slave(ctx, unsigned)
    st = start_of(ctx, n)
    b = m.words("target", "H", st, n, unsigned)
    m.words("behind", "H", st + n, 1, unsigned)
    blocks = [(st, n), (st + n, 1)]
    ra, rq, wa, wq, bc = ctx.word("ra"), ctx.word("rq"), ctx.word("wa"), ctx.word("wq"), ctx.byte("bc")
    data = ctx.bytes("data", nbytes)
    bad_q = ctx.any([rq < 1, rq > 125, wq < 1, wq > 123, bc != 2 * wq])
    bad_a = ctx.not_(ctx.all([inside(ctx, blocks, ra, rq), inside(ctx, blocks, wa, wq)]))
    ctx.assume(ctx.any([bad_q, bad_a]))
    r = ask(ctx, db, struct.pack(">BHHHHB", 23, ra, rq, wa, wq, bc) + data)
    ctx.observe("reply", r)
    e2 = ctx.eq(r, struct.pack(">BB", 23 + 0x80, 2))
    e3 = ctx.eq(r, struct.pack(">BB", 23 + 0x80, 3))
    # when both a quantity and a range are invalid either code is the corresponding one
    ctx.check(ctx.implies(ctx.not_(bad_a), e3), "invalid quantity: exception 3")
    ctx.check(ctx.implies(ctx.not_(bad_q), e2), "invalid range: exception 2")
    ctx.check(ctx.any([e2, e3]), "invalid request: exception 2 or 3")
    m.same("a refused read/write request changes no cell")
    ctx.cover("done")


def big_rdwr(ctx, qr=2, qw=2, unsigned=True):
    db, s, m = new_slave(ctx, unsigned)
    st, size = big_block(ctx, s, "H")
    ra = ctx.word("ra")
    wa = ctx.word("wa")
    x = ctx.int("x", 0, 131071)
    ctx.assume(ctx.all([ra >= st, ra + qr <= st + size, wa >= st, wa + qw <= st + size, x >= st, x < st + size]))
    old = ctx.int("old", 0, 0x7FFF)
    s.set_values("big", x, old)
    data = ctx.bytes("data", 2 * qw)
    r = ask(ctx, db, struct.pack(">BHHHHB", 23, ra, qr, wa, qw, 2 * qw) + data)
    ctx.observe("reply", r)
    vals = data_words(ctx, data, qw, unsigned)
    want = [23, 2 * qr]
    for i in range(qr):
        v = ctx.ite(x == ra + i, old, 0)
        for j in range(qw):
            v = ctx.ite(wa + j == ra + i, vals[j], v)
        want = want + be16(ctx, v)
    ctx.check(ctx.eq(list(r), want), "read/write multiple: the reply is the read range after the write")
    ctx.check(ctx.eq(list(s.get_values("big", wa, qw)), vals), "read/write multiple: the write range holds the values")
    ctx.check(ctx.any([ctx.all([x >= wa, x < wa + qw]), s.get_values("big", x, 1)[0] == old]),
              "read/write multiple: other cells keep their value")
    ctx.cover("done")


# ---------------------------------------------------------------------------------------------------------------- C08

SUPPORTED = (1, 2, 3, 4, 5, 6, 7, 15, 16, 22, 23)


def effect(ctx, m, fc, pdu, unsigned):
    """(request is complete and exact, list of (table, address, value)) of a write request"""
    n = len(pdu)
    if fc == 5:
        if n < 5:
            return False, []
        a, v = struct.unpack(">HH", pdu[1:5])
        return ctx.any([v == 0, v == 0xFF00]), [("C", a, ctx.ite(v == 0, 0, 1))]
    if fc == 6:
        if n < 5:
            return False, []
        a, v = struct.unpack(">HH", pdu[1:5])
        return True, [("H", a, regval(ctx, v, unsigned))]
    if fc == 22:
        if n < 7:
            return False, []
        a, am, om = struct.unpack(">HHH", pdu[1:7])
        old = 0
        for b in m.blocks:
            if b.table == "H":
                for i in range(b.n):
                    old = ctx.ite(b.start + i == a, b.vals[i] & 0xFFFF, old)
        return True, [("H", a, regval(ctx, (old & am) | (om & (0xFFFF - am)), unsigned))]
    if fc in (15, 16):
        if n < 6:
            return False, []
        a, q, bc = struct.unpack(">HHB", pdu[1:6])
        head, t = 6, "C" if fc == 15 else "H"
    else:
        if n < 10:
            return False, []
        a, q, bc = struct.unpack(">HHB", pdu[5:10])
        head, t = 10, "H"
    room = n - head
    maxq = room * 8 if fc == 15 else room // 2
    need = (q + 7) // 8 if fc == 15 else 2 * q
    ok = ctx.all([q >= 1, q <= maxq, bc == need])
    out = []
    for k in range(min(maxq, 12)):
        if fc == 15:
            v = (pdu[head + k // 8] >> (k % 8)) & 1
        else:
            v = struct.unpack(">H" if unsigned else ">h", pdu[head + 2 * k:head + 2 * k + 2])[0]
        out.append((t, a + k, v, k < q))
    return ok, out


def any_pdu(ctx, length=5, fc=None, n=3, unsigned=True, codes=None):
    """every PDU of this length: the effect of a supported function in full and its function code, or no effect"""
    db, s, m = new_slave(ctx, unsigned)
    st = ctx.int("start", 0, 65535)
    m.words("h", "H", st, n, unsigned)
    m.words("h2", "H", st + n, 1, unsigned)
    m.words("i", "I", st, n, unsigned)
    m.bits("c", "C", st, n)
    m.bits("d", "D", st, n)
    pdu = ctx.bytes("pdu", length)
    if length and fc is not None:
        ctx.assume(pdu[0] == fc)
    elif length and codes == "unknown":
        ctx.assume(ctx.all([pdu[0] != k for k in SUPPORTED]))
    ex, r = ctx.raises(ask, ctx, db, pdu)
    ctx.observe("reply", "exception" if ex is not None else r)
    before = [list(b.vals) for b in m.blocks]
    same = ctx.all([ctx.eq(list(b.read(ctx)), b.vals) for b in m.blocks])
    if fc in (5, 6, 15, 16, 22, 23) and length:
        ok, writes = effect(ctx, m, fc, pdu, unsigned)
        for w in writes:
            t, a, v = w[0], w[1], w[2]
            live = w[3] if len(w) > 3 else True
            for b in m.blocks:
                if b.table == t:
                    for i in range(b.n):
                        b.vals[i] = ctx.ite(ctx.all([live, a == b.start + i]), v, b.vals[i])
        full = ctx.all([ctx.eq(list(b.read(ctx)), b.vals) for b in m.blocks])
        success = False
        if ex is None and r is not None and len(r) > 0:
            success = r[0] == fc
        ctx.check(ctx.any([same, ctx.all([ok, full, success])]),
                  "either the whole effect of the function and its reply, or no effect at all")
        ctx.check(ctx.implies(success, ctx.all([ok, full])), "a success reply means the request was carried out")
    else:
        ctx.check(same, "no cell changes")
    if length:
        code = pdu[0]
        if ex is None:
            ctx.check(r is not None and len(r) >= 2, "a reply of at least two bytes")
            ctx.check(ctx.any([r[0] == code, ctx.all([r[0] == code + 128, len(r) == 2, r[1] != 0])]),
                      "the reply is the function code or a two-byte exception")
            if codes == "unknown":
                ctx.check(ctx.implies(code < 128, ctx.eq(r, struct.pack(">BB", (code & 127) + 128, 1))),
                          "unknown function code: exception 1")
        else:
            ctx.check(code >= 128, "a request with a function code below 128 is answered")
    ctx.check(ctx.locks_free(), "locks are released")
    ctx.cover("done")


HANDLER = {1: "read_coils", 2: "read_discrete_inputs", 3: "read_holding_registers", 4: "read_input_registers",
           5: "write_single_coil", 6: "write_single_register", 7: "read_exception_status", 15: "write_multiple_coils",
           16: "write_multiple_registers", 22: "mask_write_register", 23: "read_write_multiple_registers"}


def raised(ctx, fc=6, unsigned=True):
    """a Modbus error raised while a request is handled (by a hook of the handler): the exception reply carries its code"""
    db, s, m = new_slave(ctx, unsigned)
    st = ctx.int("start", 0, 65532)
    m.words("h", "H", st, 3, unsigned)
    m.words("i", "I", st, 3, unsigned)
    m.bits("c", "C", st, 3)
    m.bits("d", "D", st, 3)
    code = ctx.int("code", 1, 255)

    def boom(args):
        raise ctx.M.modbus.ModbusError(code)
    ctx.M.hooks.install_hook("modbus.Slave.handle_%s_request" % HANDLER[fc], boom)
    pdu = {5: struct.pack(">BHH", 5, st, 0xFF00), 15: struct.pack(">BHHBB", 15, st, 2, 1, 3), 7: struct.pack(">B", 7),
           16: struct.pack(">BHHBHH", 16, st, 2, 4, 7, 8), 22: struct.pack(">BHHH", 22, st, 1, 2),
           23: struct.pack(">BHHHHBH", 23, st, 1, st, 1, 2, 9)}.get(fc, struct.pack(">BHH", fc, st, 2))
    ex, r = ctx.raises(ask, ctx, db, pdu)
    ctx.check(ex is None and ctx.eq(r, struct.pack(">BB", fc + 128, code)), "the exception reply carries the code of the error")
    m.same("a refused request changes nothing")
    ctx.check(ctx.locks_free(), "locks are released")
    ctx.M.hooks.uninstall_hook("modbus.Slave.handle_%s_request" % HANDLER[fc])
    if fc in (3, 4, 1, 2):
        r = ask(ctx, db, pdu)
        b = [x for x in m.blocks if x.table == TABLE[fc]][0]
        want = pack_bits(ctx, b.vals[:2]) if fc < 3 else be16(ctx, b.vals[0]) + be16(ctx, b.vals[1])
        ctx.check(ctx.eq(list(r), [fc, len(want)] + want), "the next request is answered")
    ctx.cover("done")


def damaged_write(ctx, fc=16, q=4, cut=1, unsigned=True):
    """multiple writes whose data part is cut short or too long, all data: no effect, or the full effect"""
    db, s, m = new_slave(ctx, unsigned)
    n = q + 2
    st = start_of(ctx, n)
    b = m.bits("target", "C", st, n) if fc == 15 else m.words("target", "H", st, n, unsigned)
    nb = (q + 7) // 8 if fc == 15 else 2 * q
    data = ctx.bytes("data", nb - cut)
    head = struct.pack(">BHHB", fc, st + 1, q, nb)
    if fc == 23:
        head = struct.pack(">BHHHHB", fc, st, 1, st + 1, q, nb)
    r = ask(ctx, db, head + data)
    ctx.observe("reply", r)
    if cut > 0:
        ctx.check(ctx.eq(r[0], fc + 0x80), "truncated request is refused")
        ctx.check(len(r) == 2, "exception reply of two bytes")
    else:
        if ctx.possible(r[0] == fc):
            ctx.check(r[0] == fc, "one verdict")
            b.vals[1:1 + q] = data_bits(ctx, data, q) if fc == 15 else data_words(ctx, data, q, unsigned)
    m.same("no effect unless it succeeds")
    ctx.cover("done")
