"""Addressing, broadcast, block and slave registries, local access: C09..C13"""
import struct
from harness.common import *


# ---------------------------------------------------------------------------------------------------------------- C09

def addressed(ctx, nslaves=2, framing="tcp", fc=6, err=True):
    """any unit id, any set of registered ids: only the addressed slave acts, absent units stay silent"""
    db = ctx.M.modbus.Databank(err)
    ids = []
    mems = []
    a0 = 7
    for i in range(nslaves):
        k = ctx.int("id%d" % i, 1, 255)
        for j in ids:
            ctx.assume(k != j)
        s = db.add_slave(k)
        m = Memory(ctx, s)
        m.words("hr%d" % i, "H", a0, 2)
        m.bits("co%d" % i, "C", a0, 2)
        ids.append(k)
        mems.append(m)
    unit = ctx.int("unit", 1, 255)
    tid = ctx.word("tid")
    v = ctx.word("value")
    if fc == 3:
        pdu = struct.pack(">BHH", 3, a0, 2)
    elif fc == 1:
        pdu = struct.pack(">BHH", 1, a0, 2)
    elif fc == 6:
        pdu = struct.pack(">BHH", 6, a0 + 1, v)
    elif fc == 15:
        pdu = struct.pack(">BHHBB", 15, a0, 2, 1, v >> 8)
    elif fc == 16:
        pdu = struct.pack(">BHHBH", 16, a0, 1, 2, v)
    elif fc == 22:
        pdu = struct.pack(">BHHH", 22, a0, v, 0x5555)
    elif fc == 23:
        pdu = struct.pack(">BHHHHBH", 23, a0, 2, a0 + 1, 1, 2, v)
    else:
        pdu = struct.pack(">BHH", fc, a0, 2)
    if framing == "tcp":
        q = ctx.M.modbus_tcp.TcpQuery()
        frame = tcp_frame(ctx, tid, unit, pdu)
    else:
        q = ctx.M.modbus_rtu.RtuQuery()
        frame = rtu_frame(ctx, unit, pdu)
    ex, r = ctx.raises(db.handle_request, q, frame)
    ctx.check(ex is None, "handling a well-formed request raises nothing")
    ctx.observe("reply", r)
    hit = ctx.any([unit == k for k in ids])
    target = None
    for i in range(nslaves):
        if unit == ids[i]:
            target = i
    if target is None:
        ctx.check(nothing(r), "no slave with this id: no answer")
        ctx.cover("absent")
    else:
        m = mems[target]
        h, c = m.blocks[0], m.blocks[1]
        code = fc
        if fc == 6:
            h.vals[1] = v
        elif fc == 15:
            h = h
            c.vals[0], c.vals[1] = (v >> 8) & 1, (v >> 9) & 1
        elif fc == 16:
            h.vals[0] = v
        elif fc == 22:
            h.vals[0] = (h.vals[0] & v) | (0x5555 & (0xFFFF - v))
        elif fc == 23:
            h.vals[1] = v
        elif fc not in (1, 3):
            code = fc + 0x80
        if fc == 3 or fc == 23:
            want = [fc, 4] + be16(ctx, h.vals[0]) + be16(ctx, h.vals[1])
        elif fc == 1:
            want = [1, 1] + pack_bits(ctx, c.vals)
        elif code == fc + 0x80:
            want = [code, 1]
        else:
            want = list(pdu[:5]) if fc != 22 else list(pdu)
        if framing == "tcp":
            got_unit, got_pdu = r[6], list(r[7:])
        else:
            got_unit, got_pdu = r[0], list(r[1:-2])
        ctx.check(got_unit == unit, "the answer carries the unit id of the request")
        ctx.check(ctx.eq(got_pdu, want), "the answer comes from the addressed slave")
        ctx.cover("answered")
    for m in mems:
        m.same("only the addressed slave changes")


def addressed_history(ctx, ops=("add", "ask", "remove", "ask"), framing="raw", fc=6, lo=0, hi=300):
    """slaves come and go between requests: every request reaches the slave registered at that moment, or nobody"""
    db = ctx.M.modbus.Databank()
    model = []              # (id, memory)
    gone = []
    n = 0
    for step, op in enumerate(ops + ("ask",)):
        if op == "add":
            k = ctx.int("id%d" % step, lo, hi)
            refuse = ctx.any([k < 1, k > 255] + [k == i for i, _ in model])
            ex, s = ctx.raises(db.add_slave, k)
            ctx.check(ctx.ite(refuse, ex is not None, ex is None), "a slave is added exactly under a free id of 1..255")
            if ex is None:
                m = Memory(ctx, s)
                m.words("hr%d" % step, "H", 7, 2)
                model.append((k, m))
        elif op == "remove":
            k = ctx.int("id%d" % step, lo, hi)
            ctx.raises(db.remove_slave, k)
            gone += [m for i, m in model if i == k]
            model = [(i, m) for i, m in model if not (i == k)]
        elif op == "clear":
            db.remove_all_slaves()
            gone += [m for i, m in model]
            model = []
        elif op == "look":
            k = ctx.int("id%d" % step, lo, hi)
            ex, s = ctx.raises(db.get_slave, k)
            here = ctx.any([k == i for i, _ in model])
            ctx.check(ctx.ite(here, ex is None, ex is not None), "lookup succeeds exactly for a registered id")
        else:
            unit = ctx.int("unit%d" % step, 1, 255)
            v = ctx.word("v%d" % step)
            pdu = struct.pack(">BHH", 6, 8, v) if fc == 6 else struct.pack(">BHH", 3, 7, 2)
            if framing == "tcp":
                ex, r = ctx.raises(db.handle_request, ctx.M.modbus_tcp.TcpQuery(), tcp_frame(ctx, 77, unit, pdu))
            elif framing == "rtu":
                ex, r = ctx.raises(db.handle_request, ctx.M.modbus_rtu.RtuQuery(), rtu_frame(ctx, unit, pdu))
            else:
                ex, r = ctx.raises(ask, ctx, db, pdu, unit)
            ctx.check(ex is None, "handling a well-formed request raises nothing")
            ctx.observe("reply%d" % step, r)
            target = None
            for i, m in model:
                if unit == i:
                    target = m
            if target is None:
                ctx.check(nothing(r), "no slave with this id at this moment: no answer")
                ctx.cover("absent")
            else:
                if fc == 6:
                    target.blocks[0].vals[1] = v
                    want = list(pdu)
                else:
                    want = [3, 4] + be16(ctx, target.blocks[0].vals[0]) + be16(ctx, target.blocks[0].vals[1])
                got = list(r[7:]) if framing == "tcp" else list(r[1:-2]) if framing == "rtu" else list(r)
                ctx.check(ctx.eq(got, want), "the answer comes from the slave registered at this moment")
                ctx.cover("answered")
    for m in gone + [m for _, m in model]:
        m.same("only the addressed slave changes; a removed one is never written again")
    ctx.cover("done")


# ---------------------------------------------------------------------------------------------------------------- C10

def broadcast_bank(ctx, tag, shared):
    """three slaves: two hold the written range at different block positions, one does not; one is signed"""
    db = ctx.M.modbus.Databank()
    mems = []
    for i, (k, unsigned) in enumerate([(3, True), (1, False), (9, True)]):
        s = db.add_slave(k, unsigned)
        m = Memory(ctx, s)
        n = len(shared["h%d" % i])
        m.add("h%d" % i, "H", shared["st%d" % i], [regval(ctx, w, unsigned) for w in shared["h%d" % i]])
        m.add("c%d" % i, "C", shared["st%d" % i], shared["c%d" % i])
        mems.append((k, m))
    return db, mems


def broadcast(ctx, fc=6, length=None, q=2, framing="raw", qr=1):
    shared = {}
    for i in range(3):
        n = 3 - i
        shared["st%d" % i] = ctx.int("st%d" % i, 0, 65535)
        shared["h%d" % i] = [ctx.word("h%d.%d" % (i, k)) for k in range(n)]
        shared["c%d" % i] = [ctx.int("c%d.%d" % (i, k), 0, 1) for k in range(n)]
    db, mems = broadcast_bank(ctx, "b", shared)
    db2, mems2 = broadcast_bank(ctx, "s", shared)
    if length is not None:
        pdu = ctx.bytes("pdu", length)
        if fc is not None and length:
            ctx.assume(pdu[0] == fc)
    elif fc in (5, 6):
        pdu = struct.pack(">BHH", fc, ctx.word("addr"), ctx.word("value"))
    elif fc == 15:
        pdu = struct.pack(">BHHB", fc, ctx.word("addr"), q, 1) + ctx.bytes("data", 1)
    elif fc == 16:
        pdu = struct.pack(">BHHB", fc, ctx.word("addr"), q, 2 * q) + ctx.bytes("data", 2 * q)
    elif fc == 22:
        pdu = struct.pack(">BHHH", fc, ctx.word("addr"), ctx.word("and"), ctx.word("or"))
    elif fc == 23:
        pdu = struct.pack(">BHHHHB", fc, ctx.word("raddr"), qr, ctx.word("addr"), q, 2 * q) + ctx.bytes("data", 2 * q)
    else:
        pdu = struct.pack(">BHH", fc, ctx.word("addr"), ctx.word("qty"))
    if framing == "tcp":
        ex, r = ctx.raises(db.handle_request, ctx.M.modbus_tcp.TcpQuery(), tcp_frame(ctx, ctx.word("tid"), 0, pdu))
    elif framing == "rtu":
        ex, r = ctx.raises(db.handle_request, ctx.M.modbus_rtu.RtuQuery(), rtu_frame(ctx, 0, pdu))
    else:
        ex, r = ctx.raises(ask, ctx, db, pdu, 0)
    ctx.observe("reply", r)
    ctx.check(ex is not None or nothing(r), "a broadcast is never answered")
    if fc in (1, 2, 3, 4):
        for k, m in mems:
            m.same("a broadcast read changes nothing")
    else:
        for k, m in mems2:
            ctx.raises(ask, ctx, db2, pdu, k)
        for (k, m), (k2, m2) in zip(mems, mems2):
            got = [list(b.read(ctx)) for b in m.blocks]
            want = [list(b.read(ctx)) for b in m2.blocks]
            ctx.check(ctx.eq(got, want), "every slave carries out a broadcast as if addressed to it")
    ctx.check(ctx.locks_free(), "locks are released")
    ctx.cover("done")


def broadcast_hook(ctx, which=0):
    """one slave fails (its hook raises): the others still carry the write out and nothing is answered"""
    shared = {}
    for i in range(3):
        shared["st%d" % i] = 10
        shared["h%d" % i] = [ctx.word("h%d.%d" % (i, k)) for k in range(2)]
        shared["c%d" % i] = [ctx.int("c%d.%d" % (i, k), 0, 1) for k in range(2)]
    db, mems = broadcast_bank(ctx, "b", shared)
    bad = mems[which][1].slave

    def boom(args):
        if args[0] is bad:
            raise ValueError("hook")
    ctx.M.hooks.install_hook("modbus.Slave.handle_request", boom)
    v = ctx.word("v")
    ex, r = ctx.raises(ask, ctx, db, struct.pack(">BHH", 6, 11, v), 0)
    ctx.observe("reply", r)
    ctx.check(ex is None and nothing(r), "a broadcast is never answered")
    for i, (k, m) in enumerate(mems):
        if i != which:
            m.blocks[0].vals[1] = regval(ctx, v, k != 1)
        m.same("a slave that fails does not keep the others from executing the broadcast")
    ctx.cover("done")


# ---------------------------------------------------------------------------------------------------------------- C11

def block_history(ctx, ops=("add", "add", "add"), tables_used="HH", names=3, lo=-3, hi=70000):
    """any sequence of block definitions against a reference list"""
    ctx.big_blocks()
    s = ctx.M.modbus.Databank().add_slave(1)
    T = tables(ctx)
    model = []          # (name, table, start, size)
    for step, op in enumerate(ops):
        if op == "any":
            op = ctx.pick("op%d" % step, ["add", "remove", "clear"])
        if op == "add":
            name = "n%d" % (ctx.choice("name%d" % step, min(names, step + 1)) if names else step)
            t = tables_used[ctx.choice("table%d" % step, len(tables_used))]
            st = ctx.int("st%d" % step, lo, hi)
            sz = ctx.int("sz%d" % step, lo, hi)
            ex, _ = ctx.raises(s.add_block, name, T[t], st, sz)
            refuse = ctx.any([sz <= 0, st < 0, any([m[0] == name for m in model])] +
                             [ctx.all([st < m[2] + m[3], m[2] < st + sz]) for m in model if m[1] == t])
            if ex is None:
                ctx.check(ctx.not_(refuse), "an invalid or overlapping block is refused")
                model.append((name, t, st, sz))
                ctx.cover("accepted")
            else:
                ctx.check(refuse, "a valid block is accepted")
                ctx.cover("refused")
        elif op == "remove":
            name = "n%d" % ctx.choice("rname%d" % step, max(1, min(names, step + 1)))
            ex, _ = ctx.raises(s.remove_block, name)
            there = [m for m in model if m[0] == name]
            ctx.check((ex is None) == bool(there), "removing succeeds exactly for a defined name")
            model = [m for m in model if m[0] != name]
        elif op == "touch":
            # an access between the definitions: by name, and by a request at any address
            name = "n%d" % ctx.choice("tname%d" % step, max(1, min(names, step + 1)))
            a = ctx.int("ta%d" % step, 0, 140000)
            ok = ctx.any([ctx.all([m[2] <= a, a < m[2] + m[3]]) for m in model if m[0] == name])
            ex, r = ctx.raises(s.get_values, name, a, 1)
            ctx.check(ctx.ite(ok, ex is None, ex is not None), "exactly the cells of a defined block are readable by its name")
        elif op == "ask":
            t = tables_used[0]
            x = ctx.word("x%d" % step)
            r = s.handle_request(struct.pack(">BHH", {"C": 1, "D": 2, "H": 3, "I": 4}[t], x, 1))
            inside = ctx.any([ctx.all([x >= m[2], x < m[2] + m[3]]) for m in model if m[1] == t])
            ctx.check(ctx.ite(inside, r[0] < 0x80, r[0] >= 0x80), "exactly the defined addresses answer at any moment")
        else:
            s.remove_all_blocks()
            model = []
    check_blocks(ctx, s, model)
    ctx.cover("done")


def bad_table(ctx):
    s = ctx.M.modbus.Databank().add_slave(1)
    ctx.big_blocks()
    ex, _ = ctx.raises(s.add_block, "x", ctx.int("t", 5, 1000), ctx.int("st", 0, 100), ctx.int("sz", 1, 100))
    ctx.check(ex is not None, "an unknown table is refused")
    ex, _ = ctx.raises(s.add_block, "x", tables(ctx)["H"], 0, 1)
    ctx.check(ex is None, "a refused definition leaves no trace")
    ctx.cover("done")


def check_blocks(ctx, s, model):
    """every defined block, and nothing else, is reachable by name and by address"""
    for name in sorted(set(["n0", "n1", "n2", "n3"])):
        there = [m for m in model if m[0] == name]
        if there:
            _, t, st, sz = there[0]
            k = ctx.int("k_" + name, 0, 140000)
            ctx.assume(k < sz)
            ex, r = ctx.raises(s.get_values, name, st + k, 1)
            ctx.check(ex is None and len(r) == 1, "a defined block is reachable by its name")
            v = 7 + int(name[1])
            ex, r = ctx.raises(s.set_values, name, st + k, v)
            ctx.check(ex is None, "a defined block is writable by its name")
            if t in ("H", "I"):
                a = st + k
                fc = 3 if t == "H" else 4
                if ctx.possible(a <= 65535):
                    ctx.assume(a <= 65535)
                    r = s.handle_request(struct.pack(">BHH", fc, a, 1))
                    ctx.check(ctx.eq(r, struct.pack(">BBH", fc, 2, v)), "a defined block answers at each of its addresses")
            ex, r = ctx.raises(s.get_values, name, st + sz, 1)
            ctx.check(ex is not None, "a block ends where it was defined to end")
        else:
            ex, r = ctx.raises(s.get_values, name, 0, 1)
            ctx.check(ex is not None, "an undefined name is not reachable")


def no_ghosts(ctx, ops=("add", "remove", "add"), table="H"):
    """requests outside the blocks that remain are refused, whatever was defined and removed before"""
    ctx.big_blocks()
    s = ctx.M.modbus.Databank().add_slave(1)
    T = tables(ctx)
    model = []
    n = 0
    for op in ops:
        if op == "add":
            st = ctx.int("st%d" % n, 0, 65535)
            sz = ctx.int("sz%d" % n, 1, 65536)
            ex, _ = ctx.raises(s.add_block, "n%d" % n, T[table], st, sz)
            if ex is None:
                model.append(("n%d" % n, st, sz))
            n += 1
        elif model:
            i = ctx.choice("rm%d" % n, len(model))
            s.remove_block(model[i][0])
            model.pop(i)
    x = ctx.word("x")
    r = s.handle_request(struct.pack(">BHH", 3, x, 1))
    ctx.observe("r", r)
    inside = ctx.any([ctx.all([x >= st, x < st + sz]) for _, st, sz in model])
    ctx.check(ctx.ite(inside, r[0] == 3, ctx.eq(r, struct.pack(">BB", 0x83, 2))), "exactly the defined addresses answer")
    ctx.cover("done")


# ---------------------------------------------------------------------------------------------------------------- C12

def local_access(ctx, n=5, kind="list", count=2, table="H"):
    """any address inside or outside: exactly the addressed cells, or the error and no change"""
    s = ctx.M.modbus.Databank().add_slave(1)
    m = Memory(ctx, s)
    st = ctx.int("start", 5, 70000)
    b = m.words("target", table, st, n)
    m.words("behind", table, st + n, 2)
    m.words("before", table, st - 5, 2)
    m.words("twin", "I" if table != "I" else "H", st, n)
    a = ctx.int("addr", -80000, 150000)
    if kind == "scalar":
        vals = [ctx.int("v", -40000, 70000)]
        arg = vals[0]
        count = 1
    elif kind == "range":
        arg = range(3, 3 + count)
        vals = list(arg)
    else:
        vals = [ctx.int("v%d" % i, -40000, 70000) for i in range(count)]
        arg = vals if kind == "list" else tuple(vals)
    ok = ctx.all([a >= st, a + count <= st + n])
    ex, _ = ctx.raises(s.set_values, "target", a, arg)
    if ex is None:
        ctx.check(ok, "access outside of the block is refused")
        for i in range(n):
            for j in range(count):
                b.vals[i] = ctx.ite(a + j == st + i, vals[j], b.vals[i])
        ctx.cover("stored")
    else:
        ctx.check(ctx.not_(ok), "access inside the block is accepted")
        ctx.check(isinstance(ex, ctx.M.exceptions.OutOfModbusBlockError), "out-of-block error")
        ctx.cover("refused")
    m.same("exactly the addressed cells change")
    ctx.observe("cells", list(b.read(ctx)))
    ctx.check(ctx.locks_free(), "locks are released")


def local_read(ctx, n=6, table="C"):
    s = ctx.M.modbus.Databank().add_slave(1)
    m = Memory(ctx, s)
    st = ctx.int("start", 5, 70000)
    b = m.words("target", table, st, n)
    m.words("behind", table, st + n, 2)
    a = ctx.int("addr", -80000, 150000)
    k = ctx.choice("count", n + 3)
    ok = ctx.all([a >= st, a + k <= st + n])
    ex, r = ctx.raises(s.get_values, "target", a, k)
    if ex is None:
        ctx.observe("values", r)
        ctx.check(ok, "reading outside of the block is refused")
        ctx.check(len(r) == k, "as many values as asked for")
        for j in range(k):
            want = 0
            for i in range(n):
                want = ctx.ite(a + j == st + i, b.vals[i], want)
            ctx.check(r[j] == want, "reading returns the cells of the range in order")
        if k == 1:
            ctx.check(ctx.eq(s.get_values("target", a), r), "one value is the default")
        ctx.cover("read")
    else:
        ctx.check(ctx.not_(ok), "reading inside the block is accepted")
        ctx.check(isinstance(ex, ctx.M.exceptions.OutOfModbusBlockError), "out-of-block error")
        ctx.cover("refused")
    m.same("reading changes nothing")


def local_big(ctx, count=3, scalar=False):
    """block of any size"""
    ctx.big_blocks()
    s = ctx.M.modbus.Databank().add_slave(1)
    st = ctx.int("start", 0, 1000000)
    sz = ctx.int("size", 1, 1000000)
    s.add_block("big", tables(ctx)["H"], st, sz)
    x = ctx.int("x", 0, 2000000)
    ctx.assume(ctx.all([x >= st, x < st + sz]))
    old = ctx.int("old", -40000, 70000)
    s.set_values("big", x, old)
    a = ctx.int("addr", -10, 2000010)
    vals = [ctx.int("v%d" % i, -40000, 70000) for i in range(count)]
    ok = ctx.all([a >= st, a + count <= st + sz])
    ex, _ = ctx.raises(s.set_values, "big", a, vals[0] if scalar else vals)
    ctx.check(ctx.ite(ok, ex is None, ex is not None), "accepted exactly inside the block")
    if ex is None:
        got = s.get_values("big", x)[0]
        want = old
        for j in range(count):
            want = ctx.ite(x == a + j, vals[j], want)
        ctx.check(got == want, "exactly the addressed cells change")
        ctx.check(ctx.eq(list(s.get_values("big", a, count)), vals), "the stored values are read back in order")
        ctx.cover("stored")
    else:
        ctx.check(s.get_values("big", x)[0] == old, "a refused access changes nothing")
        ctx.cover("refused")


def local_history(ctx, ops=("set", "get", "write", "get"), n=3, start=1000, unsigned=True):
    """local accesses and requests in any order see one memory; lists handed in or out are never shared with it"""
    s = ctx.M.modbus.Databank().add_slave(1, unsigned)
    m = Memory(ctx, s)
    st = start
    b = m.words("target", "H", st, n, unsigned)
    m.words("behind", "H", st + n, 2)
    m.words("twin", "I", st, n)
    lo, hi = (0, 0xFFFF) if unsigned else (-0x8000, 0x7FFF)
    for step, op in enumerate(ops + ("get",)):
        k = 1 + step % 2
        a = ctx.int("a%d" % step, 0, 65535)
        ok = ctx.all([a >= st, a + k <= st + n])
        if op == "set":
            vals = [ctx.int("v%d.%d" % (step, j), lo, hi) for j in range(k)]
            ex, _ = ctx.raises(s.set_values, "target", a, vals)
            ctx.check(ctx.ite(ok, ex is None, ex is not None), "a local write is accepted exactly inside the block")
            for i in range(n):
                for j in range(k):
                    b.vals[i] = ctx.ite(ctx.all([ok, a + j == st + i]), vals[j], b.vals[i])
            for j in range(k):
                vals[j] = 4711
            vals.append(1)
            del vals[:]
        elif op == "write":
            v = ctx.word("w%d" % step)
            ctx.assume(ctx.any([a < st + n, a >= st + n + 2]))
            one = ctx.all([a >= st, a < st + n])
            r = s.handle_request(struct.pack(">BHH", 6, a, v))
            ctx.check(ctx.ite(one, r[0] == 6, r[0] == 0x86), "a request is accepted exactly inside the block")
            for i in range(n):
                b.vals[i] = ctx.ite(a == st + i, regval(ctx, v, unsigned), b.vals[i])
        else:
            ex, r = ctx.raises(s.get_values, "target", a, k)
            ctx.check(ctx.ite(ok, ex is None, ex is not None), "a local read is accepted exactly inside the block")
            if ex is None:
                ctx.check(len(r) == k, "as many values as asked for")
                for j in range(k):
                    want = 0
                    for i in range(n):
                        want = ctx.ite(a + j == st + i, b.vals[i], want)
                    ctx.check(r[j] == want, "reading returns the values written last")
                if isinstance(r, list):
                    for j in range(k):
                        r[j] = 4711
                    del r[:]
    m.same("exactly the addressed cells change")
    ctx.cover("done")


def local_unknown(ctx):
    s = ctx.M.modbus.Databank().add_slave(1)
    m = Memory(ctx, s)
    m.words("target", "H", ctx.int("start", 0, 70000), 3)
    a = ctx.int("addr", -80000, 150000)
    for name in ("other", "", "Target"):
        ex, _ = ctx.raises(s.set_values, name, a, [1, 2])
        ctx.check(isinstance(ex, ctx.M.exceptions.MissingKeyError), "unknown block: missing-key error")
        ex, _ = ctx.raises(s.get_values, name, a, 2)
        ctx.check(isinstance(ex, ctx.M.exceptions.MissingKeyError), "unknown block: missing-key error")
    m.same("nothing changes")
    ctx.cover("done")


# ---------------------------------------------------------------------------------------------------------------- C13

def slave_history(ctx, ops=("add", "add", "get"), lo=-2, hi=400):
    srv = ctx.M.modbus_tcp.TcpServer()
    model = []      # (id, object)
    for step, op in enumerate(ops):
        if op == "any":
            op = ctx.pick("op%d" % step, ["add", "remove", "get", "clear"])
        k = ctx.int("id%d" % step, lo, hi)
        here = ctx.any([k == i for i, _ in model])
        if op == "add":
            ex, s = ctx.raises(srv.add_slave, k)
            refuse = ctx.any([k < 1, k > 255, here])
            if ex is None:
                ctx.check(ctx.not_(refuse), "an invalid or used id is refused")
                model.append((k, s))
                ctx.cover("added")
            else:
                ctx.check(refuse, "a free id of 1..255 is accepted")
                ctx.cover("refused")
        elif op == "remove":
            ex, _ = ctx.raises(srv.remove_slave, k)
            ctx.check(ctx.ite(here, ex is None, ex is not None), "removing succeeds exactly for a registered id")
            if ex is None:
                model = [m for m in model if not (m[0] == k)]
        elif op == "get":
            ex, s = ctx.raises(srv.get_slave, k)
            ctx.check(ctx.ite(here, ex is None, ex is not None), "lookup succeeds exactly for a registered id")
            if ex is None:
                ctx.check(any([m[0] == k and m[1] is s for m in model]), "lookup returns the slave added under this id")
        else:
            srv.remove_all_slaves()
            model = []
    # the final registry, at an arbitrary id
    x = ctx.int("x", lo, hi)
    here = ctx.any([x == i for i, _ in model])
    ex, s = ctx.raises(srv.get_slave, x)
    ctx.check(ctx.ite(here, ex is None, ex is not None), "lookup succeeds exactly for a registered id")
    if ex is None:
        ctx.check(any([m[0] == x and m[1] is s for m in model]), "lookup returns the slave added under this id")
    ex, _ = ctx.raises(srv.remove_slave, x)
    ctx.check(ctx.ite(here, ex is None, ex is not None), "removing succeeds exactly for a registered id")
    ex, _ = ctx.raises(srv.get_slave, x)
    ctx.check(ex is not None, "a removed slave is gone")
    ctx.check(ctx.locks_free(), "locks are released")
    ctx.cover("done")
