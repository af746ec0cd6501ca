"""Long sequences of requests to one server (C01-C08, C12, C20): every request gets the answer of the memory as the requests and the
local accesses before it have left it, whatever came before"""
import struct
from harness.common import *
from harness.net import *
from harness import rtu

KINDS = ("rc", "rd", "rh", "ri", "wc", "wr", "wcs", "wrs", "mask", "rw", "status", "bad address", "bad quantity", "bad value",
         "bad function", "bad rw", "bad write", "other", "everyone", "nobody", "set", "set coils", "get", "redefine", "replace", "toggle", "read other")
READS = ("rc", "rd", "rh", "ri", "wrs", "wcs", "rw", "mask", "set", "redefine", "other")


def put_bits(ctx, vals):
    return bytes(pack_bits(ctx, vals))


def put_words(vals):
    out = b""
    for v in vals:
        out = out + struct.pack(">H", v)
    return out


class Plan(object):
    """what the memory holds and what every request must be answered"""

    def __init__(self, ctx, srv, unsigned=True):
        self.ctx = ctx
        self.t = t = tables(ctx)
        self.unsigned = unsigned
        self.one = srv.add_slave(1, unsigned=unsigned)
        self.srv = srv
        w = lambda n, k: [self.word("%s%d" % (n, i)) for i in range(k)]
        b = lambda n, k: [ctx.int("%s%d" % (n, i), 0, 1) for i in range(k)]
        self.mem = {}
        for name, table, start, vals in (("h", "H", 100, w("h", 4)), ("i", "I", 100, w("i", 3)), ("c", "C", 50, b("c", 10)),
                                         ("d", "D", 50, b("d", 3))):
            self.one.add_block(name, t[table], start, len(vals))
            self.one.set_values(name, start, list(vals))
            self.mem[name] = vals
        self.k = self.wc = 0
        self.new_other()

    def new_other(self):
        self.two = self.srv.add_slave(2)
        self.two.add_block("h", self.t["H"], 100, 4)
        self.other = [0, 0, 0, 0]

    def word(self, name):
        return self.ctx.word(name) if self.unsigned else self.ctx.int(name, -32768, 32767)

    def reg(self, w):
        """the register in which a word is kept"""
        return w if self.unsigned else regval(self.ctx, w, False)

    def raw(self, v):
        return v if self.unsigned else v & 0xFFFF

    def step(self, kind):
        """(unit, pdu, expected answer PDU or None) of a request; None for a local access"""
        ctx, m = self.ctx, self.mem
        self.k += 1
        k = "-%d" % self.k
        v = lambda n: ctx.word("%s%s" % (n, k))
        h, c = m["h"], m["c"]
        s = self.k % 2
        if kind == "rc":
            return 1, pdu_read(1, 50 + s, 9), struct.pack(">BB", 1, 2) + put_bits(ctx, c[s:s + 9])
        if kind == "rd":
            return 1, pdu_read(2, 50, 2 + s), struct.pack(">BB", 2, 1) + put_bits(ctx, m["d"][:2 + s])
        if kind == "rh":
            return 1, pdu_read(3, 100 + s, 3), struct.pack(">BB", 3, 6) + put_words([self.raw(x) for x in h[s:s + 3]])
        if kind == "ri":
            return 1, pdu_read(4, 100 + s, 2), struct.pack(">BB", 4, 4) + put_words([self.raw(x) for x in m["i"][s:s + 2]])
        if kind == "wc":
            self.wc += 1
            on = ctx.int("on" + k, 0, 1) if self.wc < 4 else self.wc // 2 % 2
            pdu = struct.pack(">BHH", 5, 53 + s, 0xFF00 * on)
            c[3 + s] = on
            return 1, pdu, pdu
        if kind == "wr":
            w = v("w")
            pdu = struct.pack(">BHH", 6, 101 + s, w)
            h[1 + s] = self.reg(w)
            return 1, pdu, pdu
        if kind == "wcs":
            n = 9 - s
            bits = [ctx.int("b%s-%d" % (k, i), 0, 1) for i in range(n)]
            c[1:1 + n] = bits
            return (1, struct.pack(">BHHB", 15, 51, n, (n + 7) // 8) + put_bits(ctx, bits), struct.pack(">BHH", 15, 51, n))
        if kind == "wrs":
            ws = [v("w%d" % i) for i in range(2 + s)]
            h[1:1 + len(ws)] = [self.reg(x) for x in ws]
            return (1, struct.pack(">BHHB", 16, 101, len(ws), 2 * len(ws)) + put_words(ws),
                    struct.pack(">BHH", 16, 101, len(ws)))
        if kind == "mask":
            a, o = v("and"), v("or")
            pdu = struct.pack(">BHHH", 22, 102, a, o)
            h[2] = self.reg((self.raw(h[2]) & a) | (o & (0xFFFF - a)))
            return 1, pdu, pdu
        if kind == "rw":
            ws = [v("w%d" % i) for i in range(1 + s)]
            h[2:2 + len(ws)] = [self.reg(x) for x in ws]
            return (1, struct.pack(">BHHHHB", 23, 101, 3, 102, len(ws), 2 * len(ws)) + put_words(ws),
                    struct.pack(">BB", 23, 6) + put_words([self.raw(x) for x in h[1:4]]))
        if kind == "status":
            return 1, struct.pack(">B", 7), struct.pack(">BB", 7, 0)
        if kind == "bad address":
            fc = (3, 1)[s]
            return 1, pdu_read(fc, 102 if fc == 3 else 58, 3), struct.pack(">BB", fc + 128, 2)
        if kind == "bad quantity":
            fc = (4, 2)[s]
            return 1, pdu_read(fc, 100 if fc == 4 else 50, 0 if s else 126), struct.pack(">BB", fc + 128, 3)
        if kind == "bad value":
            return 1, struct.pack(">BHH", 5, 52, 0x1234), struct.pack(">BB", 133, 3)
        if kind == "bad function":
            fc = (65, 9)[s]
            return 1, struct.pack(">BHH", fc, 100, 1), struct.pack(">BB", fc + 128, 1)
        if kind == "bad rw":
            return (1, struct.pack(">BHHHHB", 23, 102, 3, 100, 1, 2) + put_words([v("w")]), struct.pack(">BB", 151, 2))
        if kind == "bad write":
            return (1, struct.pack(">BHHB", 16, 103, 2, 4) + put_words([v("w"), v("x")]), struct.pack(">BB", 144, 2))
        if kind == "other":
            w = v("w")
            self.other[s] = w
            pdu = struct.pack(">BHH", 6, 100 + s, w)
            return 2, pdu, pdu if self.two else None
        if kind == "read other":
            return 2, pdu_read(3, 100, 2), struct.pack(">BB", 3, 4) + put_words(self.other[:2]) if self.two else None
        if kind == "everyone":
            w = v("w")
            h[0] = self.reg(w)
            self.other[0] = w
            return 0, struct.pack(">BHH", 6, 100, w), None
        if kind == "nobody":
            return 9, struct.pack(">BHH", 6, 100, v("w")), None
        if kind == "set":
            ws = [self.word("w%s-%d" % (k, i)) for i in range(2)]
            h[1:3] = ws
            self.one.set_values("h", 101, ws)
        elif kind == "set coils":
            bits = [ctx.int("b%s-%d" % (k, i), 0, 1) for i in range(6)]
            c[3:9] = bits
            self.one.set_values("c", 53, bits)
            m["d"][1] = bits[0]
            self.one.set_values("d", 51, bits[0])
            w = self.word("w" + k)
            m["i"][1] = w
            self.one.set_values("i", 101, w)
        elif kind == "get":
            ctx.check(ctx.eq(list(self.one.get_values("h", 100, 4)), h) and ctx.eq(list(self.one.get_values("c", 50, 10)), c),
                      "the local values are the written ones")
        elif kind == "redefine":
            ctx.check(self.same(), "the memory is the one the requests and local accesses lead to")
            self.one.remove_block("h")
            ctx.check(ctx.raises(self.one.get_values, "h", 100, 1)[0] is not None, "the block is gone")
            self.one.add_block("h", self.t["H"], 100, 4)
            h[:] = [0, 0, 0, 0]
        elif kind == "replace" or kind == "toggle":
            ctx.check(self.same(), "the memory is the one the requests and local accesses lead to")
            old, self.two = self.two, None
            if old:
                self.srv.remove_slave(2)
            if not old or kind == "replace":
                self.new_other()
        else:
            raise ValueError(kind)
        return None

    def same(self):
        m = self.mem
        one = self.one
        return self.ctx.all([self.ctx.eq(list(one.get_values("h", 100, 4)), m["h"]),
                             self.ctx.eq(list(one.get_values("i", 100, 3)), m["i"]),
                             self.ctx.eq(list(one.get_values("c", 50, 10)), m["c"]),
                             self.ctx.eq(list(one.get_values("d", 50, 3)), m["d"]),
                             self.two is None or self.ctx.eq(list(self.two.get_values("h", 100, 4)), self.other)])


def stars(kinds, size):
    """sequences of `size` requests in which every a-b and every a-b-a over `kinds` occurs"""
    t = [x for a in kinds for b in kinds for x in (a, b)]
    return [tuple(t[k:k + size]) for k in range(0, len(t) - 2, size - 2)]


def sequence(ctx, over="tcp", kinds=("wr", "rh"), unsigned=True):
    state = dict(i=0, want=None)
    box = []

    def verify(got):
        if state["want"] is None:
            return
        kind, unit, tid, ans = state["want"]
        state["want"] = None
        what = "request %d (%s)" % (tid, kind)
        if ans is None:
            ctx.check(nothing(got), what + " is not answered")
            return
        ctx.check(ctx.eq(got, tcp_frame(ctx, tid, unit, ans) if over == "tcp" else rtu_frame(ctx, unit, ans) if over == "rtu"
                         else ans), what + ": the answer of the memory as it is")

    def following():
        """the frame of the next request, None at the end"""
        while state["i"] < len(kinds):
            kind = kinds[state["i"]]
            state["i"] += 1
            r = box[0].step(kind)
            if r is None:
                continue
            unit, pdu, ans = r
            if unit and ans is None and over == "db":
                continue
            state["want"] = (kind, unit, state["i"], ans)
            return unit, pdu
        return None

    def frame():
        r = following()
        if r is None:
            return None
        return tcp_frame(ctx, state["want"][2], r[0], r[1]) if over == "tcp" else rtu_frame(ctx, r[0], r[1])
    if over == "tcp":
        net = Net(ctx, max_rounds=40 + 12 * len(kinds))
        a = Sock(net, "a")
        net.pending.append(a)
        s = Served(ctx, net, error_on_missing_slave=False)
        box.append(Plan(ctx, s.srv, unsigned))
        seen = [0]

        def idle():
            out = a.sent()
            verify(out[seen[0]:])
            seen[0] = len(out)
            f = frame()
            if f is None:
                return False
            a.feed(f)
            return True
        s.run(idle)
    elif over == "rtu":
        srv, port = rtu.rtu_server(ctx, error_on_missing_slave=False)
        box.append(Plan(ctx, srv, unsigned))
        seen = [0]

        def step():
            out = port.sent()
            verify(out[seen[0]:])
            seen[0] = len(out)
            f = frame()
            if f is not None:
                port.feed(f)
        port.steps = [step] * (len(kinds) + 1)
        rtu.serve(ctx, srv, port)
    else:
        db = ctx.M.modbus.Databank(error_on_missing_slave=False)
        box.append(Plan(ctx, db, unsigned))
        while True:
            r = following()
            if r is None:
                break
            verify(ask(ctx, db, r[1], r[0]))
    ctx.check(state["i"] == len(kinds) and state["want"] is None, "every request is served")
    ctx.check(box[0].same(), "the memory is the one the requests and local accesses lead to")
    ctx.cover("done")
