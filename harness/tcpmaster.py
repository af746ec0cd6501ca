"""TcpMaster over the scripted network (C23)"""
import struct
from harness.common import *
from harness.net import *


class Peer(object):
    """the device at the other end: answers the requests it receives completely as scripted"""

    def __init__(self, ctx, net, answer):
        self.ctx = ctx
        self.net = net
        self.got = {}
        self.requests = []
        self.answer = answer
        net.peer = self.received

    def received(self, sock, data):
        buf = self.got.get(sock.name, b"") + data
        # the length fields of the requests are concrete: they only depend on the function
        while len(buf) >= 6:
            n = 6 + self.ctx.concrete(buf[4] * 256 + buf[5])
            if len(buf) < n:
                break
            self.requests.append(buf[:n])
            self.answer(len(self.requests) - 1, buf[:n], sock)
            buf = buf[n:]
        self.got[sock.name] = buf


def new_master(ctx, net, **kw):
    ctx.env = net
    return ctx.keep(ctx.M.modbus_tcp.TcpMaster("device", 502, **kw))


def answer_for(ctx, req, fc, data):
    """a right answer frame for the request, with this data part of the PDU"""
    return req[0:4] + struct.pack(">H", 2 + len(data)) + req[6:7] + struct.pack(">B", fc) + data


def reads(ctx, fc=3, qty=2, cuts=2, tail=0, verbose=False):
    """a right answer, split anywhere, followed by other bytes: its data is returned and no more is consumed"""
    net = Net(ctx)
    nb = 2 * qty if fc in (3, 4) else (qty + 7) // 8
    data = ctx.bytes("data", nb)
    extra = ctx.bytes("extra", tail)

    def answer(i, req, sock):
        sock.feed(*(split(ctx, answer_for(ctx, req, fc, struct.pack(">B", nb) + data), cuts) + [extra]))
    peer = Peer(ctx, net, answer)
    m = new_master(ctx, net)
    m.set_verbose(verbose)
    u, a = ctx.byte("unit"), ctx.word("addr")
    ex, r = ctx.raises(m.execute, u, fc, a, qty)
    ctx.check(len(peer.requests) == 1, "one request is sent")
    ctx.check(ctx.eq(peer.requests[0][2:], tcp_frame(ctx, 0, u, pdu_read(fc, a, qty))[2:]), "the request is the prescribed one")
    ctx.check(ex is None, "the answer is accepted")
    ctx.observe("data", tuple(r))
    if fc in (3, 4):
        want = [data[2 * i] * 256 + data[2 * i + 1] for i in range(qty)]
    else:
        want = [(data[i // 8] >> (i % 8)) & 1 for i in range(qty)]
    ctx.check(ctx.eq(list(r), want), "the data of the answer is returned")
    ctx.check(ctx.eq(net.made[-1].left(), extra), "exactly the answer is consumed")
    ctx.cover("done")


def cut_answer(ctx, n=11, end="eof", cuts=1, exception=False):
    """any answer that ends (or stalls) before its frame is complete raises"""
    net = Net(ctx)
    full = 11 if not exception else 9
    ctx.assume(n <= full)
    body = ctx.bytes("body", full)

    def answer(i, req, sock):
        # right header, any content
        f = answer_for(ctx, req, 0x83 if exception else 3, body[8:full])
        sock.feed(*split(ctx, f[:n], cuts))
        sock.end = end
    Peer(ctx, net, answer)
    m = new_master(ctx, net)
    ex, r = ctx.raises(m.execute, ctx.byte("unit"), 3, 0, 1)
    if n < full:
        ctx.check(ex is not None, "an incomplete answer raises")
        ctx.check(not isinstance(ex, ctx.M.modbus.ModbusError), "an incomplete answer is not taken for an exception answer")
        ctx.cover("cut")
    elif exception:
        ctx.check(isinstance(ex, ctx.M.modbus.ModbusError), "an exception answer raises a Modbus error")
        ctx.check(ex.get_exception_code() == body[8], "the exception code is the one of the answer")
        ctx.cover("whole")
    else:
        ctx.cover("whole")
    # the master is usable afterwards
    after_failure(ctx, net, m)


def after_failure(ctx, net, m, tag="again"):
    """the next exchange returns its own data or fails, it never returns anything else"""
    d = ctx.bytes(tag, 4)

    def answer(i, req, sock):
        sock.end = "idle"
        sock.feed(answer_for(ctx, req, 4, struct.pack(">B", 4) + d))
    Peer(ctx, net, answer)
    ex, r = ctx.raises(m.execute, ctx.byte(tag + ".unit"), 4, ctx.word(tag + ".addr"), 2)
    if ex is None:
        ctx.check(ctx.eq(list(r), [d[0] * 256 + d[1], d[2] * 256 + d[3]]), "the next call returns its own data")
        ctx.cover("recovered")
    return ex


def any_answer(ctx, n=11, end="eof"):
    """any n bytes arrive: data is returned only from a frame with the right header, and only that frame is consumed"""
    net = Net(ctx)
    f = ctx.bytes("f", n)
    reqs = []

    def answer(i, req, sock):
        reqs.append(req)
        sock.feed(f)
        sock.end = end
    Peer(ctx, net, answer)
    m = new_master(ctx, net)
    ex, r = ctx.raises(m.execute, ctx.byte("unit"), 3, ctx.word("addr"), 1)
    ctx.check(len(reqs) == 1, "one request is sent")
    req = reqs[0]
    good = False
    if n >= 11:
        good = ctx.all([ctx.eq(list(f[0:9]), list(req[0:4]) + [0, 5] + [req[6], 3, 2])])
    if ex is None:
        ctx.check(good, "data is returned only from a right answer")
        ctx.check(ctx.eq(list(r), [f[9] * 256 + f[10]]), "the data of the answer is returned")
        ctx.check(ctx.eq(net.made[-1].left(), f[11:]), "exactly the answer is consumed")
        ctx.cover("data")
    else:
        ctx.check(ctx.not_(good), "a right answer is accepted")
        ctx.cover("error")


def stale(ctx, early=5, late=0, whole=False, second="answer", cuts=0):
    """the answer to an earlier request that timed out arrives before (early bytes) or after the next request is sent; with
    `whole` it is a complete right answer to the earlier request"""
    net = Net(ctx)
    d1, d2 = ctx.bytes("d1", 2), ctx.bytes("d2", 2)
    old = ctx.bytes("old", early + late) if not whole else None
    tids = []

    def answer(i, req, sock):
        tids.append(req)
        if i == 0:
            return
        rest = old1()[early:]
        mine = b""
        if second == "answer":
            mine = answer_for(ctx, req, 3, struct.pack(">B", 2) + d2)
        sock.feed(*split(ctx, rest + mine, cuts))

    def old1():
        if not whole:
            return old
        return answer_for(ctx, tids[0], 3, struct.pack(">B", 2) + d1)
    Peer(ctx, net, answer)
    m = new_master(ctx, net)
    u = ctx.byte("unit")
    ex1, _ = ctx.raises(m.execute, u, 3, ctx.word("a1"), 1)
    ctx.check(ex1 is not None, "no answer raises")
    net.made[-1].feed(old1()[:early])
    ex, r = ctx.raises(m.execute, u, 3, ctx.word("a2"), 1)
    ctx.check(len(tids) == 2, "both requests are sent")
    req = tids[1]
    if ex is None:
        mine = second == "answer" and not (late if not whole else early < 11)
        if not mine and not whole:
            # left-over bytes that are a right answer to the new request are not distinguishable from it
            x = old[early:]
            good = False
            if len(x) > 0:
                z = x + (answer_for(ctx, req, 3, struct.pack(">B", 2) + d2) if second == "answer" else b"")
                if len(z) >= 11:
                    good = ctx.eq(list(z[0:9]), list(req[0:4]) + [0, 5] + [req[6], 3, 2])
            ctx.check(good, "left-over bytes are not returned as the answer")
            ctx.cover("forged")
            return
        ctx.check(mine, "left-over bytes are not returned as the answer")
        ctx.check(ctx.eq(list(r), [d2[0] * 256 + d2[1]]), "the new answer is returned")
        ctx.cover("data")
    else:
        ctx.check(late > 0 or (whole and early < 11) or second != "answer", "stale bytes are discarded before sending")
        ctx.cover("failed")


def much_stale(ctx, blocks=4):
    """a lot of left-over data: discarded, or the exchange fails; never returned"""
    net = Net(ctx)
    d2 = ctx.bytes("d2", 2)
    n = []

    def answer(i, req, sock):
        n.append(req)
        if i:
            sock.feed(answer_for(ctx, req, 3, struct.pack(">B", 2) + d2))
    Peer(ctx, net, answer)
    m = new_master(ctx, net)
    ctx.raises(m.execute, 1, 3, 0, 1)
    junk = ctx.bytes("junk", 11)
    net.made[-1].feed(*[struct.pack(">B", 0) * 1024 + junk for i in range(blocks)])
    ex, r = ctx.raises(m.execute, 1, 3, 0, 1)
    if ex is None:
        ctx.check(ctx.eq(list(r), [d2[0] * 256 + d2[1]]), "the new answer is returned")
        ctx.cover("data")
    ctx.check(len([s for s in net.made if not s.closed]) == 1, "one connection is open")
    ctx.cover("done")


def broken(ctx, end="eof", short=0, fc=16):
    """the connection is found broken when the request is to be sent: reconnect, or an error"""
    net = Net(ctx)
    d = ctx.bytes("d", 2)
    k = []

    def answer(i, req, sock):
        k.append(req)
        if i == 0:
            sock.end = end
        else:
            sock.feed(answer_for(ctx, req, 3, struct.pack(">B", 2) + d))
    Peer(ctx, net, answer)
    m = new_master(ctx, net)
    ctx.raises(m.execute, 1, 3, 0, 1)
    old = net.made[-1]
    refuse = ctx.choice("refuse", 2)
    net.connect_fails = [refuse == 1]
    u, a = ctx.byte("unit"), ctx.word("addr")
    ex, r = ctx.raises(m.execute, u, 3, a, 1)
    if refuse:
        ctx.check(ex is not None, "a refused connection raises")
        ex, r = ctx.raises(m.execute, u, 3, a, 1)
    ctx.check(old.closed, "the broken connection is closed")
    ctx.check(len([s for s in net.made if not s.closed]) <= 1, "at most one connection is open")
    ctx.check(ex is None, "the request is sent over a new connection")
    ctx.check(len(k) == 2 and ctx.eq(k[1][2:], tcp_frame(ctx, 0, u, pdu_read(3, a, 1))[2:]), "the request is sent completely")
    ctx.check(ctx.eq(list(r), [d[0] * 256 + d[1]]), "the data of the answer is returned")
    ctx.cover("done")


def faulty(ctx, kind="reset", upto=24, faults=1):
    """any socket operation of an exchange fails: the call raises or returns its own data, and so does the next one"""
    net = Net(ctx)
    d = ctx.bytes("d", 2)

    def answer(i, req, sock):
        sock.feed(answer_for(ctx, req, 3, struct.pack(">B", 2) + d))
    Peer(ctx, net, answer)
    m = new_master(ctx, net)
    kinds = {"reset": reset, "timeout": lambda: TIMEOUT("timed out"), "other": lambda: OSError(9, "bad")}
    for i in range(faults):
        net.faults.append([ctx.choice("fault%d" % i, upto), kinds[kind]])
    net.fault_on = lambda sock, what: what != "close"
    u, a = ctx.byte("unit"), ctx.word("addr")
    ex, r = ctx.raises(m.execute, u, 3, a, 1)
    if ex is None:
        ctx.check(ctx.eq(list(r), [d[0] * 256 + d[1]]), "the data of the answer is returned")
    net.faults = []
    ctx.check(ctx.locks_free(), "locks are released")
    after_failure(ctx, net, m)
    ctx.check(len([s for s in net.made if not s.closed]) <= 1, "at most one connection is open")
    ctx.cover("done")


def short_sends(ctx, n=3):
    """a send that takes only a part of the request: the whole request still arrives"""
    net = Net(ctx)
    net.shorts = 2
    got = []

    def answer(i, req, sock):
        got.append(req)
        sock.feed(answer_for(ctx, req, 16, req[8:12]))
    Peer(ctx, net, answer)
    m = new_master(ctx, net)
    vals = [ctx.word("v%d" % i) for i in range(n)]
    u, a = ctx.byte("unit"), ctx.word("addr")
    ex, r = ctx.raises(m.execute, u, 16, a, output_value=vals)
    pdu = struct.pack(">BHHB", 16, a, n, 2 * n)
    for v in vals:
        pdu = pdu + struct.pack(">H", v)
    ctx.check(len(got) == 1, "the whole request is sent")
    ctx.check(ctx.eq(got[0][2:], tcp_frame(ctx, 0, u, pdu)[2:]), "the request is the prescribed one")
    ctx.check(ex is None, "the answer is accepted")
    ctx.cover("done")
