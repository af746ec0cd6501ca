"""Hooks (C30): the registry, every documented hook point, and the values that replace others"""
import struct
from harness.common import *
from harness.net import *
from harness.rtu import Port, Line, serve
from harness.master import pdu_master
from harness.tcpserver import recorder
from harness.verbose import cells, fresh_memory, contents, kind, arg, call
from harness.e2e import connect

NAMES = ("modbus.Master.before_send", "modbus_tcp.TcpMaster.before_send", "modbus.Master.after_send")


# ---------------------------------------------------------------------------------------------------------- registry

class Reg(object):
    """the registry and what it should do"""

    def __init__(self, ctx, names, nhooks):
        self.ctx = ctx
        self.h = ctx.M.hooks
        self.names = names
        self.want = dict((n, []) for n in names)
        self.calls = []
        self.what = {}
        self.left = {}
        self.hooks = [self.make(i) for i in range(nhooks)]

    def make(self, i):
        def hook(args):
            self.calls.append((i, args))
            return self.act(i)
        return hook

    def act(self, i):
        """what the hook does: returns None, returns a value, uninstalls itself or another one"""
        w = self.what.get(i)
        if w is None:
            return None
        if w[0] == "value":
            return w[1]
        if i not in self.left:
            self.left[i] = 1
            j = i if w[0] == "self" else w[1]
            if j in self.want[self.current]:
                self.want[self.current].remove(j)
                self.h.uninstall_hook(self.current, self.hooks[j])
                self.gone = self.gone + [j]
        return None

    def install(self, n, i):
        self.h.install_hook(n, self.hooks[i])
        self.want[n].append(i)

    def uninstall(self, n, i):
        ex, r = self.ctx.raises(self.h.uninstall_hook, n, self.hooks[i])
        if i in self.want[n]:
            self.ctx.check(ex is None, "an installed hook can be uninstalled")
            self.want[n].remove(i)

    def clear(self, n):
        ex, r = self.ctx.raises(self.h.uninstall_hook, n)
        if self.want[n]:
            self.ctx.check(ex is None, "the hooks of a name can be uninstalled")
        self.want[n] = []

    def call(self, n, args):
        ctx = self.ctx
        self.calls = []
        self.current = n
        self.gone = []
        order = list(self.want[n])
        r = self.h.call_hooks(n, args)
        seen = [c[0] for c in self.calls]
        want, res = [], None
        gone = []
        for i in order:
            if i in gone:
                continue
            want.append(i)
            w = self.what.get(i)
            if w is not None and w[0] == "value":
                if w[1] is not None:
                    res = w[1]
                    break
            elif w is not None and i in self.left and self.left[i] == 1:
                gone.append(i if w[0] == "self" else w[1])
                self.left[i] = 2
        ctx.check(seen == want, "the hooks are called in installation order until one returns a result")
        ctx.check(ctx.all([c[1] is args for c in self.calls]), "each hook gets the arguments")
        if res is None:
            ctx.check(r is None, "no result without a hook that returns one")
        else:
            ctx.check(r is res, "the result is the one of the hook")


def behave(ctx, reg, i, kinds):
    w = ctx.pick("what%d" % i, kinds)
    if w == "none":
        reg.what[i] = ("value", None)
    elif w == "value":
        reg.what[i] = ("value", ctx.bytes("v%d" % i, 1 + i))
    elif w == "zero":
        reg.what[i] = ("value", 0)
    elif w == "empty":
        reg.what[i] = ("value", b"")
    elif w == "false":
        reg.what[i] = ("value", False)
    elif w == "self":
        reg.what[i] = ("self",)
    elif w == "next":
        reg.what[i] = ("other", i + 1)


def history(ctx, k=3, names=2, nhooks=3, kinds=("none", "value"), prefix=()):
    """any sequence of install and uninstall, then every name is called twice"""
    reg = Reg(ctx, NAMES[:names], nhooks)
    for n, i in prefix:
        reg.install(NAMES[n], i)
    for j in range(k):
        n = NAMES[ctx.choice("name%d" % j, names)]
        op = ctx.pick("op%d" % j, ("install", "uninstall", "clear", "call"))
        if op == "clear":
            reg.clear(n)
        elif op == "call":
            reg.call(n, (1, j))
        else:
            i = ctx.choice("hook%d" % j, nhooks)
            if op == "install":
                if i in reg.want[n]:
                    ctx.cover("twice")
                    continue
                reg.install(n, i)
            else:
                reg.uninstall(n, i)
    for i in range(nhooks):
        behave(ctx, reg, i, kinds)
    for n in reg.names:
        reg.call(n, (n, 1))
    for n in reg.names:
        reg.call(n, (n, 2))
    ctx.check(ctx.M.hooks.call_hooks("modbus.Server.on_exception", (1,)) is None, "a name without hooks has no result")
    ctx.cover("done")


def falsy(ctx, n=3):
    """hooks that are objects of any truth value"""
    h = ctx.M.hooks
    calls = []

    class Hook(object):
        def __init__(self, i, full):
            self.i = i
            self.full = full

        def __call__(self, args):
            calls.append(self.i)
            return None

        def __len__(self):
            return self.full
    hs = [Hook(i, ctx.choice("full%d" % i, 2)) for i in range(n)]
    for x in hs:
        h.install_hook(NAMES[0], x)
    j = ctx.choice("which", n)
    h.uninstall_hook(NAMES[0], hs[j])
    h.call_hooks(NAMES[0], (1,))
    ctx.check(calls == [i for i in range(n) if i != j], "exactly the uninstalled hook is not called any more")
    ctx.cover("done")


def raising(ctx, exc="KeyError"):
    """an error of a hook reaches the caller and leaves the hooks installed"""
    h = ctx.M.hooks
    E = {"KeyError": KeyError, "ValueError": ValueError, "modbus": lambda x: ctx.M.modbus.ModbusError(3)}[exc]
    calls = []
    armed = [True]

    def a(args):
        calls.append("a")
        if armed[0]:
            raise E("x")

    def b(args):
        calls.append("b")
        return 5
    h.install_hook(NAMES[0], a)
    h.install_hook(NAMES[0], b)
    ex, r = ctx.raises(h.call_hooks, NAMES[0], (1,))
    ctx.check(ex is not None, "the error of a hook is not swallowed")
    armed[0] = False
    del calls[:]
    ctx.check(h.call_hooks(NAMES[0], (1,)) == 5 and calls == ["a", "b"], "the hooks stay installed")
    ctx.cover("done")


# --------------------------------------------------------------------------------------------------------- hook points

SITES = """modbus_rtu.RtuMaster.before_open modbus_rtu.RtuMaster.after_close modbus_rtu.RtuMaster.before_send
modbus_rtu.RtuMaster.after_recv modbus_rtu.RtuServer.before_close modbus_rtu.RtuServer.after_close
modbus_rtu.RtuServer.before_open modbus_rtu.RtuServer.after_open modbus_rtu.RtuServer.after_read
modbus_rtu.RtuServer.before_write modbus_rtu.RtuServer.after_write modbus_rtu.RtuServer.on_error
modbus_tcp.TcpMaster.before_connect modbus_tcp.TcpMaster.after_connect modbus_tcp.TcpMaster.before_close
modbus_tcp.TcpMaster.after_close modbus_tcp.TcpMaster.before_send modbus_tcp.TcpServer.after_send
modbus_tcp.TcpMaster.after_recv modbus_tcp.TcpServer.on_connect modbus_tcp.TcpServer.on_disconnect
modbus_tcp.TcpServer.after_recv modbus_tcp.TcpServer.before_send modbus_tcp.TcpServer.on_error
modbus_rtu_over_tcp.RtuOverTcpMaster.after_recv modbus.Master.before_send modbus.Master.after_send
modbus.Master.after_recv modbus.Slave.handle_request modbus.Slave.on_handle_broadcast modbus.Slave.on_exception
modbus.Databank.on_error modbus.ModbusBlock.setitem modbus.Server.before_handle_request
modbus.Server.after_handle_request modbus.Server.on_exception""".split()
HANDLERS = {1: "read_coils", 2: "read_discrete_inputs", 3: "read_holding_registers", 4: "read_input_registers",
            5: "write_single_coil", 6: "write_single_register", 7: "read_exception_status", 15: "write_multiple_coils",
            16: "write_multiple_registers", 22: "mask_write_register", 23: "read_write_multiple_registers"}
HANDLER = dict((fc, "modbus.Slave.handle_%s_request" % n) for fc, n in HANDLERS.items())
ALL = SITES + sorted(HANDLER.values())
MUTE = """modbus_rtu.RtuMaster.before_open modbus_rtu.RtuMaster.after_close modbus_rtu.RtuServer.before_close
modbus_rtu.RtuServer.after_close modbus_rtu.RtuServer.before_open modbus_rtu.RtuServer.after_open
modbus_rtu.RtuServer.after_write modbus_rtu.RtuServer.on_error modbus_tcp.TcpMaster.before_connect
modbus_tcp.TcpMaster.after_connect modbus_tcp.TcpMaster.before_close modbus_tcp.TcpMaster.after_close
modbus_tcp.TcpServer.after_send modbus_tcp.TcpServer.on_connect modbus_tcp.TcpServer.on_disconnect
modbus_tcp.TcpServer.on_error modbus.Master.after_send modbus.Slave.on_exception modbus.Databank.on_error
modbus.ModbusBlock.setitem modbus.Server.on_exception modbus.Slave.handle_write_multiple_coils_request""".split()


class Watch(object):
    """a hook under every documented name that records its call and returns None"""

    def __init__(self, ctx, names=ALL):
        self.ctx = ctx
        self.seen = []
        for n in names:
            ctx.M.hooks.install_hook(n, self.make(n))
            ctx.M.hooks.install_hook(n, lambda args: None)

    def make(self, n):
        def hook(args):
            self.seen.append((n, args))
            return None
        return hook

    def of(self, n):
        return [a for m, a in self.seen if m == n]

    def remove(self, names=ALL):
        for n in names:
            self.ctx.M.hooks.uninstall_hook(n)

    def one(self, n, *want):
        """the hook was called once, with these arguments (None: any)"""
        ctx = self.ctx
        got = self.of(n)
        ctx.check(len(got) == 1, n + " is called once")
        self.args(n, got[0], want)

    def args(self, n, a, want):
        ctx = self.ctx
        ctx.check(type(a) is tuple and len(a) == len(want), n + " gets the documented arguments")
        for x, y in zip(a, want):
            if y is not None:
                ctx.check(ctx.eq(x, y) if isinstance(y, (bytes, bytearray)) or type(y).__name__ == "SymBytes" else x is y,
                          n + " gets the documented arguments")

    def never(self, *names):
        for n in names:
            self.ctx.check(len(self.of(n)) == 0, n + " is not called")


def both(ctx, run):
    """run(hooked) -> (observations, after(watch)): equal with and without hooks that return None"""
    a, fin = run(None)
    w = Watch(ctx)
    b, fin = run(w)
    w.remove()
    ctx.check(len(a) == len(b), "the same number of observations")
    for x, y in zip(a, b):
        ctx.check(ctx.eq(x, y), "the same as without hooks")
    fin(w)
    ctx.check(ctx.all([m in ALL for m, x in w.seen]), "no other hooks are called")
    # results where none is documented
    for n in MUTE:
        ctx.M.hooks.install_hook(n, lambda args: b"\x01\x02\x03")
    c, _ = run(None)
    for n in MUTE:
        ctx.M.hooks.uninstall_hook(n)
    ctx.check(len(a) == len(c), "the same number of observations")
    for x, y in zip(a, c):
        ctx.check(ctx.eq(x, y), "a result where none is documented has no effect")
    ctx.cover("done")


def request(ctx, fc, at=3):
    """a request PDU of the function with arbitrary contents on the four cells from at, or around them"""
    a = ctx.int("addr", 2, 7)
    if fc in (1, 2, 3, 4):
        return struct.pack(">BHH", fc, a, ctx.pick("qty", (0, 2)))
    if fc == 5:
        return struct.pack(">BHH", fc, a, ctx.pick("on", (0, 0xFF00, 1)))
    if fc == 6:
        return struct.pack(">BHH", fc, a, ctx.word("v"))
    if fc == 22:
        return struct.pack(">BHHH", fc, a, ctx.word("v"), ctx.word("w"))
    if fc == 15:
        return struct.pack(">BHHBB", fc, a, 2, 1, ctx.byte("v"))
    if fc == 16:
        return struct.pack(">BHHBHH", fc, a, 2, 4, ctx.word("v"), ctx.word("w"))
    if fc == 23:
        return struct.pack(">BHHHHBH", fc, 3, 1, a, 1, 2, ctx.word("v"))
    return struct.pack(">B", fc)


def slave_sites(ctx, w, sl, db, fc, pdu, ans, to):
    """what the hooks of the data model saw of a request to the slave (to: slave, nobody or all)"""
    for f, n in HANDLER.items():
        if f != fc or to == "nobody":
            w.never(n)
    if to == "nobody":
        w.never("modbus.Slave.handle_request", "modbus.ModbusBlock.setitem", "modbus.Slave.on_exception",
                "modbus.Slave.on_handle_broadcast")
        return
    w.one("modbus.Slave.handle_request", sl, pdu)
    reads = fc in (1, 2, 3, 4)
    if fc in HANDLER and not (reads and to == "all"):
        w.one(HANDLER[fc], sl, pdu)
    refused = to == "slave" and ctx.eq(ans[0:1], struct.pack(">B", (fc + 128) & 255))
    if refused:
        w.one("modbus.Slave.on_exception", sl, None, None)
        a = w.of("modbus.Slave.on_exception")[0]
        ctx.check(ctx.eq(a[1], fc) and isinstance(a[2], ctx.M.modbus.ModbusError) and
                  ctx.eq(a[2].get_exception_code(), ans[1]), "on_exception gets the function and the error")
    elif to == "slave":
        w.never("modbus.Slave.on_exception")
    sets = w.of("modbus.ModbusBlock.setitem")
    if refused or fc in (1, 2, 3, 4, 7):
        ctx.check(len(sets) == 0, "setitem is not called when nothing is written")
    elif to == "slave" and fc not in (8, 43, 99):
        ctx.check(len(sets) > 0, "setitem is called for what is written")
    ctx.check(ctx.all([type(x) is tuple and len(x) == 3 and isinstance(x[0], ctx.M.modbus.ModbusBlock) for x in sets]),
              "setitem gets the documented arguments")


def tcp_server(ctx, fc=6, to="slave", end="idle", cut=0):
    u = ctx.int("unit", 2, 255)
    c = cells(ctx)
    pdu = request(ctx, fc)
    t = ctx.word("tid")
    f = tcp_frame(ctx, t, u if to == "slave" else 1 if to == "nobody" else 0, pdu)
    if cut:
        f = f[:cut]

    def run(w):
        net = Net(ctx, 40)
        a = Sock(net, "a", [f], end)
        net.pending.append(a)
        s = Served(ctx, net)
        sl = fresh_memory(ctx, s.srv, u, c)
        if w:
            del w.seen[:]
        s.run()

        def fin(w):
            p = "modbus_tcp.TcpServer."
            w.one(p + "on_connect", s.srv, a, ("a", 1) and None)
            ctx.check(w.of(p + "on_connect")[0][2] == ("a", 1), "on_connect gets the address")
            if cut:
                w.never("modbus.Server.before_handle_request", "modbus.Server.after_handle_request", p + "before_send",
                        p + "after_send")
                return
            ctx.check(len(w.of(p + "after_recv")) == 1, "after_recv is called once")
            x = w.of(p + "after_recv")[0]
            w.args(p + "after_recv", x, (s.srv, a, None))
            ctx.check(1 <= len(x[2]) <= len(f) and ctx.eq(x[2], f[:len(x[2])]), "after_recv gets what has been received")
            w.one("modbus.Server.before_handle_request", s.srv, f)
            out = a.sent()
            if len(out) > 0:
                w.one("modbus.Server.after_handle_request", s.srv, out)
                w.one(p + "before_send", s.srv, a, out)
                w.one(p + "after_send", s.srv, a, out)
            else:
                w.one("modbus.Server.after_handle_request", s.srv, None)
                ctx.check(nothing(w.of("modbus.Server.after_handle_request")[0][1]), "there is no response")
            slave_sites(ctx, w, sl, s.srv, fc, pdu, out[7:], to)
            if end == "eof":
                w.one(p + "on_disconnect", s.srv, a)
            else:
                w.never(p + "on_disconnect")
            w.never(p + "on_error", "modbus.Server.on_exception", "modbus.Databank.on_error")
            ctx.check(len([m for m, x in w.seen if "Master" in m or "Rtu" in m]) == 0, "no hooks of others are called")
        return [a.sent(), a.closed] + contents(sl), fin
    both(ctx, run)


def rtu_server(ctx, fc=6, to="slave", is_open=False, bad=False, fault=False):
    u = ctx.int("unit", 2, 255)
    c = cells(ctx)
    pdu = request(ctx, fc)
    f = rtu_frame(ctx, u if to == "slave" else 1 if to == "nobody" else 0, pdu)
    if bad:
        f = f[:-1] + struct.pack(">B", f[-1] ^ 1)

    def run(w):
        port = Line(ctx)
        port.is_open = is_open
        ctx.env = port
        srv = ctx.keep(ctx.M.modbus_rtu.RtuServer(port))
        port.server = srv
        sl = fresh_memory(ctx, srv, u, c)
        port.feed(f)
        if fault:
            port.write_fails = [True]
        if w:
            del w.seen[:]
        serve(ctx, srv, port)

        def fin(w):
            p = "modbus_rtu.RtuServer."
            opened = 0 if is_open else 1
            ctx.check(len(w.of(p + "before_open")) == len(w.of(p + "after_open")), "after_open follows before_open")
            ctx.check(len(w.of(p + "before_close")) == len(w.of(p + "after_close")), "after_close follows before_close")
            for n in ("before_open", "after_open", "before_close", "after_close"):
                for x in w.of(p + n):
                    w.args(p + n, x, (srv,))
            if not fault:
                ctx.check(len(w.of(p + "before_open")) == port.opens, "before_open is called for each open")
            if fault:
                ctx.check(len(w.of(p + "on_error")) >= 1, "on_error is called")
                for x in w.of(p + "on_error"):
                    w.args(p + "on_error", x, (srv, None))
                    ctx.check(isinstance(x[1], OSError), "on_error gets the error")
                return
            w.never(p + "on_error", "modbus.Server.on_exception")
            w.one(p + "after_read", srv, f)
            w.one("modbus.Server.before_handle_request", srv, f)
            out = port.sent()
            if len(out) > 0:
                w.one("modbus.Server.after_handle_request", srv, out)
                w.one(p + "before_write", srv, out)
                w.one(p + "after_write", srv, out)
            else:
                for n in ("modbus.Server.after_handle_request", p + "before_write", p + "after_write"):
                    for x in w.of(n):
                        w.args(n, x, (srv, None))
                        ctx.check(nothing(x[1]), n + ": there is no response")
            slave_sites(ctx, w, sl, srv, fc, pdu, out[1:-2], "nobody" if bad else to)
            ctx.check(len([m for m, x in w.seen if "Master" in m or "Tcp" in m]) == 0, "no hooks of others are called")
        return [port.sent(), len(port.written), port.opens] + contents(sl), fin
    both(ctx, run)


def master(ctx, over="tcp", fc=3, n=9, end="idle", close=True):
    """an exchange of a master with any answer of n bytes"""
    u, a = ctx.int("unit", 1, 255), ctx.word("addr")
    if over == "tcp":
        d = ctx.bytes("d", n)
        if n > 5:
            ctx.assume(ctx.all([d[4] == 0, d[5] == n - 6]))
    else:
        d = ctx.bytes("d", n)

    def run(w):
        sent, came = [], [d]
        if over == "serial":
            port = Port(ctx, is_open=False)
            ctx.env = port
            m = ctx.keep(ctx.M.modbus_rtu.RtuMaster(port))
            pre = "modbus_rtu.RtuMaster."

            def on_write(data):
                sent.append(data)
                port.feed(d)
            port.on_write = on_write
        else:
            net = Net(ctx)
            ctx.env = net
            cls = ctx.M.modbus_tcp.TcpMaster if over == "tcp" else ctx.M.modbus_rtu_over_tcp.RtuOverTcpMaster
            m = ctx.keep(cls("device", 502))
            pre = "modbus_tcp.TcpMaster."

            def peer(sock, data):
                sent.append(data)
                came.append(related(ctx, data, d) if over == "tcp" else d)
                sock.feed(came[-1])
                sock.end = end
            net.peer = peer
        if w:
            del w.seen[:]
        ex, r = ctx.raises(call, ctx, m, u, fc, a, False)
        if close:
            m.close()

        def fin(w):
            if over == "serial":
                w.one(pre + "before_open", m)
                w.one(pre + "after_close", m)
            else:
                for x in ("before_connect", "after_connect", "before_close", "after_close"):
                    w.one(pre + x, m)
            w.one("modbus.Master.before_send", m, sent[0])
            w.one(pre + "before_send", m, sent[0])
            w.one("modbus.Master.after_send", m)
            rec = "modbus_rtu_over_tcp.RtuOverTcpMaster.after_recv" if over == "gate" else pre + "after_recv"
            got = w.of(rec)
            ctx.check(len(got) <= 1 and len(w.of("modbus.Master.after_recv")) == len(got), "after_recv is called once")
            if len(got) == 1:
                x = got[0]
                w.args(rec, x, (m, None))
                ctx.check(len(x[1]) <= n and ctx.eq(x[1], came[-1][:len(x[1])]), "after_recv gets what has been received")
                w.one("modbus.Master.after_recv", m, x[1])
            if ex is None:
                ctx.check(len(got) == 1, "after_recv is called")
            ctx.check(len([y for y, x in w.seen if "Server" in y or "Slave" in y or "Databank" in y]) == 0,
                      "no hooks of others are called")
        return [kind(ctx, ex), r] + [x[2:] if over == "tcp" else x for x in sent], fin
    both(ctx, run)


def end_to_end(ctx, over="tcp", fc=6):
    """master, server and data model at once"""
    c = cells(ctx)
    u = ctx.int("unit", 1, 255)
    a = ctx.int("addr", 2, 6)

    def run(w):
        srv, m = connect(ctx, over)
        sl = fresh_memory(ctx, srv, u, c)
        if w:
            del w.seen[:]
        ex, r = ctx.raises(call, ctx, m, u, fc, a, False)

        def fin(w):
            w.one("modbus.Slave.handle_request", sl, None)
            w.one(HANDLER[fc], sl, None)
            w.one("modbus.Master.before_send", m, None)
            w.one("modbus.Server.before_handle_request", srv, w.of("modbus.Master.before_send")[0][1])
            w.one("modbus.Server.after_handle_request", srv, w.of("modbus.Master.after_recv")[0][1])
        return [kind(ctx, ex), r] + contents(sl), fin
    both(ctx, run)


def local(ctx):
    """a local write calls the setitem hook only"""
    v = ctx.word("v")
    w = Watch(ctx)
    srv = ctx.keep(ctx.M.modbus_tcp.TcpServer())
    sl = srv.add_slave(1)
    sl.add_block("h", tables(ctx)["H"], 3, 4)
    del w.seen[:]
    sl.set_values("h", 4, [v])
    w.one("modbus.ModbusBlock.setitem", None, None, None)
    ctx.check(len(w.seen) == 1, "no other hook is called")
    ctx.check(ctx.eq(list(sl.get_values("h", 4, 1)), [v]), "the value is stored")
    ctx.check(len(w.seen) == 1, "reading calls no hook")
    ctx.M.hooks.install_hook("modbus.ModbusBlock.setitem", lambda args: 7)
    u = ctx.word("u")
    sl.set_values("h", 5, [u])
    ctx.check(ctx.eq(list(sl.get_values("h", 3, 4)), [0, v, u, 0]), "a result where none is documented has no effect")
    ctx.cover("done")


# ----------------------------------------------------------------------------------------------------------- overrides

def put(ctx, name, value, extra=True):
    """a hook that gives a value between one that gives None and one that must not be reached"""
    late = []
    h = ctx.M.hooks
    if extra:
        h.install_hook(name, lambda args: None)
    h.install_hook(name, lambda args: value() if callable(value) else value)

    def never(args):
        late.append(args)
        return b"\x00\x01\x02"
    h.install_hook(name, never)
    return late


def master_sends(ctx, over="tcp", site="modbus.Master.before_send", n=6):
    """before_send: what the hook returns goes over the wire"""
    new = ctx.bytes("new", n)
    sent = []
    if over == "serial":
        port = Port(ctx)
        ctx.env = port
        m = ctx.keep(ctx.M.modbus_rtu.RtuMaster(port))
        port.on_write = sent.append
    else:
        net = Net(ctx)
        ctx.env = net
        cls = ctx.M.modbus_tcp.TcpMaster if over == "tcp" else ctx.M.modbus_rtu_over_tcp.RtuOverTcpMaster
        m = ctx.keep(cls("device", 502))
        net.peer = lambda sock, data: sent.append(data)
    late = put(ctx, site, new)
    ex, r = ctx.raises(m.execute, ctx.int("unit", 1, 255), 3, ctx.word("a"), 1)
    out = b""
    for s in sent:
        out = out + s
    ctx.check(ctx.eq(out, new), "the request given by the hook is sent")
    ctx.check(not late, "no further hook is called")
    ctx.cover("done")


def master_receives(ctx, over="serial", site="modbus.Master.after_recv", fc=3, n=7, valid=True):
    """after_recv: the answer given by the hook counts (compared with the generic hook of the same answer arriving)"""
    u, a = ctx.int("unit", 1, 255), ctx.word("addr")
    new = rtu_frame(ctx, ctx.byte("from"), ctx.bytes("new", n - 3)) if valid and over != "tcp" else ctx.bytes("new", n)
    if over == "tcp":
        ctx.assume(ctx.all([new[4] == 0, new[5] == n - 6]))
        old = tcp_frame(ctx, 0, u, struct.pack(">BBHH", 3, 4, 1, 2))
    else:
        old = rtu_frame(ctx, u, struct.pack(">BBHH", 3, 4, 1, 2))

    def run(arriving, hooked):
        sent = []
        if over == "serial":
            port = Port(ctx)
            ctx.env = port
            m = ctx.keep(ctx.M.modbus_rtu.RtuMaster(port))
            port.on_write = lambda data: port.feed(arriving)
        else:
            net = Net(ctx)
            ctx.env = net
            cls = ctx.M.modbus_tcp.TcpMaster if over == "tcp" else ctx.M.modbus_rtu_over_tcp.RtuOverTcpMaster
            m = ctx.keep(cls("device", 502))

            def peer(sock, data):
                sent.append(data)
                sock.feed(related(ctx, data, arriving) if over == "tcp" else arriving)
            net.peer = peer
        late = put(ctx, site, lambda: related(ctx, sent[0], new) if over == "tcp" else new) if hooked else []
        ex, r = ctx.raises(call, ctx, m, u, fc, a, False)
        if hooked:
            ctx.M.hooks.uninstall_hook(site)
        ctx.check(not late, "no further hook is called")
        return [kind(ctx, ex), r]
    # the same answer over the wire, as long as a master reads it completely: its length is the expected one
    x = run(old, True)
    y = run(new, False)
    ctx.check(ctx.eq(x[0], y[0]) and ctx.eq(x[1], y[1]), "the answer given by the hook is the one that counts")
    ctx.cover("done")


def any_receives(ctx, fc=3, n=4):
    """the generic master: any answer given by the hook"""
    u, a = ctx.int("unit", 1, 255), ctx.word("addr")
    new, old = ctx.bytes("new", n), ctx.bytes("old", 6)

    def run(arriving, hooked):
        m, sent = pdu_master(ctx, arriving)
        if hooked:
            put(ctx, "modbus.Master.after_recv", new)
        ex, r = ctx.raises(call, ctx, m, u, fc, a, False)
        if hooked:
            ctx.M.hooks.uninstall_hook("modbus.Master.after_recv")
        return [kind(ctx, ex), r]
    x = run(old, True)
    y = run(new, False)
    ctx.check(ctx.eq(x[0], y[0]) and ctx.eq(x[1], y[1]), "the answer given by the hook is the one that counts")
    ctx.cover("done")


def served(ctx, over, f, seen, reply):
    """one frame through a server whose data bank records; what the server sends"""
    db = recorder(ctx, seen, lambda i: reply)
    if over == "tcp":
        net = Net(ctx, 40)
        a = Sock(net, "a", [f])
        net.pending.append(a)
        s = Served(ctx, net, databank=db)
        s.run()
        return a.sent()
    port = Line(ctx)
    ctx.env = port
    srv = ctx.keep(ctx.M.modbus_rtu.RtuServer(port, databank=db))
    port.server = srv
    port.feed(f)
    serve(ctx, srv, port)
    return port.sent()


def server_value(ctx, over="tcp", site="modbus.Server.before_handle_request", n=9, k=5):
    """a hook on the way of a request or response of a server"""
    f = ctx.bytes("f", 12)
    if over == "tcp":
        ctx.assume(ctx.all([f[4] == 0, f[5] == 6]))
    reply = ctx.bytes("reply", k)
    seen = []
    first = []
    if site.endswith("TcpServer.after_recv"):
        # the part received so far is replaced by one of the same length
        new = ctx.bytes("new", n)
        ctx.assume(ctx.all([new[4] == 0, new[5] == 6]))

        def hook(args):
            first.append(len(args[2]))
            return new[:len(args[2])]
        ctx.M.hooks.install_hook(site, hook)
        out = served(ctx, over, f, seen, reply)
        ctx.check(len(seen) == 1 and len(first) == 1, "the request is executed once")
        want = new[:first[0]] + f[first[0]:]
        ctx.check(ctx.eq(seen[0], want), "the request given by the hook is executed")
        ctx.check(ctx.eq(out, reply), "the response is sent")
        ctx.cover("done")
        return
    new = ctx.bytes("new", n)
    late = put(ctx, site, new)
    out = served(ctx, over, f, seen, reply)
    if site.endswith("before_handle_request") or site.endswith("after_read"):
        ctx.check(len(seen) == 1 and ctx.eq(seen[0], new), "the request given by the hook is executed")
        ctx.check(ctx.eq(out, reply), "the response is sent")
    else:
        ctx.check(len(seen) == 1 and ctx.eq(seen[0], f), "the request is executed")
        ctx.check(ctx.eq(out, new), "the response given by the hook is sent")
    ctx.check(not late, "no further hook is called")
    ctx.cover("done")


def slave_value(ctx, over="tcp", site="modbus.Slave.handle_request", fc=3, n=4):
    """a hook that answers for the slave"""
    u = ctx.int("unit", 1, 255)
    c = cells(ctx)
    pdu = request(ctx, fc)
    new = ctx.bytes("new", n)
    t = ctx.word("tid")
    f = tcp_frame(ctx, t, u, pdu) if over == "tcp" else rtu_frame(ctx, u, pdu)

    def run():
        if over == "tcp":
            net = Net(ctx, 40)
            a = Sock(net, "a", [f])
            net.pending.append(a)
            s = Served(ctx, net)
            sl = fresh_memory(ctx, s.srv, u, c)
            s.run()
            return a.sent(), sl
        port = Line(ctx)
        ctx.env = port
        srv = ctx.keep(ctx.M.modbus_rtu.RtuServer(port))
        port.server = srv
        sl = fresh_memory(ctx, srv, u, c)
        port.feed(f)
        serve(ctx, srv, port)
        return port.sent(), sl
    plain = run()[0]
    late = put(ctx, site, new)
    out, sl = run()
    want = tcp_frame(ctx, t, u, new) if over == "tcp" else rtu_frame(ctx, u, new)
    own = tcp_frame(ctx, t, u, struct.pack(">B", fc) + new) if over == "tcp" else \
        rtu_frame(ctx, u, struct.pack(">B", fc) + new)
    if site == "modbus.Slave.handle_request":
        ok = ctx.eq(out, want)
    else:
        ok = ctx.any([ctx.eq(out, want), ctx.eq(out, own)])
    ctx.check(not late, "no further hook is called")
    if site == "modbus.Slave.handle_request":
        t = "CDHI"
        ctx.check(ctx.all([ctx.eq(x, y) for x, y in zip(contents(sl), [c[n] for n in t])]), "the slave itself does nothing")
    ctx.cover("done")
    ctx.check(ok, site + ": the response given by the hook is sent",
              known=("handler-result-ignored", ctx.all([site != "modbus.Slave.handle_request", ctx.eq(out, plain)])))


def next_gone(ctx, n=3):
    """a hook that uninstalls another one while it is called"""
    reg = Reg(ctx, NAMES[:1], n)
    for i in range(n):
        reg.install(NAMES[0], i)
    i = ctx.choice("who", n)
    j = ctx.choice("whom", n)
    reg.what[i] = ("other", j)
    if j > i:
        reg.call(NAMES[0], (1,))
    else:
        h, order = ctx.M.hooks, []
        reg.current = NAMES[0]
        reg.gone = []
        h.call_hooks(NAMES[0], (1,))
        ctx.check([c[0] for c in reg.calls] == list(range(n)), "every hook is called once")
    reg.call(NAMES[0], (2,))
    ctx.cover("done")
