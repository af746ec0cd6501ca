"""The simulator and its RPC client (C32).  Commands are text built from symbolic numbers; the effect of each command is
compared with the corresponding calls of the API on a second server."""
import struct
from harness.common import *
from harness.net import Net, TIMEOUT


class Enough(BaseException):
    pass


class Bench(object):
    """a simulator whose command loop is run until it waits for the next command"""

    def __init__(self, ctx, server=None):
        self.ctx = ctx
        ctx.env = self
        ctx.text_mode()
        M = ctx.M
        self.srv = ctx.keep(server if server is not None else M.modbus_tcp.TcpServer())
        self.sim = M.simulator.Simulator(self.srv)
        self.next_socket = None
        self.ended = False

    def new_socket(self, *a, **k):
        s = self.next_socket
        self.ctx.check(s is not None, "one connection per call")
        self.next_socket = None
        return s

    def queue_get(self, q):
        if q is self.sim.inq:
            raise Enough()
        # the interface waits for the answer: the simulator works now
        self.work()
        if not q.items:
            raise self.ctx.M.simulator.queue.Empty()
        return q.items.pop(0)

    def work(self):
        """runs the command loop until it waits for a command or ends"""
        loop = getattr(self.sim, "_handle", None)
        if loop is None:
            for t in self.ctx.threads:
                t._started = False
            loop = self.sim.start
        try:
            loop()
            self.ended = True
        except Enough:
            pass

    def command(self, text):
        """the answer to one command line"""
        self.sim.inq.put(text)
        self.work()
        self.ctx.check(len(self.sim.outq.items) == 1, "every command gets exactly one answer")
        return self.sim.outq.get()


def setup(ctx, srv, cells):
    t = tables(ctx)
    a = srv.add_slave(1)
    a.add_block("b", t["H"], 10, 3)
    a.set_values("b", 10, list(cells))
    a.add_block("c", t["C"], 0, 2)
    srv.add_slave(2)


def state(ctx, srv, ids):
    """what can be observed of a server through its API"""
    out = []
    for i in ids:
        ex, s = ctx.raises(srv.get_slave, i)
        out.append(1 if ex is None else 0)
        if ex is not None:
            continue
        for name, base in (("b", 10), ("c", 0), ("n", 0)):
            for k in range(3 if name == "b" else 2):
                ex, r = ctx.raises(s.get_values, name, base + k, 1)
                out.append(r[0] if ex is None else -1000000)
    return out


def num(ctx, cache, name, lo, hi):
    if name not in cache:
        cache[name] = ctx.int(name, lo, hi)
    return cache[name]


COMMANDS = ("add_slave", "has_slave", "remove_slave", "remove_all_slaves", "add_block", "remove_block", "remove_all_blocks",
            "set_values", "get_values")


def joined(words):
    r = ""
    for i, w in enumerate(words):
        r = r + (" " if i else "") + w
    return r


def build(ctx, op, tag, nvals=2, wide=True):
    """(text, api) of a command with arbitrary numbers"""
    c = {}
    unit = ctx.int(tag + ".unit", -3 if wide else 0, 300 if wide else 4)
    words = [op]

    def text(v):
        return "%d" % v
    if op in ("add_slave", "has_slave", "remove_slave"):
        words.append(text(unit))

        def api(srv):
            if op == "add_slave":
                srv.add_slave(unit)
                return text(unit)
            if op == "remove_slave":
                srv.remove_slave(unit)
                return ""
            ex, s = ctx.raises(srv.get_slave, unit)
            return "1" if ex is None else "0"
    elif op == "remove_all_slaves":
        def api(srv):
            srv.remove_all_slaves()
            return ""
    else:
        words.append(text(unit))
        if op != "remove_all_blocks":
            name = ctx.pick(tag + ".name", ("b", "n"))
            words.append(name)
        if op == "add_block":
            bt = ctx.int(tag + ".type", 0, 5) if wide else ctx.pick(tag + ".type", (1, 3, 5))
            a = ctx.int(tag + ".addr", -3, 70000)
            n = ctx.pick(tag + ".size", (2, 1, 0, -1) if wide else (2, 0))
            words += [text(bt), text(a), str(n)]

            def api(srv):
                srv.get_slave(unit).add_block(name, bt, a, n)
                return name
        elif op == "remove_block":
            def api(srv):
                srv.get_slave(unit).remove_block(name)
                return None
        elif op == "remove_all_blocks":
            def api(srv):
                srv.get_slave(unit).remove_all_blocks()
                return None
        elif op == "set_values":
            a = ctx.int(tag + ".addr", -3, 70000)
            vals = [ctx.int("%s.v%d" % (tag, i), -40000, 70000) for i in range(nvals)]
            words += [text(a)] + [text(v) for v in vals]

            def api(srv):
                s = srv.get_slave(unit)
                s.set_values(name, a, vals)
                return joined([text(v) for v in s.get_values(name, a, len(vals))])
        else:
            a = ctx.int(tag + ".addr", -3, 70000)
            n = ctx.choice(tag + ".len", 4) if wide else ctx.pick(tag + ".len", (1, 3))
            words += [text(a), str(n)]

            def api(srv):
                return joined([text(v) for v in srv.get_slave(unit).get_values(name, a, n)])
    return joined(words), api, unit


def compare(ctx, bench, twin, op, text, api, ids):
    before = state(ctx, bench.srv, ids)
    answer = bench.command(text)
    ctx.observe("answer", answer)
    ctx.check(not bench.ended, "the simulator keeps running")
    ex, want = ctx.raises(api, twin)
    if ex is None:
        good = op + " done: "
        ctx.check(answer.startswith(good), "a command that succeeds is answered by its name and done")
        if want is not None:
            ctx.check(ctx.eq(answer[len(good):].rstrip("\r\n"), want), "the answer carries the result")
    else:
        ctx.check(answer.startswith(op + " error: "), "a command that fails is answered by its name and error")
    after = state(ctx, bench.srv, ids)
    ctx.check(ctx.eq(after, state(ctx, twin, ids)), "exactly the effect of the API call")
    if ex is not None:
        ctx.check(ctx.eq(after, before), "a command that fails changes nothing")


def history(ctx, k=1, ops=COMMANDS, nvals=2, wide=True, first=None):
    """any sequence of commands with any numbers"""
    cells = [ctx.word("cell%d" % i) for i in range(3)]
    bench = Bench(ctx)
    twin = ctx.keep(ctx.M.modbus_tcp.TcpServer())
    setup(ctx, bench.srv, cells)
    setup(ctx, twin, cells)
    ids = [1, 2]
    for j in range(k):
        op = first if first and not j else ctx.pick("op%d" % j, ops)
        text, api, unit = build(ctx, op, "c%d" % j, nvals, wide)
        ids.append(unit)
        compare(ctx, bench, twin, op, text + ctx.pick("end%d" % j, ("", "\n") if k < 2 else ("",)), api, ids)
    ctx.cover("done")


GOOD = {"add_slave": ["5"], "has_slave": ["1"], "remove_slave": ["1"], "remove_all_slaves": [],
        "add_block": ["1", "n", "3", "100", "2"], "remove_block": ["1", "b"], "remove_all_blocks": ["1"],
        "set_values": ["1", "b", "10", "7", "8"], "get_values": ["1", "b", "10", "2"], "set_verbose": ["1"]}
NUMERIC = {"add_slave": (0,), "has_slave": (0,), "remove_slave": (0,), "add_block": (0, 2, 3, 4), "remove_block": (0,),
           "remove_all_blocks": (0,), "set_values": (0, 2, 3, 4), "get_values": (0, 2, 3), "set_verbose": (0,),
           "remove_all_slaves": ()}


def malformed(ctx, op="set_values"):
    """a command with too few or unreadable arguments: answered by an error, nothing changes"""
    cells = [ctx.word("cell%d" % i) for i in range(3)]
    bench = Bench(ctx)
    setup(ctx, bench.srv, cells)
    args = list(GOOD[op])
    how = ctx.choice("how", 2 if args else 1)
    if how == 0:
        # (set_values without values and remove_all_slaves need nothing more)
        n = len(args) if op != "set_values" else 3
        keep = ctx.choice("keep", n) if n else 0
        if n == 0:
            ctx.cover("done")
            return
        args = args[:keep]
    else:
        if not NUMERIC[op]:
            ctx.cover("done")
            return
        i = ctx.pick("which", NUMERIC[op])
        args[i] = ctx.pick("word", ("x", "", "1.5", "0x10", "1e3", "--1", "\xe9"))
    line = " ".join([op] + args)
    before = state(ctx, bench.srv, (1, 2, 5))
    answer = bench.command(line)
    ctx.check(answer.startswith(op + " error: "), "an unreadable command is answered by its name and error")
    ctx.check(not bench.ended, "the simulator keeps running")
    ctx.check(ctx.eq(state(ctx, bench.srv, (1, 2, 5)), before), "an unreadable command changes nothing")
    ctx.check(ctx.eq(bench.command("get_values 1 b 10 1"), "get_values done: " + "%d" % cells[0] + "\r\n"),
              "the next command is executed")
    ctx.cover("done")


UNKNOWN = ("", "\n", "foo", "quitx", "quit_now 1", "Add_slave 5", "add_slave5", " add_slave 5", "add_slave\t5", "add slave 5",
           "quitter", "done", "\xe9", "remove_all_slave", "set_value 1 b 10 1")


def unknown(ctx):
    """unknown commands are answered by an error; custom commands are executed; quit ends the simulator"""
    cells = [ctx.word("cell%d" % i) for i in range(3)]
    bench = Bench(ctx)
    setup(ctx, bench.srv, cells)
    got = []
    n = ctx.word("n")

    def custom(args):
        got.append(args)
        return "%d" % n

    def failing(args):
        raise ValueError("no")
    bench.sim.add_command("custom", custom)
    bench.sim.add_command("failing", failing)
    line = ctx.pick("line", UNKNOWN)
    before = state(ctx, bench.srv, (1, 2, 5))
    answer = bench.command(line)
    ctx.check("error" in answer, "an unknown command is answered by an error")
    ctx.check(not bench.ended, "the simulator keeps running")
    ctx.check(ctx.eq(state(ctx, bench.srv, (1, 2, 5)), before), "an unknown command changes nothing")
    ctx.check(ctx.eq(bench.command("custom a b\n"), "custom done: " + "%d" % n + "\r\n"), "a custom command is executed")
    ctx.check(got == [["custom", "a", "b"]], "a custom command gets its arguments")
    ctx.check(bench.command("failing 1").startswith("failing error: "), "a failing custom command is answered by an error")
    bench.command("quit\n")
    ctx.check(bench.ended, "quit ends the simulator")
    ctx.cover("done")


def servers_of(ctx, srv):
    """the servers a composite is made of"""
    out = []
    for v in list(vars(srv).values()):
        for x in v if isinstance(v, (list, tuple)) else list(v.values()) if isinstance(v, dict) else [v]:
            if isinstance(x, ctx.M.modbus.Server):
                out.append(x)
    return out


def composite(ctx):
    """both servers of the simulator share the slaves"""
    from harness.rtu import Port
    M = ctx.M
    ctx.text_mode()
    port = Port(ctx)
    srv = M.simulator.CompositeServer([M.modbus_rtu.RtuServer, M.modbus_tcp.TcpServer], [(port,), ()])
    bench = Bench(ctx, srv)
    u, v = ctx.int("unit", 1, 255), ctx.word("v")
    bench.command("add_slave " + "%d" % u)
    bench.command("add_block " + "%d" % u + " b 3 10 2")
    bench.command("set_values " + "%d" % u + " b 11 " + "%d" % v)
    servers = servers_of(ctx, srv)
    ctx.check(len(servers) == 2, "(harness) the servers of the composite are found")
    for s in servers:
        db = s.get_db()
        r = db.handle_request(raw_query(ctx, u), struct.pack(">BHH", 3, 11, 1))
        ctx.check(ctx.eq(r, struct.pack(">BBH", 3, 2, v)), "each server answers with the value set")
    ctx.cover("done")


def hook_commands(ctx, k=2, over_rpc=False, first=None):
    """any sequence of commands that install and uninstall declared functions as hooks"""
    h = ctx.M.hooks
    names = ("modbus.a", "modbus.b")
    for n in names:
        ctx.raises(h.uninstall_hook, n)
    bench = Bench(ctx)
    log = []
    v = ctx.word("v")

    def made(k):
        def f(args):
            log.append((k, args))
        return f
    for fct in ("f", "g"):
        bench.sim.declare_hook(fct, made(fct))
    want = {}
    cl = client(ctx, timeout=0.25) if over_rpc else None
    for j in range(k):
        op = first if first and not j else ctx.pick("op%d" % j, ("install_hook", "uninstall_hook"))
        name = ctx.pick("name%d" % j, names)
        fct = ctx.pick("fct%d" % j, ("f", "g", "h", "") if op == "uninstall_hook" else ("f", "g", "h"))
        ok = fct != "h"
        if ok and op == "install_hook":
            want.setdefault(name, []).append(fct)
        elif ok and fct == "":
            if name in want:
                want[name] = []
        elif ok and name in want:
            if fct in want[name]:
                want[name].remove(fct)
            else:
                ok = False
        elif ok:
            # nothing was ever installed: answered either way
            ok = None
        if over_rpc:
            if fct == "":
                ex, r = rpc(ctx, bench, cl.uninstall_hook, name)
            else:
                ex, r = rpc(ctx, bench, getattr(cl, op), name, fct)
            if ok is not None:
                ctx.check((ex is None) == ok, "a call raises exactly when the command fails")
        else:
            answer = bench.command(op + " " + name + (" " + fct if fct else ctx.pick("blank%d" % j, ("", " "))))
            if ok is not None:
                ctx.check(answer.startswith(op + (" done: " if ok else " error: ")), "the answer tells if the command succeeds")
        for n in names:
            log[:] = []
            r = h.call_hooks(n, v)
            ctx.check(r is None and [x[0] for x in log] == want.get(n, []), "exactly the installed functions are called")
            ctx.check(ctx.all([x[1] == v for x in log]), "the functions get the arguments")
    for n in names:
        ctx.raises(h.uninstall_hook, n)
    ctx.cover("done")


# ----------------------------------------------------------------------------------------------------------------- RPC

class Wire(object):
    """one connection: what one side sends arrives in pieces at the other"""

    def __init__(self, ctx, incoming=(), end="idle", cuts=None):
        self.ctx = ctx
        self.incoming = list(incoming)
        self.end = end
        self.out = []
        self.closed = False
        self.on_recv = None
        self.address = None
        self.timeout = None
        self.cuts = cuts if cuts is not None else []
        self.shut = False

    def settimeout(self, t):
        self.timeout = t

    def setsockopt(self, *a):
        pass

    def connect(self, a):
        self.address = a

    def send(self, data, *a):
        self.sendall(data)
        return 0

    def sendall(self, data, *a):
        if isinstance(data, str) or type(data).__name__ == "SymText":
            raise TypeError("a bytes-like object is required, not 'str'")
        self.out.append(data)

    def shutdown(self, how):
        self.shut = True

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def sent(self):
        r = b""
        for x in self.out:
            r = r + x
        return r

    def recv(self, n, *a):
        if not self.incoming and self.on_recv is not None:
            self.on_recv()
        if not self.incoming:
            if self.end == "eof" or self.shut and self.on_recv is None:
                return b""
            raise TIMEOUT("timed out")
        d = self.incoming.pop(0)
        if self.cuts or isinstance(d, (bytes, bytearray)) and len(d) > n:
            k = self.cuts.pop(0) if self.cuts else n
            k = min(k, n)
            if 0 < k < len(d):
                self.incoming.insert(0, d[k:])
                d = d[:k]
        return d


def rpc(ctx, bench, f, *a):
    """a call of the RPC client, carried to the simulator and back"""
    M = ctx.M
    up = Wire(ctx)
    bench.next_socket = up

    def exchange():
        if up.out:
            query, up.out = up.sent(), []
            down = Wire(ctx, [query], "eof")
            try:
                M.simulator.RpcHandler(down, ("client", 1), None)
            finally:
                if down.out:
                    up.incoming.append(down.sent())
                up.end = "eof"
    up.on_recv = exchange
    r = ctx.raises(f, *a)
    bench.wire = up
    return r


def client(ctx, **kw):
    return ctx.M.simulator_rpc_client.SimulatorRpcClient(**kw)


def rpc_calls(ctx, k=2, nvals=2, ops=COMMANDS, first=None):
    """any sequence of client calls has the effect of the API calls and returns their results, or raises"""
    cells = [ctx.word("cell%d" % i) for i in range(3)]
    bench = Bench(ctx)
    twin = ctx.keep(ctx.M.modbus_tcp.TcpServer())
    setup(ctx, bench.srv, cells)
    setup(ctx, twin, cells)
    ids = [1, 2]
    cl = client(ctx, timeout=0.25)
    for j in range(k):
        op = first if first and not j else ctx.pick("op%d" % j, ops)
        tag = "c%d" % j
        unit = ctx.int(tag + ".unit", -3, 300)
        ids.append(unit)
        name = ctx.pick(tag + ".name", ("b", "n")) if op in ("add_block", "remove_block", "set_values", "get_values") else None
        a = ctx.int(tag + ".addr", -3, 70000) if op in ("add_block", "set_values", "get_values") else None
        before = state(ctx, bench.srv, ids)
        if op in ("add_slave", "has_slave", "remove_slave", "remove_all_blocks"):
            ex, r = rpc(ctx, bench, getattr(cl, op), unit)
            if op == "add_slave":
                wex, w = ctx.raises(twin.add_slave, unit)
                ok = ex is None and ctx.eq(r, "%d" % unit)
            elif op == "has_slave":
                wex = None
                e2, s = ctx.raises(twin.get_slave, unit)
                ok = r is (e2 is None)
            elif op == "remove_slave":
                wex, w = ctx.raises(twin.remove_slave, unit)
                ok = ex is None
            else:
                wex, w = ctx.raises(lambda: twin.get_slave(unit).remove_all_blocks())
                ok = ex is None
        elif op == "remove_all_slaves":
            ex, r = rpc(ctx, bench, cl.remove_all_slaves)
            wex, w = ctx.raises(twin.remove_all_slaves)
            ok = ex is None
        elif op == "add_block":
            bt = ctx.int(tag + ".type", 0, 5)
            ex, r = rpc(ctx, bench, cl.add_block, unit, name, bt, a, 2)
            wex, w = ctx.raises(lambda: twin.get_slave(unit).add_block(name, bt, a, 2))
            ok = ex is None and ctx.eq(r, name)
        elif op == "remove_block":
            ex, r = rpc(ctx, bench, cl.remove_block, unit, name)
            wex, w = ctx.raises(lambda: twin.get_slave(unit).remove_block(name))
            ok = ex is None
        elif op == "set_values":
            vals = [ctx.int("%s.v%d" % (tag, i), -40000, 70000) for i in range(nvals)]
            ex, r = rpc(ctx, bench, cl.set_values, unit, name, a, vals)
            wex, w = ctx.raises(lambda: twin.get_slave(unit).set_values(name, a, vals))
            ok = ex is None and ctx.eq(r, joined(["%d" % v for v in vals]))
        else:
            n = 1 + ctx.choice(tag + ".len", 3)
            ex, r = rpc(ctx, bench, cl.get_values, unit, name, a, n)
            wex, w = ctx.raises(lambda: twin.get_slave(unit).get_values(name, a, n))
            ok = wex is not None or ex is None and ctx.eq(list(r), list(w))
        if wex is None:
            ctx.check(ok, op + ": the call returns the result")
            ctx.check(bench.wire.closed and bench.wire.address == ("127.0.0.1", 2711), op + ": over its own connection")
            ctx.check(bench.wire.timeout == 0.25, op + ": with the timeout given")
        else:
            ctx.check(ex is not None, op + ": a failing command is raised")
            ctx.check(ctx.eq(state(ctx, bench.srv, ids), before), op + ": a failing command changes nothing")
        ctx.check(not bench.ended, "the simulator keeps running")
        ctx.check(ctx.eq(state(ctx, bench.srv, ids), state(ctx, twin, ids)), op + ": exactly the effect of the API call")
    ctx.cover("done")


def rpc_answers(ctx, how="error"):
    """answers that are not the result of the command, broken connections"""
    ctx.text_mode()
    v = ctx.int("v", 0, 9999)
    t = "%d" % v
    up = Wire(ctx, end="eof")
    if how == "error":
        text = "get_values error: " + t + "\r\n"
    elif how == "other":
        text = "set_values done: " + t + "\r\n"
    elif how == "unknown":
        text = "error: unknown command get_values\r\n"
    elif how == "text":
        text = "get_values done: abc\r\n"
    elif how in ("eof", "silent"):
        text = ""
        up.end = "eof" if how == "eof" else "idle"
    elif how == "bye":
        text = "bye-bye\r\n"
    if len(how) and text != "":
        up.incoming.append(text.encode("ascii"))

    class Env(object):
        def new_socket(self, *a, **k):
            return up
    ctx.env = Env()
    ex, r = ctx.raises(client(ctx).get_values, 1, "b", 10, 1)
    ctx.check(ex is not None, "anything else than the result is raised")
    ctx.cover("done")


def rpc_pieces(ctx, n=3, big=False):
    """the answer comes in pieces or ends early"""
    vals = [(i * 7919 + 12345) % 65536 for i in range(n)]
    text = ("get_values done: " + " ".join([str(v) for v in vals]) + "\r\n").encode("ascii")
    ends = ctx.pick("ends", (False, True))
    if big:
        cuts = [ctx.pick("cut", (1000, 1023, 1024, 17) if n < 300 else (1000, 1024))]
        m = len(text) - 7 if ends else len(text)
    else:
        cuts = [1 + ctx.choice("cut", len(text) - 1)]
        m = ctx.choice("length", len(text)) if ends else len(text)
    up = Wire(ctx, [text[:m]] if m else [], "eof", cuts)

    class Env(object):
        def new_socket(self, *a, **k):
            return up
    ctx.env = Env()
    ex, r = ctx.raises(client(ctx).get_values, 1, "b", 10, n)
    if ends:
        # without its last two bytes the answer may or may not count as complete
        if ex is None:
            ctx.check(m >= len(text) - 2 and list(r) == vals, "an answer that ends early is not taken for the result")
    else:
        ctx.check(ex is None, "an answer in pieces is received")
        ctx.check(list(r) == vals, "all of an answer in pieces is received")
    ctx.cover("done")


def rpc_command_pieces(ctx, n=3, big=False):
    """the command comes in pieces or ends early"""
    bench = Bench(ctx)
    t = tables(ctx)
    s = bench.srv.add_slave(1)
    s.add_block("b", t["H"], 10, n)
    vals = [(i * 7919 + 12345) % 65536 for i in range(n)]
    # what the client really sends
    up = Wire(ctx, end="eof")
    bench.next_socket = up
    ctx.raises(client(ctx).set_values, 1, "b", 10, vals)
    query = up.sent()
    ctx.check(len(query) > 0 and (query[:17] == b"set_values 1 b 10"), "the client sends the command")
    ends = ctx.pick("ends", (False, True))
    if big:
        cuts = [ctx.pick("cut", (1000, 1023, 1024, 17))]
        m = len(query) - 7 if ends else len(query)
    else:
        cuts = [1 + ctx.choice("cut", len(query) - 1)]
        m = ctx.choice("length", len(query)) if ends else len(query)
    down = Wire(ctx, [query[:m]] if m else [], "eof", cuts)
    ctx.raises(ctx.M.simulator.RpcHandler, down, ("client", 1), None)
    ctx.check(not bench.ended, "the simulator keeps running")
    got = list(s.get_values("b", 10, n))
    if ends:
        ctx.check(got == [0] * n or m >= len(query) - 2 and got == vals, "a command that ends early is not executed")
    else:
        ctx.check(got == vals, "all of a command in pieces is executed")
        ctx.check(down.sent() == ("set_values done: " + " ".join([str(v) for v in vals]) + "\r\n").encode("ascii"),
                  "the answer is complete")
    # the next command
    up = Wire(ctx, [b"has_slave 1\n"], "eof")
    ctx.raises(ctx.M.simulator.RpcHandler, up, ("client", 1), None)
    ctx.check(up.sent() == b"has_slave done: 1\r\n", "the next command is executed")
    ctx.cover("done")


def rpc_garbage(ctx, n=4):
    """any ASCII line over the connection: the simulator keeps running"""
    bench = Bench(ctx)
    cells = [ctx.word("cell%d" % i) for i in range(3)]
    setup(ctx, bench.srv, cells)
    line = ctx.pick("line", (b"\n", b" \r\n", b"foo\n", b"add_slave\n", b"add_slave x\n", b"\xff\xfe\n", b"get_values 1 b 10 x\n",
                             b"quitter\n", b"add_slave 5 6 7\r\n", b"\x00\n", b""))
    up = Wire(ctx, [line] if line else [], "eof")
    ctx.raises(ctx.M.simulator.RpcHandler, up, ("client", 1), None)
    ctx.check(not bench.ended, "the simulator keeps running")
    up = Wire(ctx, [b"has_slave 1\n"], "eof")
    ctx.raises(ctx.M.simulator.RpcHandler, up, ("client", 1), None)
    ctx.check(up.sent() == b"has_slave done: 1\r\n", "the next command is executed")
    ctx.cover("done")
