"""Environment of the code under test.  Sockets, serial ports, the clock and the scheduler are whatever the harness puts
into ctx.env; without it they are inert."""
import types
from . import core
import logging as _logging
import socket as _socket


class NullLogger(object):
    """logging has no effect on behaviour; messages are dropped"""
    name = "modbus_tk"
    level = 0
    handlers = []
    disabled = False
    propagate = True

    debugs = 0

    def _nop(self, *a, **k):
        return None

    def debug(self, *a, **k):
        core.effect("log")
        self.debugs += 1

    info = warning = warn = error = exception = critical = log = setLevel = addHandler = removeHandler = _nop

    def isEnabledFor(self, level):
        return True

    def getEffectiveLevel(self):
        return 10


class StubLock(object):
    """Lock / RLock / used as a context manager; single-threaded runs only count the nesting"""

    def __init__(self, ctx, reentrant):
        self.ctx = ctx
        self.count = 0
        self.reentrant = reentrant
        ctx.locks.append(self)
        ctx.lock_created(self) if hasattr(ctx, "lock_created") else None

    def acquire(self, blocking=True, timeout=-1):
        h = getattr(self.ctx, "lock_hook", None)
        if h is not None:
            core.effect("lock")
            return h("acq" if blocking and (timeout is None or timeout < 0) else "try" if not blocking else "wait", self)
        if self.count and not self.reentrant:
            if not blocking or timeout >= 0:
                return False
            self.ctx.fail("deadlock: a lock held by this thread is acquired again")
        self.count += 1
        return True

    def release(self):
        h = getattr(self.ctx, "lock_hook", None)
        if h is not None:
            core.effect("lock")
            return h("rel", self)
        if self.count == 0:
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1

    def locked(self):
        return self.count > 0

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()
        return False


class StubEvent(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.flag = False

    def set(self):
        core.effect("environment")
        self.ctx.point()
        self.flag = True

    def clear(self):
        core.effect("environment")
        self.ctx.point()
        self.flag = False

    def is_set(self):
        self.ctx.point()
        return self.flag

    isSet = is_set

    def wait(self, timeout=None):
        self.ctx.block(lambda: self.flag, timeout is not None)
        return self.flag


class StubCondition(StubLock):
    def __init__(self, ctx, lock=None):
        StubLock.__init__(self, ctx, True)

    def wait(self, timeout=None):
        return True

    def notify(self, n=1):
        pass

    notify_all = notifyAll = notify


def thread_class(ctx):
    class Thread(object):
        """start() only records; the harness runs the target with run_target()"""

        def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
            self._target = target
            self._args = args
            self._kwargs = kwargs or {}
            self.name = name or "thread"
            self.daemon = daemon
            self._started = False
            self._done = False
            ctx.threads.append(self)

        def start(self):
            core.effect("environment")
            if self._started:
                raise RuntimeError("threads can only be started once")
            self._started = True

        def run(self):
            if self._target:
                self._target(*self._args, **self._kwargs)

        def run_target(self):
            core.effect("environment")
            try:
                self.run()
            finally:
                self._done = True

        def is_alive(self):
            ctx.point()
            return self._started and not self._done

        isAlive = is_alive

        def join(self, timeout=None):
            core.effect("environment")
            if not self._started:
                raise RuntimeError("cannot join thread before it is started")
            h = getattr(ctx, "join_hook", None)
            if h is not None:
                h(self)
            ctx.block(lambda: self._done, timeout is not None)

        def setDaemon(self, d):
            core.effect("environment")
            self.daemon = d

        def getName(self):
            return self.name

        ident = 1
    return Thread


class Namespace(types.ModuleType):
    pass


def ns(name, **k):
    m = Namespace(name)
    for a, b in k.items():
        setattr(m, a, b)
    return m


def modules(ctx):
    logger = NullLogger()
    ctx.debugs = lambda: logger.debugs

    class Handler(object):
        def __init__(self, level=0):
            self.level = level

        def format(self, record):
            return ""

        def setFormatter(self, f):
            pass

        def setLevel(self, l):
            pass

        def emit(self, record):
            pass

    log = ns("logging", getLogger=lambda *a: logger, Handler=Handler, StreamHandler=Handler,
             Formatter=lambda *a, **k: None, Logger=NullLogger, NullHandler=Handler, basicConfig=lambda *a, **k: None,
             DEBUG=10, INFO=20, WARNING=30, WARN=30, ERROR=40, CRITICAL=50, NOTSET=0)
    for n in ("debug", "info", "warning", "error", "critical", "exception", "log"):
        setattr(log, n, logger._nop)

    def now():
        env = ctx.env
        if env is not None and hasattr(env, "time"):
            return env.time()
        ctx.clock += 0.001
        return ctx.clock

    def sleep(d):
        core.effect("environment")
        ctx.events.append(("sleep", d))
        env = ctx.env
        if env is not None and hasattr(env, "sleep"):
            env.sleep(d)

    tm = ns("time", time=now, monotonic=now, perf_counter=now, sleep=sleep, process_time=now,
            strftime=lambda *a: "", ctime=lambda *a: "")

    th = ns("threading", RLock=lambda: StubLock(ctx, True), Lock=lambda: StubLock(ctx, False),
            Event=lambda: StubEvent(ctx), Thread=thread_class(ctx), Condition=lambda lock=None: StubCondition(ctx),
            Semaphore=lambda n=1: StubLock(ctx, False), BoundedSemaphore=lambda n=1: StubLock(ctx, False),
            get_ident=lambda: 1, local=type("local", (object,), {}))
    main = th.Thread(name="MainThread")
    ctx.threads.remove(main)
    th.current_thread = lambda: main
    th.currentThread = th.current_thread
    th.main_thread = th.current_thread

    def need_env(what):
        if ctx.env is None or not hasattr(ctx.env, what):
            raise OSError("no environment for " + what)
        return getattr(ctx.env, what)

    class SocketType(object):
        """isinstance(x, socket.socket) holds for the harness sockets"""
        def __new__(cls, *a, **k):
            return need_env("new_socket")(*a, **k)

    def create_connection(address, timeout=None, *a, **k):
        s = need_env("new_socket")()
        if timeout is not None:
            s.settimeout(timeout)
        s.connect(address)
        return s

    so = ns("socket", socket=SocketType, error=OSError, timeout=_socket.timeout, herror=_socket.herror,
            gaierror=_socket.gaierror, create_connection=create_connection)
    for n in dir(_socket):
        v = getattr(_socket, n)
        if n.isupper() and isinstance(v, int):
            setattr(so, n, v)

    se = ns("select", select=lambda r, w, x, *t: need_env("select")(r, w, x, *t), error=OSError)
    # epoll/poll are not provided: code that needs them cannot be encoded

    class Serial(object):
        def __new__(cls, *a, **k):
            return need_env("new_serial")(*a, **k)

    ser = ns("serial", Serial=Serial, SerialException=type("SerialException", (OSError,), {}),
             PARITY_NONE="N", PARITY_EVEN="E", PARITY_ODD="O", EIGHTBITS=8, STOPBITS_ONE=1)

    class Empty(Exception):
        pass

    class Queue(object):
        def __init__(self, maxsize=0):
            self.items = []

        def put(self, x, *a, **k):
            core.effect("environment")
            ctx.point()
            self.items.append(x)
            ctx.events.append(("put", x))

        def get(self, *a, **k):
            core.effect("environment")
            ctx.point()
            env = ctx.env
            if not self.items and env is not None and hasattr(env, "queue_get"):
                return env.queue_get(self)
            if not self.items:
                raise Empty()
            return self.items.pop(0)

        def empty(self):
            return not self.items

        def qsize(self):
            return len(self.items)

    qu = ns("queue", Queue=Queue, Empty=Empty, Full=type("Full", (Exception,), {}))

    class BaseRequestHandler(object):
        def __init__(self, request, client_address=None, server=None):
            self.request = request
            self.client_address = client_address
            self.server = server
            self.setup()
            try:
                self.handle()
            finally:
                self.finish()

        def setup(self):
            pass

        def handle(self):
            pass

        def finish(self):
            pass

    class TCPServer(object):
        allow_reuse_address = False

        def __init__(self, addr, handler, *a, **k):
            self.addr = addr
            self.handler = handler

        def serve_forever(self, *a, **k):
            if ctx.env is not None and hasattr(ctx.env, "serve_forever"):
                ctx.env.serve_forever(self)

        def shutdown(self):
            if ctx.env is not None and hasattr(ctx.env, "shutdown"):
                ctx.env.shutdown(self)

        def server_close(self):
            pass

    ss = ns("socketserver", BaseRequestHandler=BaseRequestHandler, TCPServer=TCPServer, ThreadingTCPServer=TCPServer,
            StreamRequestHandler=BaseRequestHandler)

    return {"logging": log, "time": tm, "threading": th, "socket": so, "select": se, "serial": ser, "queue": qu,
            "socketserver": ss}
