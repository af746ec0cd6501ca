"""Interleavings.  Two (or more) operations of the code under test run in threads of which exactly one runs at a time.

Symbolic mode: before every access to an object both operations can reach (elements and methods of containers, attributes
and globals that the package assigns outside of constructors, lock operations, operations of the harness' transports) the
running operation may be preempted.  Where that happens is a solver variable `switch<j>`; a branch on it asks the solver
like any other branch, so every position up to the stated number of preemptions is explored, together with all values of
the data.  An operation that meets a lock held by the other one waits; the other one continues (this is no preemption).

Concrete mode (replay of counterexamples, validation): the un-instrumented operations run in real threads under
sys.monitoring; they are switched before a bytecode of the source line the counterexample names, trying each occurrence and
each bytecode of that line."""
import ast
import dis
import os
import sys
import threading
from . import core

threading.stack_size(64 << 20)
NEVER = 9999


class Kill(BaseException):
    pass


class Deadlock(Exception):
    """every operation waits for a lock"""


_ASSIGNED = {}


def assigned_names(repo):
    """attribute names the package assigns (or deletes) outside of constructors"""
    if repo not in _ASSIGNED:
        out = set()
        base = os.path.join(repo, "modbus_tk")
        for f in sorted(os.listdir(base)):
            if not f.endswith(".py"):
                continue
            with open(os.path.join(base, f), "rb") as h:
                tree = ast.parse(h.read())

            def walk(node, ctor):
                for c in ast.iter_child_nodes(node):
                    if isinstance(c, (ast.FunctionDef, ast.Lambda)):
                        walk(c, getattr(c, "name", "") in ("__init__", "__new__"))
                        continue
                    if isinstance(c, (ast.Global, ast.Nonlocal)):
                        out.update(c.names)
                    if isinstance(c, ast.Attribute) and not isinstance(c.ctx, ast.Load) and not ctor:
                        out.add(c.attr)
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("setattr", "delattr"):
                        for a in c.args[1:2]:
                            if isinstance(a, ast.Constant):
                                out.add(a.value)
                    walk(c, ctor)
            walk(tree, False)
        _ASSIGNED[repo] = out
    return _ASSIGNED[repo]


CONTAINERS = (list, dict, set, bytearray)


def children(o):
    if isinstance(o, dict):
        if getattr(o, "_slow", None) is not None:
            return [x for kv in o._slow for x in kv]
        return list(dict.values(o))
    if isinstance(o, (list, tuple, set, frozenset)):
        return list(o)
    d = getattr(o, "__dict__", None)
    if d is None:
        return []
    if isinstance(o, type):
        return [v for k, v in d.items() if not k.startswith("__")]
    return list(d.values())


def reach(roots, known):
    """adds the objects reachable from roots to known: {id: object}"""
    todo = list(roots)
    while todo:
        o = todo.pop()
        if id(o) in known or isinstance(o, (int, str, bytes, float, type(None), core.SymInt, core.SymBool)):
            continue
        mod = getattr(type(o), "__module__", "")
        if not isinstance(o, CONTAINERS + (tuple, frozenset, type)) and not str(mod).startswith("modbus_tk") and not (
                getattr(o, "_shared_", False)):
            continue
        known[id(o)] = o
        todo.extend(children(o))
    return known


class Op(object):
    def __init__(self, i, f):
        self.i = i
        self.f = f
        self.sem = threading.Semaphore(0)
        self.waits = None
        self.until = None
        self.timed = False
        self.done = False
        self.result = None
        self.fresh = False
        self.thread = None


class Base(object):
    """baton passing; one operation runs at a time"""

    def __init__(self, ctx, fs):
        self.ctx = ctx
        self.ops = [Op(i, f) for i, f in enumerate(fs)]
        self.main = threading.Semaphore(0)
        self.cur = None
        self.error = None
        self.dead = False
        self.owner = {}
        self.spins = 0

    def me(self):
        t = threading.current_thread()
        return getattr(t, "_op", None)

    def body(self, op):
        op.sem.acquire()
        try:
            if not self.dead:
                self.begin(op)
                op.result = self.ctx.raises(op.f)
        except Kill:
            return
        except BaseException as ex:
            self.finish(op)
            if self.error is None:
                self.error = ex
            self.main.release()
            return
        self.finish(op)
        op.done = True
        if self.dead:
            return
        n = self.runnable()
        if n:
            self.give(n[0])
        else:
            if not all(o.done for o in self.ops):
                self.error = Deadlock()
            self.main.release()

    def begin(self, op):
        pass

    def finish(self, op):
        pass

    def runnable(self):
        """operations that can continue, without the running one"""
        saved, core.SCHED = core.SCHED, None
        try:
            return self.can_run()
        finally:
            core.SCHED = saved

    def can_run(self):
        out = []
        for o in self.ops:
            if o is self.cur or o.done:
                continue
            if o.waits is not None and self.owner.get(id(o.waits), (None, 0))[0] not in (None, o):
                continue
            if o.until is not None and not o.timed and not o.until():
                continue
            out.append(o)
        return out

    def give(self, op):
        self.cur = op
        op.sem.release()

    def pass_to(self, op, me):
        """the running operation me stops and op continues; returns when me is continued"""
        self.give(op)
        me.sem.acquire()
        if self.dead:
            raise Kill()
        self.cur = me

    def wait_for(self, pred, timed):
        """the running operation waits (at most for some time when timed); tells if pred holds"""
        me = self.me()
        core.effect("wait")
        while not pred():
            if me is None or me is not self.cur:
                return False
            me.until, me.timed = pred, timed
            self.blocked(me)
            r = self.runnable()
            if not r:
                me.until = None
                if timed:
                    return False
                self.error = Deadlock()
                self.main.release()
                me.sem.acquire()
                raise Kill()
            self.spins += timed
            # threads that wait for some time in turn do not keep the others from running
            self.pass_to(r[0] if self.spins < 100 else r[self.spins % len(r)], me)
            me.until = None
            if timed:
                return bool(pred())
        return True

    def lock(self, what, l):
        me = self.me()
        if what == "rel":
            own, n = self.owner.get(id(l), (None, 0))
            if own is not me or n == 0:
                if not (n and not l.reentrant):
                    raise RuntimeError("cannot release un-acquired lock")
            n -= 1
            l.count = n
            self.owner[id(l)] = (own if n else None, n)
            return None
        if me is not None:
            self.access(l, None)
        own, n = self.owner.get(id(l), (None, 0))
        while n and (own is not me or not l.reentrant):
            if what == "try":
                return False
            if what == "wait" and self.ctx.choice("expired", 2):
                return False
            if me is None:
                raise RuntimeError("lock is still held")
            me.waits = l
            self.blocked(me)
            r = self.runnable()
            if own is me:
                r = [o for o in r if o is not me]
            if not r:
                self.error = Deadlock()
                self.main.release()
                me.sem.acquire()
                raise Kill()
            self.pass_to(r[0], me)
            own, n = self.owner.get(id(l), (None, 0))
        if me is not None:
            me.waits = None
        self.owner[id(l)] = (me, n + 1)
        l.count = n + 1
        return True

    def blocked(self, me):
        pass

    def access(self, o, name):
        pass

    def execute(self, first):
        ctx = self.ctx
        for op in self.ops:
            t = threading.Thread(target=self.body, args=(op,))
            t.daemon = True
            t._op = op
            op.thread = t
            t.start()
        saved = getattr(ctx, "lock_hook", None)
        ctx.lock_hook = self.lock
        ctx.sched_wait = self.wait_for
        try:
            self.enable()
            self.give(self.ops[first])
            self.main.acquire()
        finally:
            self.disable()
            self.dead = True
            for op in self.ops:
                op.sem.release()
            for op in self.ops:
                op.thread.join(2)
            ctx.lock_hook = saved
            ctx.sched_wait = None
            for l in ctx.locks:
                if self.error is not None:
                    l.count = 0
        if isinstance(self.error, Deadlock):
            return None
        if self.error is not None:
            raise self.error
        ctx.left_locked = len([l for l in ctx.locks if l.count])
        for l in ctx.locks:
            l.count = 0
        return [op.result for op in self.ops]

    def enable(self):
        pass

    def disable(self):
        pass


def where():
    """source line of the package (innermost)"""
    from .world import REPO
    f = sys._getframe(1)
    pre = os.path.join(REPO, "modbus_tk") + os.sep
    while f is not None:
        if f.f_code.co_filename.startswith(pre):
            return os.path.basename(f.f_code.co_filename), f.f_lineno
        f = f.f_back
    return "", 0


class SymSched(Base):
    def __init__(self, ctx, fs, roots, pre, tag=""):
        from .world import REPO
        Base.__init__(self, ctx, fs)
        self.roots = roots
        self.known = reach(roots, {})
        self.keep = []
        self.names = assigned_names(REPO)
        self.switch = [ctx.int("%sswitch%d" % (tag, j), 0, NEVER) for j in range(pre)]
        self.used = 0
        self.count = 0
        self.hint = []

    def enable(self):
        core.SCHED = self.access
        self.ctx.sched_point = self.point

    def disable(self):
        core.SCHED = None
        self.ctx.sched_point = None

    def shared(self, o):
        if id(o) in self.known:
            return True
        reach(self.roots, self.known)
        return id(o) in self.known

    def access(self, o, name):
        """before an access to o"""
        me = self.me()
        if me is not None and self.dead:
            raise Kill()
        if me is None or me is not self.cur:
            return
        if name is None:
            if not isinstance(o, CONTAINERS) and not hasattr(o, "reentrant"):
                if type(o).__name__ not in ("deque", "SymList", "OrderedDict", "array"):
                    return
            if not hasattr(o, "reentrant") and not self.shared(o):
                return
        else:
            if name not in self.names:
                return
            if not isinstance(o, type) and not self.shared(o) and not hasattr(o, "__path__") and not (
                    type(o).__name__ in ("module", "function")):
                return
        self.point()

    def point(self):
        me = self.me()
        if me is None or me is not self.cur:
            return
        core.effect("schedule")
        me.fresh = False
        if self.used >= len(self.switch):
            return
        others = self.runnable()
        if not others:
            return
        self.count += 1
        if self.count > NEVER - 2:
            raise core.OutOfBudget("too many shared accesses")
        if self.switch[self.used] == self.count:
            j = self.ctx.choice("next", len(others)) if len(others) > 1 else 0
            f, l = where()
            self.hint.append([me.i, f, l, others[j].i])
            self.ctx.ex.sched_hint = self.hint
            self.used += 1
            others[j].fresh = True
            self.pass_to(others[j], me)

    def blocked(self, me):
        if me.fresh:
            # the preemption had no effect: the schedule without it is explored as well
            raise core.PathAbort("redundant schedule")


BORING = {"LOAD_FAST", "STORE_FAST", "LOAD_CONST", "RESUME", "CACHE", "POP_TOP", "COPY", "SWAP", "NOP", "PUSH_NULL",
          "RETURN_CONST", "KW_NAMES", "PRECALL", "RERAISE", "PUSH_EXC_INFO", "POP_EXCEPT", "JUMP_FORWARD",
          "LOAD_FAST_CHECK", "BUILD_TUPLE", "BUILD_LIST", "BUILD_SLICE", "MAKE_CELL", "COPY_FREE_VARS"}


TOOL = 3
_WATCHED = {}
_RUNNING = [None]


def watch():
    """Instruction events for the code of the package.  They are switched on once and stay on: (de)instrumenting code that
    other threads are about to run, as settrace does, makes CPython 3.12 crash."""
    from . import world
    mon = sys.monitoring
    if mon.get_tool(TOOL) is None:
        mon.use_tool_id(TOOL, "verif")
        mon.register_callback(TOOL, mon.events.INSTRUCTION, instruction)
    for key, code in list(world._CODE.items()):
        if key[1] != "conc" or not key[0].startswith(world.REPO + os.sep):
            continue
        todo = [code]
        while todo:
            c = todo.pop()
            if c in _WATCHED:
                continue
            lines = {}
            for a, b, line in c.co_lines():
                for i in range(a, b, 2):
                    lines[i] = line
            ops = {}
            raw = c.co_code
            for i in range(0, len(raw), 2):
                ops[i] = dis.opname[raw[i]]
            _WATCHED[c] = (os.path.basename(c.co_filename), lines, ops)
            mon.set_local_events(TOOL, c, mon.events.INSTRUCTION)
            todo.extend(k for k in c.co_consts if hasattr(k, "co_code"))


def instruction(code, offset):
    s = _RUNNING[0]
    if s is not None:
        s.step(code, offset)


class ConcSched(Base):
    """one schedule on the real code: the j-th switch happens before the k_j-th candidate bytecode"""

    def __init__(self, ctx, fs, hint, ks):
        Base.__init__(self, ctx, fs)
        self.spec = [(h[0], h[1], h[2], h[3], k) for h, k in zip(hint, ks)]
        self.used = 0
        self.seen = 0

    def enable(self):
        watch()
        _RUNNING[0] = self

    def disable(self):
        _RUNNING[0] = None

    def step(self, code, offset):
        if self.used >= len(self.spec):
            return
        i, f, line, to, k = self.spec[self.used]
        me = self.me()
        if me is None or me is not self.cur or me.i != i:
            return
        name, lines, ops = _WATCHED[code]
        if line and (lines.get(offset) != line or name != f):
            return
        if ops[offset] in BORING:
            return
        self.seen += 1
        if self.seen == k:
            others = [o for o in self.runnable() if o.i == to]
            self.used += 1
            self.seen = 0
            if others:
                self.pass_to(others[0], me)


def interleave(ctx, make, ops, pre=1, roots=None, limit=400, tag="", first=None):
    """Runs the operations (functions of the object make() returns) concurrently.  Yields (object, results or None for a
    deadlock); results are (exception, value) pairs.  In symbolic mode once per path, in concrete mode once per tried
    schedule."""
    if first is None:
        first = ctx.choice("first", len(ops)) if len(ops) > 1 else 0
    if ctx.symbolic:
        w = make()
        s = SymSched(ctx, [(lambda f=f: f(w)) for f in ops], roots(w) if roots else [w], pre, tag)
        r = s.execute(first)
        yield w, r
        return
    for j in range(pre):
        ctx.int("%sswitch%d" % (tag, j), 0, NEVER)
    hint = [h for h in ctx.inputs.get("__sched__", [])]
    ctx.used["__sched__"] = hint
    n = 0
    ks = [1] * len(hint)
    while True:
        w = make()
        s = ConcSched(ctx, [(lambda f=f: f(w)) for f in ops], hint, ks)
        r = s.execute(first)
        yield w, r
        n += 1
        if not hint or n >= limit:
            return
        # next combination; a switch that did not happen ends its row
        j = s.used
        if j >= len(hint):
            ks[-1] += 1
        else:
            if j == 0:
                return
            ks[j - 1] += 1
            for i in range(j, len(hint)):
                ks[i] = 1
