"""The interface harnesses are written against, in two implementations: SymCtx (symbolic exploration of the instrumented
code) and ConcCtx (one concrete run of the real, un-instrumented code with the values of a model)."""
import builtins
import zlib
from . import core, runtime
from .core import (SymInt, SymBool, SymBytes, SymList, SymFloat, and_all, or_all, not_, cmp_, ite, is_intlike, belems,
                   bexpr, mkbool, PathDone, PathAbort, EngineSignal)
from .text import SymText, TextBytes
from .world import World, harness_module
import z3


class CheckFailed(BaseException):
    def __init__(self, msg):
        BaseException.__init__(self, msg)
        self.msg = msg


class AssumeFailed(BaseException):
    pass


class KnownHit(BaseException):
    def __init__(self, kf):
        BaseException.__init__(self, kf)
        self.kf = kf


BYTESLIKE = (bytes, bytearray, SymBytes)


def deep_eq(a, b):
    """equality without forking; bytes and bytearray compare by content, list and tuple by content"""
    if isinstance(a, BYTESLIKE) and isinstance(b, BYTESLIKE):
        x, y = belems(a), belems(b)
        if len(x) != len(y):
            return False
        return and_all([cmp_(p, q, "==") for p, q in zip(x, y)])
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return and_all([deep_eq(p, q) for p, q in zip(a, b)])
    if isinstance(a, SymList) or isinstance(b, SymList):
        return a == b
    if is_intlike(a) and is_intlike(b):
        return cmp_(a, b, "==")
    return a == b


class BaseCtx(object):
    def fresh(self):
        self.keepalive = []
        self.events = []
        self.locks = []
        self.threads = []
        self.clock = 1000.0
        self.env = None
        self.log = []

    def keep(self, o):
        self.keepalive.append(o)
        return o

    def byte(self, name):
        return self.int(name, 0, 255)

    def word(self, name):
        return self.int(name, 0, 0xFFFF)

    def pick(self, name, options):
        options = list(options)
        return options[self.choice(name, len(options))]

    def eq(self, a, b):
        return deep_eq(a, b)

    def all(self, xs):
        return and_all(list(xs))

    def any(self, xs):
        return or_all(list(xs))

    def not_(self, x):
        return not_(x)

    def implies(self, a, b):
        return or_all([not_(a), b])

    def ite(self, c, a, b):
        if isinstance(c, SymInt):
            c = cmp_(c, 0, "!=")
        elif not isinstance(c, SymBool):
            c = builtins.bool(c)
        return ite(c, a, b)

    def fail(self, msg, data=None):
        self.check(False, msg, data)

    def raises(self, f, *a, **k):
        """(exception or None, result)"""
        core.effect("call")
        try:
            return None, f(*a, **k)
        except Exception as ex:
            self.keepalive.append(ex)
            return ex, None

    def interleave(self, make, ops, **k):
        from . import sched
        return sched.interleave(self, make, ops, **k)

    def point(self):
        """an operation of the environment that other threads may precede"""
        p = getattr(self, "sched_point", None)
        if p is not None:
            p()

    def block(self, pred, timed):
        """the environment makes the calling thread wait until pred() holds, when timed not for ever; tells if it holds"""
        w = getattr(self, "sched_wait", None)
        if w is not None:
            return w(pred, timed)
        return bool(pred())

    def locks_free(self):
        return all(l.count == 0 for l in self.locks)


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, ex, known, attr_hooks=False):
        self.ex = ex
        self.known = known
        self.attr_hooks = attr_hooks

    def start(self):
        from . import stubs
        self.fresh()
        self.M = World("sym", stubs.modules(self), attr_hooks=self.attr_hooks, merge=self.ex.merge_enabled)

    def int(self, name, lo, hi):
        return self.ex.new_int(name, lo, hi)

    def bool(self, name):
        return self.ex.new_bool(name)

    def rate(self, name, lo, hi):
        """an integer used in real arithmetic"""
        return self.ex.new_real(name, lo, hi)

    def bytes(self, name, n):
        return core.mkbytes([self.ex.new_int("%s[%d]" % (name, i), 0, 255) for i in range(n)])

    def choice(self, name, n):
        return self.ex.choice(n)

    def assume(self, c):
        self.ex.effect("harness")
        self.ex.assume(c)

    def check(self, cond, msg, data=None, known=None):
        self.ex.effect("harness")
        ex = self.ex
        if known is not None and known[0] in self.known:
            kf, pred = known
            c = bexpr(cond) if isinstance(cond, (SymBool, SymInt)) else z3.BoolVal(bool(cond))
            p = bexpr(pred) if isinstance(pred, (SymBool, SymInt)) else z3.BoolVal(bool(pred))
            bad = z3.simplify(z3.And(z3.Not(c), p))
            if not z3.is_false(bad) and kf not in ex.known_hits:
                m = ex.get_model(bad)
                if m is not None:
                    ex.known_hits[kf] = dict(msg=msg, inputs=ex.assignment(m))
            ex.check(mkbool(z3.simplify(z3.Or(c, p))), msg, data)
            self.ex.assume(mkbool(z3.simplify(c)))
            return
        ex.check(cond, msg, data)

    def cover(self, label):
        self.ex.effect("harness")
        self.ex.covered[label] = self.ex.covered.get(label, 0) + 1

    def observe(self, name, v):
        self.ex.effect("harness")
        self.ex.observations.append((name, v))

    def incomplete(self, s):
        self.ex.note_incomplete(s)

    def note(self, s):
        self.ex.effect("harness")
        self.ex.path_notes.append(str(s))

    def big_blocks(self, on=True):
        """blocks of symbolic size are kept as solver arrays"""
        self.ex.effect("harness")
        self.ex.symlist_enabled = on

    def text_mode(self, on=True):
        self.ex.effect("harness")
        self.ex.text_mode = on

    def new_array_list(self, name, length):
        """(list with arbitrary contents of symbolic length)"""
        raise NotImplementedError

    def valid(self, cond):
        """is cond true for all values on this path (asked to the solver)"""
        self.ex.effect("harness")
        if isinstance(cond, (SymBool, SymInt)):
            return not self.ex.sat_with(z3.Not(bexpr(cond)))
        return bool(cond)

    def possible(self, cond):
        self.ex.effect("harness")
        if isinstance(cond, (SymBool, SymInt)):
            return self.ex.sat_with(bexpr(cond))
        return bool(cond)

    def concrete(self, v):
        """forks over the values of v"""
        self.ex.effect("harness")
        if isinstance(v, SymBool):
            return bool(v)
        return self.ex.concretize(v)

    def no_error_pattern(self, e, msg, maxburst=16, content=()):
        """the linear conditions of this path admit no 1- or 2-bit, burst or odd-weight value of the bytes e; where they
        alone do, the other conditions are asked, with the inputs in content being zero"""
        from . import gf2
        ex = self.ex
        rows, n = gf2.rows_over(ex, e)
        for kind, pattern in gf2.patterns(ex, rows, n, maxburst):
            ex.stats["obligations"] += 1
            if pattern is None:
                ex.stats["discharged"] += 1
                continue
            val = [0] * len(e)
            for j in pattern:
                val[j // 8] |= 1 << (j % 8)
            saved = list(ex.lin_basis), set(ex.lin_false), dict(ex.lin_eqs)
            try:
                ex.assume(and_all([cmp_(x, v, "==") for x, v in zip(e, val)]))
            except PathAbort:
                ex.lin_basis, ex.lin_false, ex.lin_eqs = saved
                val = gf2.search(ex, e, content, maxburst)
                if val is None:
                    ex.note_incomplete("error pattern excluded only by conditions that are not linear")
                    return
                kind = "burst of up to %d bits" % maxburst
                ex.assume(and_all([cmp_(x, v, "==") for x, v in zip(e, val)] +
                                  [cmp_(x, 0, "==") for x in content if isinstance(x, SymInt)]))
            ex.check(False, "%s (%s)" % (msg, kind))


class ConcCtx(BaseCtx):
    """one run of the real code with concrete values"""
    symbolic = False

    def __init__(self, inputs, known=(), trace=False, fill=False):
        self.inputs = inputs
        self.fill = fill
        self.used = {"__choices__": []}
        self.choices = list(inputs.get("__choices__", []))
        self.known = known
        self.obs = []
        self.covered = {}
        self.trace = trace

    def start(self):
        from . import stubs
        self.fresh()
        self.M = World("conc", stubs.modules(self))

    def _get(self, name, lo, hi):
        if name in self.inputs:
            v = self.inputs[name]
            if not lo <= v <= hi:
                raise AssumeFailed("input %s out of its range" % name)
        elif self.fill:
            v = lo + (zlib.crc32(name.encode()) % (hi - lo + 1))
        else:
            raise AssumeFailed("no value for input %s" % name)
        self.used[name] = v
        return v

    def int(self, name, lo, hi):
        return self._get(name, lo, hi)

    def rate(self, name, lo, hi):
        return self._get(name, lo, hi)

    def bool(self, name):
        return builtins.bool(self._get(name, 0, 1))

    def bytes(self, name, n):
        return builtins.bytes([self._get("%s[%d]" % (name, i), 0, 255) for i in range(n)])

    def choice(self, name, n):
        if n == 1:
            return 0
        if self.choices:
            v = self.choices.pop(0)
        elif self.fill:
            v = zlib.crc32(name.encode()) % n
        else:
            raise AssumeFailed("no value for choice %s" % name)
        if v >= n:
            raise AssumeFailed("choice %s out of range" % name)
        self.used["__choices__"].append(v)
        return v

    def assume(self, c):
        if not c:
            raise AssumeFailed("assumption violated")

    def check(self, cond, msg, data=None, known=None):
        if not cond:
            if known is not None and known[0] in self.known and known[1]:
                raise KnownHit(known[0])
            raise CheckFailed(msg)

    def cover(self, label):
        self.covered[label] = self.covered.get(label, 0) + 1

    def observe(self, name, v):
        self.obs.append((name, v))

    def incomplete(self, s):
        pass

    def note(self, s):
        pass

    def big_blocks(self, on=True):
        pass

    def text_mode(self, on=True):
        pass

    def valid(self, cond):
        return bool(cond)

    def possible(self, cond):
        return bool(cond)

    def concrete(self, v):
        return v

    def no_error_pattern(self, e, msg, maxburst=16, content=()):
        bits = [8 * k + i for k, x in enumerate(e) for i in range(8) if x >> i & 1]
        if bits and (len(bits) <= 2 or len(bits) % 2 or bits[-1] - bits[0] < maxburst):
            raise CheckFailed(msg)
