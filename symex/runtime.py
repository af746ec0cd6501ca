"""Runtime of the instrumented code: what CPython does in C, done on symbolic values.  Concrete values take the native
route."""
import builtins
import operator
import types
import z3
from . import core
from .core import (SymInt, SymBool, SymBytes, SymList, SymFloat, MergeAbort, Unsupported, PathAbort, EngineSignal,
                   EngineError, cmp_, ite, not_, arith, and_all, or_all, norm, bexpr, mkbool, is_intlike, belems, kind,
                   mkbytes, conc_slice, table_get, in_range, narrow, bounds, Journal, _cur_value, _set_value, _MISSING,
                   join_bytes, sint, width_for, ext)
from . import text
from .text import SymText

Signal = EngineSignal
MISSING = _MISSING
slice = builtins.slice
SYMS = (SymInt, SymBool, SymBytes, SymList, SymFloat, SymText)   # SymReal is a SymFloat


class MergeFail(Exception):
    pass


MERGE_FAIL = (Exception, MergeAbort, Unsupported)


def E():
    return core.E


def enter(fid):
    e = core.E
    if e is not None:
        e.functions.add(fid)


def locs(d, names):
    return tuple([d.get(n, MISSING) for n in names])


# ------------------------------------------------------------------------------------------------------------------
# dicts with symbolic keys

class SDict(dict):
    """dict; a symbolic key is kept as an association and compared by the solver"""

    def __init__(self, *a, **k):
        dict.__init__(self)
        self._slow = None     # list of [key, value] once a symbolic key was stored
        self.update(*a, **k)

    def _find(self, key):
        """(found, stored key) for key; forks over the candidates"""
        if self._slow is None:
            if isinstance(key, SymBool):
                key = key.asint()
            if isinstance(key, SymInt):
                for k in dict.keys(self):
                    if is_intlike(k) and cmp_(key, k, "=="):
                        return True, k
                return False, None
            if isinstance(key, (SymBytes, SymText)):
                for k in dict.keys(self):
                    if key == k:
                        return True, k
                return False, None
            return dict.__contains__(self, key), key
        hash(key) if not isinstance(key, SYMS) else None
        for i, (k, _) in enumerate(self._slow):
            r = k is key or (k == key)
            if r:
                return True, i
        return False, None

    def __contains__(self, key):
        return self._find(key)[0]

    def __getitem__(self, key):
        ok, k = self._find(key)
        if not ok:
            raise KeyError(key)
        return self._slow[k][1] if self._slow is not None else dict.__getitem__(self, k)

    def get(self, key, default=None):
        ok, k = self._find(key)
        if not ok:
            return default
        return self._slow[k][1] if self._slow is not None else dict.__getitem__(self, k)

    def __setitem__(self, key, v):
        e = core.E
        if e is not None and e.jstack:
            e.effect("dict store")
        ok, k = self._find(key)
        if self._slow is None:
            if ok:
                dict.__setitem__(self, k, v)
            elif isinstance(key, SYMS):
                self._slow = [[a, b] for a, b in dict.items(self)]
                dict.clear(self)
                self._slow.append([norm(key) if isinstance(key, SymBool) else key, v])
            else:
                dict.__setitem__(self, key, v)
        elif ok:
            self._slow[k][1] = v
        else:
            self._slow.append([key, v])

    def __delitem__(self, key):
        e = core.E
        if e is not None and e.jstack:
            e.effect("dict delete")
        ok, k = self._find(key)
        if not ok:
            raise KeyError(key)
        if self._slow is not None:
            del self._slow[k]
        else:
            dict.__delitem__(self, k)

    def pop(self, key, *d):
        ok, k = self._find(key)
        if not ok:
            if d:
                return d[0]
            raise KeyError(key)
        e = core.E
        if e is not None and e.jstack:
            e.effect("dict pop")
        if self._slow is not None:
            return self._slow.pop(k)[1]
        return dict.pop(self, k)

    def popitem(self):
        if self._slow is not None:
            if not self._slow:
                raise KeyError("popitem(): dictionary is empty")
            return tuple(self._slow.pop())
        return dict.popitem(self)

    def setdefault(self, key, d=None):
        ok, k = self._find(key)
        if ok:
            return self._slow[k][1] if self._slow is not None else dict.__getitem__(self, k)
        self[key] = d
        return d

    def update(self, *a, **k):
        if a:
            o = a[0]
            if isinstance(o, SDict):
                for x, y in o.items():
                    self[x] = y
            elif hasattr(o, "keys"):
                for x in o.keys():
                    self[x] = o[x]
            else:
                for x, y in o:
                    self[x] = y
        for x, y in k.items():
            self[x] = y

    def clear(self):
        e = core.E
        if e is not None and e.jstack:
            e.effect("dict clear")
        dict.clear(self)
        self._slow = None

    def __len__(self):
        return len(self._slow) if self._slow is not None else dict.__len__(self)

    def __bool__(self):
        return len(self) > 0

    def __iter__(self):
        if self._slow is None:
            return dict.__iter__(self)
        return self._iter_slow(0)

    def _iter_slow(self, what):
        n = len(self._slow)
        for i in range(n):
            if len(self._slow) != n:
                raise RuntimeError("dictionary changed size during iteration")
            yield self._slow[i][0] if what == 0 else self._slow[i][1] if what == 1 else tuple(self._slow[i])

    def keys(self):
        return dict.keys(self) if self._slow is None else list(self._iter_slow(0))

    def values(self):
        return dict.values(self) if self._slow is None else list(self._iter_slow(1))

    def items(self):
        return dict.items(self) if self._slow is None else list(self._iter_slow(2))

    def copy(self):
        return SDict(self)

    def __eq__(self, o):
        if self._slow is None and not (isinstance(o, SDict) and o._slow is not None):
            return dict.__eq__(self, o)
        return len(self) == len(o) and all(k in o and o[k] == v for k, v in self.items())

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __repr__(self):
        return repr({a: b for a, b in self.items()}) if self._slow is None else "{...}"


def mkdict_items(*items):
    return SDict(items)


def mkdict(x):
    return SDict(x)


# ------------------------------------------------------------------------------------------------------------------
# subscripts and attributes

def getitem(o, k):
    if core.SCHED is not None:
        core.SCHED(o, None)
    tk = type(k)
    if tk is int or tk is str:
        return o[k]
    if tk is SymBool:
        k = k.asint()
        tk = SymInt
    to = type(o)
    if tk is SymInt:
        if to in (list, tuple):
            return table_get(o, k, IndexError("%s index out of range" % to.__name__))
        if to in (bytes, bytearray):
            return table_get(list(o), k, IndexError("index out of range"))
        if to is str:
            return o[core.cur().concretize(k)]
        return o[k]
    if tk is builtins.slice:
        if to in (list, tuple, str, bytes, bytearray) and any(
                isinstance(x, (SymInt, SymBool)) for x in (k.start, k.stop, k.step)):
            k = conc_slice(k, len(o))
    return o[k]


def setitem(o, k, v):
    if core.SCHED is not None:
        core.SCHED(o, None)
    to = type(o)
    e = core.E
    if to is list:
        if isinstance(k, SymBool):
            k = k.asint()
        if isinstance(k, SymInt):
            n = len(o)
            if n <= 400 and is_intlike(v) and all(is_intlike(x) for x in o):
                if k.lo < 0 and cmp_(k, 0, "<"):
                    k = arith(k, n, "+")
                if not and_all([cmp_(k, 0, ">="), cmp_(k, n, "<")]):
                    raise IndexError("list assignment index out of range")
                lo, hi = max(0, bounds(k)[0]), min(n - 1, bounds(k)[1])
                for j in range(lo, hi + 1):
                    if e.jstack:
                        e.j_write(o, "item", j)
                    o[j] = ite(cmp_(k, j, "=="), v, o[j])
                return
            k = core.cur().concretize(k)
        if isinstance(k, builtins.slice):
            k = conc_slice(k, len(o))
            if isinstance(v, (SymBytes, SymList)) or not isinstance(v, (list, tuple)):
                v = list(v)
            if e is not None and e.jstack:
                r = range(*k.indices(len(o)))
                if len(r) != len(v):
                    e.effect("resizing slice store")
                for j, x in zip(r, v):
                    e.j_write(o, "item", j)
                    o[j] = x
                return
            o[k] = v
            return
        if e is not None and e.jstack and type(k) is int and -len(o) <= k < len(o):
            e.j_write(o, "item", k if k >= 0 else k + len(o))
        o[k] = v
        return
    if to is SymBytes or to is SymList or to is SDict:
        o[k] = v
        return
    if e is not None and e.jstack and to in (dict, bytearray):
        e.effect("store")
    o[k] = v


def delitem(o, k):
    if core.SCHED is not None:
        core.SCHED(o, None)
    e = core.E
    if e is not None and e.jstack:
        e.effect("delete")
    if isinstance(k, builtins.slice) and type(o) is list:
        k = conc_slice(k, len(o))
    del o[k]


def setattr(o, n, v):
    if core.SCHED is not None:
        core.SCHED(o, n)
    e = core.E
    if e is not None:
        if e.jstack:
            if hasattr(type(o), n) and hasattr(getattr_static(type(o), n), "__set__"):
                e.effect("property store")
            e.j_write(o, "attr", n)
    builtins.setattr(o, n, v)


def getattr_static(t, n):
    for c in t.__mro__:
        if n in c.__dict__:
            return c.__dict__[n]
    return None


def delattr(o, n):
    if core.SCHED is not None:
        core.SCHED(o, n)
    e = core.E
    if e is not None and e.jstack:
        e.effect("delattr")
    builtins.delattr(o, n)


def getattr(o, n):
    if core.SCHED is not None:
        core.SCHED(o, n)
    return builtins.getattr(o, n)


GLOBALS = type("module", (object,), {})()


def gload(n):
    """before the load of a global or closure variable"""
    if core.SCHED is not None:
        core.SCHED(GLOBALS, n)


def second(a, b):
    return b


def gstore(n, v):
    gload(n)
    return v


def later(v):
    return lambda: v


IOPS = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv, "//": operator.ifloordiv,
        "**": operator.ipow, "<<": operator.ilshift, ">>": operator.irshift, "&": operator.iand,
        "|": operator.ior, "^": operator.ixor, "@": operator.imatmul}


def iop(op, x, v):
    if op == "%":
        return mod(x, v)
    e = core.E
    if e is not None and type(x) in (list, set, dict, bytearray) and e.jstack:
        e.effect("in-place operator on a container")
    if type(x) is bytearray and isinstance(v, SymBytes):
        x = SymBytes(list(x), True)
    return IOPS[op](x, v)


def augitem(o, k, op, v):
    x = getitem(o, k)
    setitem(o, k, iop(op, x, v()))


def augattr(o, n, op, v):
    x = getattr(o, n)
    setattr(o, n, iop(op, x, v()))


# ------------------------------------------------------------------------------------------------------------------
# operators

def contains(c, x):
    if core.SCHED is not None:
        core.SCHED(c, None)
    if isinstance(x, (SymInt, SymBool)) and type(c) in (list, tuple, set, frozenset, range, SDict, dict):
        if type(c) is SDict and c._slow is not None:
            return or_all([k == x for k in c.keys() if is_intlike(k)])
        if type(c) is range:
            if c.step == 1:
                return and_all([cmp_(x, c.start, ">="), cmp_(x, c.stop, "<")])
            return or_all([cmp_(x, y, "==") for y in c])
        return or_all([cmp_(x, y, "==") for y in c if is_intlike(y)])
    if type(c) in (list, tuple) and any(isinstance(y, (SymInt, SymBool)) for y in c) and is_intlike(x):
        return or_all([cmp_(x, y, "==") for y in c if is_intlike(y)])
    if isinstance(c, SymBytes):
        return c.contains(x)
    if isinstance(c, bytes) and isinstance(x, SYMS):
        return SymBytes(list(c)).contains(x)
    if isinstance(c, (SymText, str)) and isinstance(x, SymText) or isinstance(c, SymText):
        return text.contains(c, x)
    return x in c


def _boolop(thunks, is_and):
    acc = None   # accumulated SymBool of the operands so far (all symbolic)
    n = len(thunks)
    for i in range(n):
        if acc is None:
            v = thunks[i]()
        else:
            v = _speculate(thunks[i], acc if is_and else not_(acc))
            if v is MISSING:
                # fork on what we have
                if bool(acc) != is_and:
                    return acc if not is_and else False
                acc = None
                v = thunks[i]()
        if i == n - 1 and acc is None:
            return v
        if isinstance(v, SymInt):
            # value of the expression may be this integer: only safe to merge as a boolean when all are booleans
            b = bool(v)
            if b != is_and:
                return v if acc is None else _mix(acc, v, is_and)
            continue
        if isinstance(v, SymBool):
            acc = v if acc is None else (and_all([acc, v]) if is_and else or_all([acc, v]))
            if not isinstance(acc, SymBool):
                if acc != is_and:
                    return acc
                acc = None
                if i == n - 1:
                    return is_and
            continue
        if acc is None:
            if bool(v) != is_and:
                return v
            continue
        if isinstance(v, bool):
            if v != is_and:
                return v
            continue
        # a non-boolean operand after symbolic ones
        if bool(acc) != is_and:
            return acc if not is_and else False
        acc = None
        if i == n - 1 or bool(v) != is_and:
            return v
    return acc if acc is not None else is_and


def _mix(acc, v, is_and):
    if bool(acc) != is_and:
        return not is_and
    return v


def _speculate(thunk, assumption):
    """value of thunk() under the assumption, without forking or side effects; MISSING when that is not possible"""
    e = core.cur()
    m = Merge(e, assumption)
    try:
        v = thunk()
    except (Exception, MergeAbort, Unsupported):
        m.fail()
        return MISSING
    if m.j.old:
        m.fail()
        return MISSING
    m.fail()
    if isinstance(v, (SymBool, bool)):
        return v
    return MISSING


def and_(*thunks):
    return _boolop(thunks, True)


def or_(*thunks):
    return _boolop(thunks, False)


def ifexp(c, a, b):
    if isinstance(c, SymInt):
        c = cmp_(c, 0, "!=")
    if isinstance(c, SymBool):
        e = core.cur()
        if e.merge_enabled:
            m = Merge(e, c)
            try:
                x = a()
                m.mid((x,))
                y = b()
                return m.end((y,))[0]
            except (Exception, MergeAbort, Unsupported):
                m.fail()
        return a() if c else b()
    return a() if c else b()


def mod(a, b):
    if isinstance(a, str) or isinstance(a, SymText):
        return text.percent(a, b)
    if isinstance(a, (bytes, SymBytes)):
        return a % b
    if isinstance(a, (SymInt, SymBool)) or isinstance(b, (SymInt, SymBool)):
        return arith(a, b, "%")
    return a % b


def fstr(*parts):
    return text.fstr(parts)


# ------------------------------------------------------------------------------------------------------------------
# merging

class Merge(object):
    def __init__(self, e, cond):
        self.e = e
        self.cond = cond
        self.j = Journal()
        self.saved_model = (e.model, e.last_model)
        self.nobs = len(e.observations)
        e.jstack.append(self.j)
        e.solver.push()
        e.solver.add(bexpr(cond))
        self.depth = len(e.jstack)
        self.a = None
        self.a_vals = None
        self.done = False

    def mid(self, vals):
        e = self.e
        self.a_vals = vals
        self.a = {}
        for key, (obj, kind_, idx, old) in self.j.old.items():
            self.a[key] = (obj, kind_, idx, _cur_value(obj, kind_, idx))
        for key, (obj, kind_, idx, old) in reversed(list(self.j.old.items())):
            _set_value(obj, kind_, idx, old)
        self.ja = self.j
        self.j = Journal()
        e.jstack[-1] = self.j
        e.solver.pop()
        e.solver.push()
        e.solver.add(z3.Not(bexpr(self.cond)))

    def end(self, vals):
        e = self.e
        c = self.cond
        out = []
        for x, y in zip(self.a_vals, vals):
            if x is MISSING and y is MISSING:
                out.append(MISSING)
            elif x is MISSING or y is MISSING:
                raise MergeAbort("name bound on one side only")
            else:
                out.append(ite(c, x, y))
        keys = dict(self.ja.old)
        for k, v in self.j.old.items():
            keys.setdefault(k, v)
        new = {}
        for key, (obj, kind_, idx, old) in keys.items():
            b = _cur_value(obj, kind_, idx)
            a = self.a[key][3] if key in self.a else self.ja.old.get(key, (0, 0, 0, old))[3]
            if key not in self.a:
                # untouched on side A: its value there is the one before the branch
                a = self.j.old[key][3]
            if key in self.a and key not in self.j.old:
                b = self.ja.old[key][3]
            if a is b:
                new[key] = a
                continue
            if a is MISSING or b is MISSING:
                raise MergeAbort("attribute bound on one side only")
            if kind_ == "bytes":
                if len(a) != len(b):
                    raise MergeAbort("length differs")
                new[key] = [ite(c, x, y) for x, y in zip(a, b)]
            elif kind_ == "symlist":
                new[key] = core.merge_arr(c.e, a, b)
            else:
                new[key] = ite(c, a, b)
        # commit: the writes become writes of the enclosing region
        e.solver.pop()
        e.jstack.pop()
        self.done = True
        outer = e.jstack[-1] if e.jstack else None
        for key, (obj, kind_, idx, old) in keys.items():
            if outer is not None:
                outer.note(key, obj, kind_, idx, old)
            _set_value(obj, kind_, idx, new[key])
        e.model, e.last_model = self.saved_model
        e.stats["merges"] += 1
        return tuple(out)

    def fail(self):
        e = self.e
        if self.done:
            raise EngineError("merge failed after commit")
        while len(e.jstack) > self.depth:
            raise EngineError("unbalanced merge")
        for key, (obj, kind_, idx, old) in reversed(list(self.j.old.items())):
            _set_value(obj, kind_, idx, old)
        e.jstack.pop()
        e.solver.pop()
        e.model, e.last_model = self.saved_model
        del e.observations[self.nobs:]
        e.stats["merge_aborts"] += 1
        self.done = True


def merge_begin(c):
    if isinstance(c, SymInt):
        c = cmp_(c, 0, "!=")
    if not isinstance(c, SymBool):
        return None
    e = core.cur()
    if not e.merge_enabled:
        return None
    return Merge(e, c)


# ------------------------------------------------------------------------------------------------------------------
# iteration

class SymRange(object):
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __iter__(self):
        i = self.start
        while True:
            if not cmp_(i, self.stop, "<" if self.step > 0 else ">"):
                return
            yield i
            i = arith(i, self.step, "+") if isinstance(i, SymInt) else i + self.step

    def __len__(self):
        return core.cur().concretize(self.length())

    def length(self):
        if self.step > 0:
            d = arith(arith(self.stop, self.start, "-"), self.step - 1, "+")
            n = arith(d, self.step, "//")
        else:
            d = arith(arith(self.start, self.stop, "-"), -self.step - 1, "+")
            n = arith(d, -self.step, "//")
        return ite(cmp_(n, 0, ">"), n, 0) if isinstance(n, SymInt) else max(0, n)

    def __getitem__(self, k):
        if isinstance(k, builtins.slice):
            return list(self)[k]
        return arith(self.start, arith(k, self.step, "*"), "+")

    def __reversed__(self):
        return builtins.iter(list(self)[::-1])

    def __bool__(self):
        return bool(cmp_(self.length(), 0, ">"))


def iter(x):
    if core.SCHED is not None and isinstance(x, (list, dict, set)):
        return _stepwise(x)
    return x


def _stepwise(x):
    it = builtins.iter(x)
    while True:
        if core.SCHED is not None:
            core.SCHED(x, None)
        try:
            v = next(it)
        except StopIteration:
            return
        yield v


# ------------------------------------------------------------------------------------------------------------------
# calls

def _has_sym(a, depth=3):
    for x in a:
        if isinstance(x, SYMS):
            return True
        if depth and type(x) in (list, tuple) and _has_sym(x, depth - 1):
            return True
    return False


REP = {SymInt: 0, SymBool: False, SymBytes: b"", SymList: [], SymFloat: 0.0, core.SymReal: 0.0, SymText: "", SymRange: range(0),
       SDict: {}}


def rep(x):
    t = type(x)
    if t is core.SymReal and x.integer:
        return 0
    if t is SymBytes:
        return bytearray() if x.mut else b""
    return REP.get(t, x)


def h_isinstance(x, c):
    if type(c) is tuple:
        return any(h_isinstance(x, y) for y in c)
    if type(x) in REP:
        return isinstance(rep(x), c)
    return isinstance(x, c)


def h_type(*a):
    if len(a) == 1:
        x = a[0]
        return type(rep(x)) if type(x) in REP else type(x)
    return type(*a)


def h_int(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymBool):
            return x.asint()
        if isinstance(x, core.SymReal):
            if x.integer:
                return x
            raise Unsupported("int of a real")
        if isinstance(x, SymFloat):
            e = z3.fpToSBV(z3.RTZ(), x.e, z3.BitVecSort(80))
            return SymInt(e, -(1 << 79), (1 << 79) - 1)
        if isinstance(x, SymText):
            return text.to_int(x)
        if isinstance(x, SymBytes):
            return int(bytes(x))
    if a and isinstance(a[0], SymText):
        return text.to_int(*a)
    return int(*a, **k)


def h_bool(x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymInt):
        return cmp_(x, 0, "!=")
    return bool(x)


def h_float(x=0.0):
    if isinstance(x, (SymInt, SymBool)):
        return core.sfloat(x)
    if isinstance(x, SymFloat):
        return x
    return float(x)


def _byte_list(src):
    out = []
    for v in src:
        if not is_intlike(v):
            raise TypeError("'%s' object cannot be interpreted as an integer" % type(v).__name__)
        if not in_range(v, 0, 255):
            raise ValueError("bytes must be in range(0, 256)")
        out.append(narrow(norm(v), 0, 255))
    return out


def h_bytes(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if isinstance(x, SymBytes):
            return mkbytes(list(x.els), False)
        if isinstance(x, (SymInt, SymBool)):
            return bytes(core.cur().concretize(x))
        if isinstance(x, (list, tuple, SymList)) or (not isinstance(x, (bytes, bytearray, str, int, memoryview)) and
                                                     hasattr(x, "__iter__") and not hasattr(x, "__bytes__")):
            return mkbytes(_byte_list(x), False)
    if a and isinstance(a[0], SymText):
        return text.encode(a[0])
    return bytes(*a, **k)


def h_bytearray(*a, **k):
    if not a:
        return SymBytes([], True)
    x = h_bytes(*a, **k)
    return SymBytes(list(belems(x)), True)


def h_len(x):
    if isinstance(x, SymList):
        return x.length
    if isinstance(x, SymRange):
        return x.length()
    if isinstance(x, (SymText, text.Opaque, text.TextBytes)):
        return x.length()
    return len(x)


def h_range(*a):
    if any(isinstance(x, (SymInt, SymBool)) for x in a):
        a = [norm(x) for x in a]
        start, stop, step = 0, None, 1
        if len(a) == 1:
            stop = a[0]
        elif len(a) == 2:
            start, stop = a
        else:
            start, stop, step = a
        if isinstance(step, SymInt):
            step = core.cur().concretize(step)
        if step == 0:
            raise ValueError("range() arg 3 must not be zero")
        return SymRange(start, stop, step)
    return range(*a)


def _minmax(a, k, native, op):
    if not k and _has_sym(a, 1):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if xs and all(is_intlike(x) for x in xs):
            r = xs[0]
            for x in xs[1:]:
                c = cmp_(x, r, op)
                r = ite(c, norm(x), norm(r)) if isinstance(c, SymBool) else (x if c else r)
            return r
    if "key" in k and k["key"] is not None:
        k = dict(k)
        f = k["key"]
        k["key"] = lambda x: call(f, x)
    return native(*a, **k)


def h_min(*a, **k):
    return _minmax(a, k, min, "<")


def h_max(*a, **k):
    return _minmax(a, k, max, ">")


def h_any(x):
    if type(x) in (list, tuple):
        if all(isinstance(v, (bool, SymBool)) or is_intlike(v) for v in x):
            return or_all([h_bool(v) for v in x])
    return any(x)


def h_all(x):
    if type(x) in (list, tuple):
        if all(isinstance(v, (bool, SymBool)) or is_intlike(v) for v in x):
            return and_all([h_bool(v) for v in x])
    return all(x)


def h_sum(x, start=0):
    r = start
    for v in x:
        r = r + v
    return r


def h_sorted(x, *, key=None, reverse=False):
    return sorted(x, key=None if key is None else (lambda y: call(key, y)), reverse=reverse)


def h_map(f, *its):
    return map(lambda *a: call(f, *a), *its)


def h_filter(f, it):
    return filter(None if f is None else (lambda a: call(f, a)), it)


def h_str(*a, **k):
    if not a:
        return ""
    return text.to_str(*a, **k)


def h_repr(x):
    return text.to_repr(x)


def h_ord(x):
    if isinstance(x, SymBytes):
        if len(x.els) != 1:
            raise TypeError("ord() expected a character")
        return x.els[0]
    return ord(x)


def h_setattr(o, n, v):
    return setattr(o, text.plain(n), v)


def h_getattr(o, n, *d):
    return builtins.getattr(o, text.plain(n), *d)


def h_abs(x):
    return abs(x)


def h_dict(*a, **k):
    return SDict(*a, **k)


def h_memoryview(x):
    if isinstance(x, SymBytes):
        return SymBytes(list(x.els), False)
    return memoryview(x)


def h_from_bytes(b, byteorder="big", *, signed=False):
    if isinstance(b, (bytes, bytearray)):
        return int.from_bytes(b, byteorder, signed=signed)
    els = list(b.els) if isinstance(b, SymBytes) else _byte_list(b)
    if byteorder == "little":
        els.reverse()
    if not els:
        return 0
    return join_bytes(els, signed)


def h_round(x, n=None):
    if isinstance(x, (SymInt, SymBool)):
        return norm(x)
    return round(x) if n is None else round(x, n)


def h_print(*a, **k):
    e = core.E
    if e is not None:
        e.effect("print")


def h_fmt(x, *spec):
    if isinstance(x, SYMS):
        return text.to_str(x)
    return hex(x)


def h_list(*a):
    if a and isinstance(a[0], SymText):
        raise Unsupported("list of symbolic text")
    if a and isinstance(a[0], SymBytes):
        return list(a[0].els)
    return list(*a)


def h_tuple(*a):
    if a and isinstance(a[0], SymBytes):
        return tuple(a[0].els)
    if a and type(a[0]) not in (tuple, list):
        return tuple([x for x in a[0]])
    return tuple(*a)


def h_object_setattr(o, n, v):
    return setattr(o, n, v)


HANDLERS = {
    isinstance: h_isinstance, type: h_type, int: h_int, bool: h_bool, float: h_float, bytes: h_bytes,
    bytearray: h_bytearray, len: h_len, range: h_range, min: h_min, max: h_max, any: h_any, all: h_all, sum: h_sum,
    sorted: h_sorted, map: h_map, filter: h_filter, str: h_str, repr: h_repr, ord: h_ord,
    builtins.setattr: h_setattr, dict: h_dict, memoryview: h_memoryview, int.from_bytes: h_from_bytes,
    round: h_round, print: h_print, list: h_list, tuple: h_tuple,
}
for _f in (hex, bin, oct):
    HANDLERS[_f] = (lambda g: lambda x: text.to_str(x) if isinstance(x, SYMS) else g(x))(_f)
PURE = {len, abs, divmod, pow, id, hash, callable, issubclass, builtins.getattr, hasattr, chr, enumerate, zip,
        reversed, builtins.iter, next, set, frozenset, format, object, builtins.slice, complex, operator.index}
MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "add", "discard", "update",
            "popitem", "setdefault", "__setitem__", "__delitem__", "__iadd__", "difference_update",
            "intersection_update", "appendleft", "popleft", "put", "write"}
_BT = types.BuiltinFunctionType
_MW = types.MethodWrapperType
_MD = types.MethodDescriptorType
_WD = types.WrapperDescriptorType
_FT = types.FunctionType
_MT = types.MethodType


def _sched_call(f, a):
    t = type(f)
    if t is _FT:
        return
    s = builtins.getattr(f, "__self__", None)
    if isinstance(s, (list, dict, set, bytearray, SymList)) or type(s).__name__ == "deque":
        core.SCHED(s, None)
    elif t is not _MT:
        if f is builtins.getattr or f is builtins.setattr:
            if len(a) > 1 and type(a[1]) is str:
                core.SCHED(a[0], a[1])
            return
        for x in a:
            if isinstance(x, (list, dict, set, bytearray, SymList)) or type(x).__name__ == "deque":
                core.SCHED(x, None)


def call(f, *a, **k):
    if core.SCHED is not None:
        _sched_call(f, a)
    t = type(f)
    if t is _FT or t is _MT:
        return f(*a, **k)
    try:
        h = HANDLERS.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(*a, **k)
    if t is _BT or t is _MW:
        s = f.__self__
        if s is None or isinstance(s, types.ModuleType):
            return _native(f, a, k)
        return _method(f, s, f.__name__, a, k)
    if (t is _MD or t is _WD) and a:
        s = a[0]
        if isinstance(s, (SymBytes, SymInt, SymText, SymList, SymBool)):
            return call(builtins.getattr(s, f.__name__), *a[1:], **k)
        return call(builtins.getattr(s, f.__name__) if f.__objclass__ is type(s) else f.__get__(s), *a[1:], **k)
    if t is type:
        if issubclass(f, BaseException) or f.__flags__ & (1 << 9):   # exceptions, Python-level (heap) classes
            return f(*a, **k)
        return _native(f, a, k)
    return f(*a, **k)


def _native(f, a, k):
    e = core.E
    if e is not None and e.jstack and f not in PURE:
        e.effect("native call")
    if e is not None and f not in PURE and (_has_sym(a) or _has_sym(k.values())):
        g = FUNCTIONS.get(f)
        if g is not None:
            return g(*a, **k)
        try:
            return f(*a, **k)
        except TypeError as ex:
            a2, k2 = _under(a), {n: _under((v,))[0] for n, v in k.items()}
            e.note_incomplete("%s: argument fixed to one value" % builtins.getattr(f, "__name__", f))
            del ex
            return f(*a2, **k2)
    return f(*a, **k)


def _under(a):
    """under-approximation: symbolic leaves fixed to one feasible value"""
    out = []
    for x in a:
        if isinstance(x, SYMS):
            out.append(core.cur().pick(x))
        elif type(x) in (list, tuple):
            out.append(type(x)(_under(x)))
        else:
            out.append(x)
    return tuple(out)


def _reduce(f, xs, *init):
    it = builtins.iter(xs)
    if init:
        r = init[0]
    else:
        r = next(it)
    for x in it:
        r = call(f, r, x)
    return r


import functools
import itertools
FUNCTIONS = {}
HANDLERS[functools.reduce] = _reduce
for _n in ("add", "sub", "mul", "floordiv", "and_", "or_", "xor", "lshift", "rshift", "eq", "ne", "lt", "le", "gt",
           "ge", "neg", "inv", "invert", "not_", "truth", "index"):
    PURE.add(builtins.getattr(operator, _n))
HANDLERS[operator.getitem] = getitem
HANDLERS[operator.setitem] = setitem
HANDLERS[operator.mod] = mod
HANDLERS[operator.contains] = contains
HANDLERS[operator.not_] = not_
HANDLERS[operator.truth] = h_bool


def _starmap(f, it):
    return itertools.starmap(lambda *a: call(f, *a), it)


HANDLERS[itertools.starmap] = _starmap


def _enumerate(iterable, start=0):
    if not isinstance(start, SymInt):
        return enumerate(iterable, start)
    return ((start + i, x) for i, x in enumerate(iterable))


HANDLERS[enumerate] = _enumerate


def _method(f, s, name, a, k):
    """bound method of a native object"""
    ts = type(s)
    e = core.E
    if e is not None and e.jstack and name in MUTATORS and not isinstance(s, SDict):
        if ts is list and name == "__setitem__":
            return setitem(s, *a)
        e.effect("method " + name)
    if name == "__getitem__":
        return getitem(s, *a)
    if name == "__setitem__":
        return setitem(s, *a)
    if name == "__contains__":
        return contains(s, *a)
    if ts is str or s is str:
        return text.str_method(s, name, a, k, f)
    if name == "join" and ts is bytes and len(a) == 1 and type(a[0]) in (list, tuple) and any(
            type(x) is text.TextBytes for x in a[0]):
        return text.join_bytes(s, a[0])
    if ts in (bytes, bytearray) and (_has_sym(a) or name == "join"):
        return builtins.getattr(SymBytes(list(s), ts is bytearray), name)(*a, **k)
    if s is bytes or s is bytearray:
        if name == "join" or _has_sym(a):
            return builtins.getattr(SymBytes, name)(*a, **k)
    if ts is int and _has_sym(a) and name.startswith("__"):
        r = f(*a, **k)
        if r is NotImplemented:
            n2 = "__r" + name[2:]
            return builtins.getattr(a[0], n2)(s)
        return r
    if ts is list and a and name in ("index", "insert", "pop", "remove", "count"):
        if isinstance(a[0], SymInt) and name in ("insert", "pop"):
            a = (core.cur().concretize(a[0]),) + a[1:]
    if ts is list and name == "sort" and "key" in k and k["key"] is not None:
        g = k["key"]
        k = dict(k, key=lambda x: call(g, x))
    if ts is list and name == "extend" and a and isinstance(a[0], SymBytes):
        a = (list(a[0].els),)
    if e is not None and _has_sym(a):
        try:
            return f(*a, **k)
        except TypeError:
            if ts in (list, tuple, dict, set, SDict):
                raise
            e.note_incomplete("%s.%s: argument fixed to one value" % (ts.__name__, name))
            return f(*_under(a), **k)
    return f(*a, **k)
