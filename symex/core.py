"""Symbolic values and the path explorer.

The code under test runs natively in CPython from an instrumented AST (see instrument.py); symbolic inputs are the
proxy objects below.  An integer is an exact two's-complement bit-vector whose width grows with its interval bounds, so
Python's unbounded integer semantics is kept without wrap-around.  A branch on a symbolic condition forks: the path
explorer re-executes the harness once per feasible decision sequence, feasibility and all assertions being decided by
z3.
"""
import math
import signal
import time
import z3
import fractions

_ctx = z3.main_ctx()


class EngineSignal(BaseException):
    """Control flow of the engine; never visible to the code under test."""


class PathAbort(EngineSignal):
    """The current path is infeasible or assumed away."""


class PathDone(EngineSignal):
    """The current path was ended deliberately (after a violation)."""


class Unsupported(EngineSignal):
    """A symbolic value reached an operation that is not modelled."""


class MergeAbort(EngineSignal):
    """The two sides of a branch cannot be merged; fork instead."""


class OutOfBudget(EngineSignal):
    """Time or path budget of the job is used up."""


class PathTimeout(EngineSignal):
    pass


def alarm(seconds):
    if not ALARMS:
        return
    signal.setitimer(signal.ITIMER_REAL, max(0.01, seconds) if seconds else 0)


ALARMS = []


def install_alarm():
    def on(sig, frame):
        raise PathTimeout()
    signal.signal(signal.SIGALRM, on)
    ALARMS.append(1)


class EngineError(EngineSignal):
    """Internal inconsistency of the engine."""


SCHED = None  # hook called before accesses to possibly shared objects (sched.py)
E = None  # the active Explorer (set while a symbolic path runs)


def effect(what):
    """a side effect of native code that a merge cannot undo is about to happen"""
    if E is not None:
        E.effect(what)


def cur():
    if E is None:
        raise RuntimeError("symbolic value used outside of a symbolic run")
    return E


# ------------------------------------------------------------------------------------------------------------------
# integers

def width_for(lo, hi):
    """bits of the smallest signed two's complement that holds [lo, hi]"""
    a = hi.bit_length() if hi >= 0 else (-hi - 1).bit_length()
    b = lo.bit_length() if lo >= 0 else (-lo - 1).bit_length()
    return max(a, b) + 1


MAXW = 600


class SymInt(object):
    """an int: z3 bit-vector of width_for(lo, hi), signed; optionally GF(2)-linear bit masks over the input bits"""
    __slots__ = ("_e", "_thunk", "lo", "hi", "lin", "lf")

    def __init__(self, e, lo, hi, lin=None, thunk=None, lf=None):
        self.lf = lf          # linear form over atoms: (((atom number, coefficient), ...), constant)
        self._e = e
        self._thunk = thunk
        self.lo = lo
        self.hi = hi
        self.lin = lin

    @property
    def w(self):
        return width_for(self.lo, self.hi)

    @property
    def e(self):
        if self._e is None:
            if self._thunk is not None:
                self._e = self._thunk()
                self._thunk = None
            else:
                self._e = cur().lin_expr(self.lin, self.w)
        return self._e

    # -- conversions that C code may ask for
    def __bool__(self):
        return bool(cmp_(self, 0, "!="))

    def __index__(self):
        return cur().concretize(self)

    def __int__(self):
        return cur().concretize(self)

    def __float__(self):
        raise Unsupported("float(symbolic int)")

    def __hash__(self):
        return hash(cur().concretize(self))

    def __str__(self):
        return "<int>"

    __repr__ = __str__

    def __format__(self, spec):
        return "<int>"

    # -- arithmetic
    def __add__(self, o):
        return arith(self, o, "+")

    __radd__ = lambda self, o: arith(o, self, "+")

    def __sub__(self, o):
        return arith(self, o, "-")

    __rsub__ = lambda self, o: arith(o, self, "-")

    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple, bytearray, SymBytes)):
            return repeat(o, self)
        return arith(self, o, "*")

    def __rmul__(self, o):
        if isinstance(o, (str, bytes, list, tuple, bytearray, SymBytes)):
            return repeat(o, self)
        return arith(o, self, "*")

    def __floordiv__(self, o):
        return arith(self, o, "//")

    __rfloordiv__ = lambda self, o: arith(o, self, "//")

    def __mod__(self, o):
        return arith(self, o, "%")

    __rmod__ = lambda self, o: arith(o, self, "%")

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return (o // self, o % self)

    def __truediv__(self, o):
        return sfloat(self) / o

    def __rtruediv__(self, o):
        return sfloat_any(o) / sfloat(self)

    def __pow__(self, o, m=None):
        if m is None and isinstance(o, int) and 0 <= o <= 8:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        return pow(cur().concretize(self), o, m)

    def __rpow__(self, o, m=None):
        if m is None and o == 2 and not isinstance(o, SymInt):
            return arith(1, self, "<<")
        return pow(o, cur().concretize(self), m)

    def __lshift__(self, o):
        return arith(self, o, "<<")

    __rlshift__ = lambda self, o: arith(o, self, "<<")

    def __rshift__(self, o):
        return arith(self, o, ">>")

    __rrshift__ = lambda self, o: arith(o, self, ">>")

    def __and__(self, o):
        return arith(self, o, "&")

    __rand__ = lambda self, o: arith(o, self, "&")

    def __or__(self, o):
        return arith(self, o, "|")

    __ror__ = lambda self, o: arith(o, self, "|")

    def __xor__(self, o):
        return arith(self, o, "^")

    __rxor__ = lambda self, o: arith(o, self, "^")

    def __neg__(self):
        return arith(0, self, "-")

    def __pos__(self):
        return self

    def __abs__(self):
        return ite(cmp_(self, 0, ">="), self, arith(0, self, "-"))

    def __invert__(self):
        return arith(arith(0, self, "-"), 1, "-")

    # -- comparison
    def __eq__(self, o):
        return cmp_(self, o, "==")

    def __ne__(self, o):
        return cmp_(self, o, "!=")

    def __lt__(self, o):
        return cmp_(self, o, "<")

    def __le__(self, o):
        return cmp_(self, o, "<=")

    def __gt__(self, o):
        return cmp_(self, o, ">")

    def __ge__(self, o):
        return cmp_(self, o, ">=")

    # -- int API
    def bit_length(self):
        return cur().concretize(self).bit_length()

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        lo, hi = (-(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1) if signed else (0, (1 << (8 * length)) - 1)
        if not in_range(self, lo, hi):
            raise OverflowError("int too big to convert")
        bs = split_bytes(self, length)
        if byteorder == "little":
            bs.reverse()
        return SymBytes(bs)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    def conjugate(self):
        return self


class SymBool(object):
    """a bool"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return cur().decide(self.e)

    def __index__(self):
        return 1 if cur().decide(self.e) else 0

    __int__ = __index__

    def __hash__(self):
        return hash(bool(self))

    def __str__(self):
        return "<bool>"

    __repr__ = __str__

    def __format__(self, spec):
        return "<bool>"

    def asint(self):
        return SymInt(z3.If(self.e, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkbool(self.e == o.e)
        if isinstance(o, bool):
            return self if o else mkbool(z3.Not(self.e))
        return cmp_(self.asint(), o, "==")

    def __ne__(self, o):
        return not_(self == o)

    def __and__(self, o):
        if isinstance(o, SymBool):
            return mkbool(z3.And(self.e, o.e))
        if isinstance(o, bool):
            return self if o else False
        return self.asint() & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymBool):
            return mkbool(z3.Or(self.e, o.e))
        if isinstance(o, bool):
            return True if o else self
        return self.asint() | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, SymBool):
            return mkbool(z3.Xor(self.e, o.e))
        if isinstance(o, bool):
            return not_(self) if o else self
        return self.asint() ^ o

    __rxor__ = __xor__

    def __invert__(self):
        return ~self.asint()

    def __neg__(self):
        return -self.asint()

    def __abs__(self):
        return self.asint()


for _n in ("add", "sub", "mul", "floordiv", "mod", "lshift", "rshift", "truediv"):
    def _mk(n):
        f = getattr(SymInt, "__%s__" % n)
        setattr(SymBool, "__%s__" % n, lambda self, o: f(self.asint(), o))
        r = getattr(SymInt, "__r%s__" % n)
        setattr(SymBool, "__r%s__" % n, lambda self, o: r(self.asint(), o))
    _mk(_n)
for _n in ("lt", "le", "gt", "ge"):
    def _mk2(n):
        f = getattr(SymInt, "__%s__" % n)
        setattr(SymBool, "__%s__" % n, lambda self, o: f(self.asint(), o))
    _mk2(_n)


def mkbool(e):
    """SymBool or bool"""
    if e is True or e is False:
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def bexpr(b):
    """z3 Bool of bool / SymBool"""
    if isinstance(b, SymBool):
        return b.e
    if isinstance(b, SymInt):
        b = cmp_(b, 0, "!=")
        return bexpr(b)
    return z3.BoolVal(bool(b))


def is_sym(x):
    return isinstance(x, (SymInt, SymBool))


def is_intlike(x):
    return isinstance(x, (int, SymInt, SymBool))


def sint(e, lo, hi):
    """SymInt, or int when the interval is a single value"""
    if lo == hi:
        return lo
    return SymInt(e, lo, hi)


def ext(x, w):
    """z3 expression of x (int or SymInt) at width w (signed)"""
    if isinstance(x, SymInt):
        e = x.e
        xw = e.size()
        if xw == w:
            return e
        if xw < w:
            return z3.SignExt(w - xw, e) if x.lo < 0 else z3.ZeroExt(w - xw, e)
        return z3.Extract(w - 1, 0, e)
    return z3.BitVecVal(x, w)


def norm(x):
    if isinstance(x, SymBool):
        return x.asint()
    if isinstance(x, bool):
        return int(x)
    return x


def bounds(x):
    if isinstance(x, SymInt):
        return x.lo, x.hi
    return x, x


def linof(x):
    """lin masks of an int-like value, or None; constants are linear"""
    if isinstance(x, SymInt):
        return x.lin
    if x >= 0:
        return const_lin(x)
    return None


def const_lin(x):
    r = []
    while x:
        r.append(x & 1)
        x >>= 1
    return tuple(r)


def lin_hi(l):
    return (1 << len(l)) - 1


def lin_trim(l):
    n = len(l)
    while n and l[n - 1] == 0:
        n -= 1
    return tuple(l[:n])


def lin_int(l, thunk=None, lo=0, hi=None):
    """SymInt (or int) from linear masks"""
    l = lin_trim(l)
    if all(m <= 1 for m in l):
        return sum(m << i for i, m in enumerate(l))
    h = lin_hi(l)
    # bits known to be constant sharpen nothing but the top; keep the simple bound
    if hi is not None and hi < h and hi.bit_length() == h.bit_length():
        h = hi
    if thunk is None:
        return SymInt(None, lo, h, lin=l)
    return SymInt(None, lo, h, lin=l, thunk=thunk)


def arith(a, b, op):
    a, b = norm(a), norm(b)
    if isinstance(a, (SymFloat, float)) or isinstance(b, (SymFloat, float)):
        fa, fb = sfloat_any(a), sfloat_any(b)
        return {"+": fa.__add__, "-": fa.__sub__, "*": fa.__mul__}[op](fb)
    if not is_intlike(a) or not is_intlike(b):
        return NotImplemented
    sa, sb = isinstance(a, SymInt), isinstance(b, SymInt)
    if not sa and not sb:
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "//": lambda: a // b,
                "%": lambda: a % b, "<<": lambda: a << b, ">>": lambda: a >> b, "&": lambda: a & b,
                "|": lambda: a | b, "^": lambda: a ^ b}[op]()
    (al, ah), (bl, bh) = bounds(a), bounds(b)
    if op == "+":
        if not sb and b == 0:
            return a
        if not sa and a == 0:
            return b
        la, lb = linof(a), linof(b)
        if la is not None and lb is not None and not any(x and y for x, y in zip(la, lb)):
            n = max(len(la), len(lb))
            l = [(la[i] if i < len(la) else 0) | (lb[i] if i < len(lb) else 0) for i in range(n)]
            w = n + 1
            return lin_int(l, thunk=_thunk2(a, b, w, lambda x, y: x + y, heavy(a, b)))
        lo, hi = al + bl, ah + bh
        lf = lf_add(lf_of(a), lf_of(b), 1)
        if lf is not None:
            r = lf_value(lf, lo, hi)
            if r is not None:
                return r
        w = chk(width_for(lo, hi))
        return sint(ext(a, w) + ext(b, w), lo, hi)
    if op == "-":
        if not sb and b == 0:
            return a
        if sa and sb and a.lo == b.lo and a.hi == b.hi and a._e is not None and b._e is not None and a._e.eq(b._e):
            return 0
        lo, hi = al - bh, ah - bl
        lf = lf_add(lf_of(a), lf_of(b), -1)
        if lf is not None:
            r = lf_value(lf, lo, hi)
            if r is not None:
                return r
        w = chk(width_for(lo, hi))
        w2 = max(w, width_for(al, ah), width_for(bl, bh))
        e = ext(a, w2) - ext(b, w2)
        return sint(e if w2 == w else z3.Extract(w - 1, 0, e), lo, hi)
    if op == "*":
        if not sa:
            a, b, sa, sb, al, ah, bl, bh = b, a, sb, sa, bl, bh, al, ah
        if not sb:
            if b == 0:
                return 0
            if b == 1:
                return a
            if b > 0 and b & (b - 1) == 0:
                return arith(a, b.bit_length() - 1, "<<")
        ps = (al * bl, al * bh, ah * bl, ah * bh)
        lo, hi = min(ps), max(ps)
        if not sb and abs(b) < 1 << 20:
            lf = lf_add(((), 0), lf_of(a), b)
            if lf is not None:
                r = lf_value(lf, lo, hi)
                if r is not None:
                    return r
        w = chk(max(width_for(lo, hi), width_for(al, ah), width_for(bl, bh)))
        w0 = width_for(lo, hi)
        e = ext(a, w) * ext(b, w)
        return sint(e if w == w0 else z3.Extract(w0 - 1, 0, e), lo, hi)
    if op in ("//", "%"):
        return divmod_(a, b, op)
    if op == "<<":
        if bl < 0:
            if not (cmp_(b, 0, ">=")):
                raise ValueError("negative shift count")
            bl = 0
        if not sb:
            if a.lin is not None and b + len(a.lin) <= 512:
                l = (0,) * b + a.lin
                w = len(l) + 1
                return lin_int(l, thunk=None if heavy(a) else (lambda: ext(a, w) << b))
            lo, hi = al << b, ah << b
            w = chk(width_for(lo, hi))
            return SymInt(ext(a, w) << b, lo, hi, lf=lf_add(((), 0), lf_of(a), 1 << b) if b < 20 else None)
        if bh > 128:
            b = cur().concretize(b)
            return arith(a, b, op)
        lo = min(al << bl, al << bh)
        hi = max(ah << bl, ah << bh)
        w = chk(max(width_for(lo, hi), width_for(bl, bh)))
        w0 = width_for(lo, hi)
        e = ext(a, w) << ext(b, w)
        return sint(e if w == w0 else z3.Extract(w0 - 1, 0, e), lo, hi)
    if op == ">>":
        if bl < 0:
            if not (cmp_(b, 0, ">=")):
                raise ValueError("negative shift count")
            bl = 0
        if not sb:
            if b == 0:
                return a
            if a.lin is not None:
                l = a.lin[b:]
                if not l:
                    return 0
                w = len(l) + 1
                return lin_int(l, thunk=None if heavy(a) else (lambda: _shr(a, b, w)), hi=ah >> b)
            lo, hi = al >> b, ah >> b
            w = width_for(lo, hi)
            return sint(_shr(a, b, w), lo, hi)
        ps = (al >> bl, al >> bh, ah >> bl, ah >> bh)
        lo, hi = min(ps), max(ps)
        w = max(width_for(al, ah), width_for(bl, bh))
        e = ext(a, w) >> ext(b, w)
        return sint(z3.Extract(width_for(lo, hi) - 1, 0, e), lo, hi)
    # bitwise
    if op == "&" and (a is b):
        return a
    la, lb = linof(a), linof(b)
    if op == "^" and (la is None) != (lb is None):
        # the bits of a value without masks become atoms of their own
        if la is None and sa and al >= 0 and ah < 1 << 32:
            a = cur().linearize(a)
            la = a.lin
        elif lb is None and sb and bl >= 0 and bh < 1 << 32:
            b = cur().linearize(b)
            lb = b.lin
    if op == "^" and la is not None and lb is not None:
        n = max(len(la), len(lb))
        l = [(la[i] if i < len(la) else 0) ^ (lb[i] if i < len(lb) else 0) for i in range(n)]
        return lin_int(l, thunk=_thunk2(a, b, n + 1, lambda x, y: x ^ y, heavy(a, b)))
    if op == "&":
        c, v = (a, b) if not sa else (b, a)
        if not isinstance(c, SymInt) and isinstance(v, SymInt):
            if c == 0:
                return 0
            if c > 0 and v.lin is not None:
                l = [m if (c >> i) & 1 else 0 for i, m in enumerate(v.lin)]
                n = len(l)
                r = lin_int(l)
                if isinstance(r, SymInt) and not heavy(v):
                    ww = width_for(0, r.hi)
                    r._thunk = lambda: ext(v, ww) & z3.BitVecVal(c, ww)
                return r
            if v.lo >= 0 and c >= 0 and c & (c + 1) == 0 and v.hi <= c:
                return v
    if op == "|" and la is not None and lb is not None and not any(
            x and y for x, y in zip(la, lb)):
        return arith(a, b, "+")
    if op == "&":
        if al >= 0 and bl >= 0:
            lo, hi = 0, min(ah, bh)
        elif al >= 0:
            lo, hi = 0, ah
        elif bl >= 0:
            lo, hi = 0, bh
        else:
            ww = max(width_for(al, ah), width_for(bl, bh))
            lo, hi = -(1 << (ww - 1)), (1 << (ww - 1)) - 1
        f = lambda x, y: x & y
    else:
        ww = max(width_for(al, ah), width_for(bl, bh))
        if al >= 0 and bl >= 0:
            lo, hi = 0, (1 << (ww - 1)) - 1
        else:
            lo, hi = -(1 << (ww - 1)), (1 << (ww - 1)) - 1
        f = (lambda x, y: x | y) if op == "|" else (lambda x, y: x ^ y)
    w = max(width_for(al, ah), width_for(bl, bh), width_for(lo, hi))
    w0 = width_for(lo, hi)
    e = f(ext(a, w), ext(b, w))
    return sint(e if w == w0 else z3.Extract(w0 - 1, 0, e), lo, hi)


# linear forms: integer-linear combinations of atoms, kept canonical so that equal comparisons become equal z3 terms

LF_TERMS = 4


def lf_of(x):
    """linear form of an int-like value; an opaque value is its own atom"""
    if not isinstance(x, SymInt):
        return ((), x)
    if x.lf is None:
        ex = cur()
        if x.lin is not None:
            key = (x.lin, x.lo, x.hi)
        else:
            key = (x.e.get_id(), x.lo, x.hi)
        n = ex.lf_index.get(key)
        if n is None:
            n = len(ex.lf_atoms)
            ex.lf_index[key] = n
            ex.lf_atoms.append(x)
            x.e if not heavy(x) else None
        x.lf = (((n, 1),), 0)
    return x.lf


def lf_add(a, b, k):
    """a + k*b, or None when it has too many terms"""
    d = dict(a[0])
    for n, c in b[0]:
        v = d.get(n, 0) + k * c
        if v:
            d[n] = v
        else:
            d.pop(n, None)
    if len(d) > LF_TERMS:
        return None
    return (tuple(sorted(d.items())), a[1] + k * b[1])


def lf_bounds(lf):
    lo = hi = lf[1]
    for n, c in lf[0]:
        x = cur().lf_atoms[n]
        if c > 0:
            lo, hi = lo + c * x.lo, hi + c * x.hi
        else:
            lo, hi = lo + c * x.hi, hi + c * x.lo
    return lo, hi


def lf_heavy(lf):
    return any(heavy(cur().lf_atoms[n]) for n, _ in lf[0])


def lf_expr(lf, w):
    """canonical expression at width w"""
    ex = cur()
    key = (lf, w)
    e = ex.lf_exprs.get(key)
    if e is None:
        for n, c in lf[0]:
            x = ext(ex.lf_atoms[n], w)
            t = x if c in (1, -1) else x * z3.BitVecVal(abs(c), w)
            if e is None:
                e = t if c > 0 else -t
            else:
                e = e + t if c > 0 else e - t
        if e is None:
            e = z3.BitVecVal(lf[1], w)
        elif lf[1]:
            e = e + z3.BitVecVal(lf[1], w)
        ex.lf_exprs[key] = e
    return e


def lf_value(lf, lo, hi):
    """the value of a linear form known to be within [lo, hi]; None when there is no direct expression"""
    l2, h2 = lf_bounds(lf)
    lo, hi = max(lo, l2), min(hi, h2)
    if not lf[0]:
        return lf[1]
    if lo >= hi:
        return lo
    if len(lf[0]) == 1 and lf[0][0][1] == 1 and lf[1] == 0:
        x = cur().lf_atoms[lf[0][0][0]]
        if (x.lo, x.hi) == (lo, hi):
            return x
        return narrow(x, lo, hi)
    if lf_heavy(lf):
        return None
    w = chk(width_for(lo, hi))
    return SymInt(None, lo, hi, thunk=lambda: lf_expr(lf, w), lf=lf)


def lf_cmp(lf, op):
    """truth of lf op 0 for op in == < <=; a bool, a SymBool or None"""
    terms, c = lf
    if not terms:
        return {"==": c == 0, "<": c < 0, "<=": c <= 0}[op]
    lo, hi = lf_bounds(lf)
    if op == "==":
        if lo > 0 or hi < 0:
            return False
    elif op == "<":
        op, c, lo, hi = "<=", c + 1, lo + 1, hi + 1
    if op == "<=":
        if hi <= 0:
            return True
        if lo > 0:
            return False
    if lf_heavy(lf):
        return None
    g = 0
    for n, k in terms:
        g = math.gcd(g, k)
    neg = terms[0][1] < 0
    if op == "==":
        if c % g:
            return False
        terms = tuple((n, (-k if neg else k) // g) for n, k in terms)
        c = (c if neg else -c) // g
        return mkbool(lf_atom(terms, c, "=="))
    # terms <= -c, divided by g
    if not neg:
        terms, k, pos = tuple((n, k // g) for n, k in terms), (-c) // g, True
    else:
        # -terms >= c  <=>  not (-terms <= c - 1)
        terms, k, pos = tuple((n, -k // g) for n, k in terms), -((-c) // g) - 1, False
    known = cur().lf_facts.get(terms)
    if known is not None:
        if known[1] is not None and known[1] <= k:
            return pos
        if known[0] is not None and known[0] > k:
            return not pos
    e = lf_atom(terms, k, "<=")
    return mkbool(e if pos else z3.Not(e))


def lf_atom(terms, k, op):
    """z3 Bool of sum(terms) op k"""
    ex = cur()
    key = (terms, k, op)
    e = ex.lf_cmps.get(key)
    if e is not None:
        return e
    left = (tuple(t for t in terms if t[1] > 0), max(0, -k))
    right = (tuple((n, -c) for n, c in terms if c < 0), max(0, k))
    (al, ah), (bl, bh) = lf_bounds(left), lf_bounds(right)
    w = max(width_for(al, ah), width_for(bl, bh))
    x, y = lf_expr(left, w), lf_expr(right, w)
    if op == "==":
        e = x == y
    elif al >= 0 and bl >= 0:
        e = z3.ULE(x, y)
    else:
        e = x <= y
    ex.lf_cmps[key] = e
    if op == "<=":
        ex.lf_atom_ids[e.get_id()] = (terms, k)
        s = z3.simplify(e)
        ex.lf_keep.append(s)
        ex.lf_atom_ids[s.get_id()] = (terms, k)
    return e


def lf_learn(e, truth):
    """e holds (or does not hold) on this path: later comparisons of the same sum may be settled without the solver"""
    ex = cur()
    if ex.jstack:
        return
    while z3.is_not(e):
        e = e.arg(0)
        truth = not truth
    d = ex.lin_eqs.get(e.get_id())
    if d is not None:
        d = [x for x in d[1] if x]
        if truth:
            for x in d:
                ex.lin_learn(x)
        elif len(d) == 1:
            ex.lin_learn(d[0] ^ 1)
        else:
            ex.lin_false.add(tuple(gauss(d)))
    a = ex.lf_atom_ids.get(e.get_id())
    if a is not None:
        terms, k = a
        lo, hi = ex.lf_facts.get(terms, (None, None))
        if truth:
            hi = k if hi is None else min(hi, k)
        else:
            lo = k + 1 if lo is None else max(lo, k + 1)
        ex.lf_facts[terms] = (lo, hi)
    elif (z3.is_and(e) and truth) or (z3.is_or(e) and not truth):
        if e.num_args() <= 30:
            for c in e.children():
                lf_learn(c, truth)


def same_root(a, b):
    """difference a - b when it is a constant, else None"""
    if not isinstance(a, SymInt) or not isinstance(b, SymInt):
        return None
    d = lf_add(lf_of(a), lf_of(b), -1)
    return d[1] if d is not None and not d[0] else None


def heavy(*xs):
    """true if a value has no direct bit-vector expression (only the linear form)"""
    return any(isinstance(x, SymInt) and x._e is None and x._thunk is None for x in xs)


def _thunk2(a, b, w, f, hv):
    if hv:
        return None
    return lambda: f(ext(a, w), ext(b, w))


def _shr(a, b, w):
    e = a.e
    top = min(e.size() - 1, b + w - 1)
    if b > top:
        return z3.BitVecVal(0, w) if a.lo >= 0 else z3.Extract(w - 1, 0, z3.SignExt(w, e) >> b)
    r = z3.Extract(top, b, e)
    if r.size() < w:
        r = z3.SignExt(w - r.size(), r) if a.lo < 0 else z3.ZeroExt(w - r.size(), r)
    return r


def chk(w):
    if w > MAXW:
        raise Unsupported("integer wider than %d bits" % MAXW)
    return w


def divmod_(a, b, op):
    (al, ah), (bl, bh) = bounds(a), bounds(b)
    if bl <= 0 <= bh:
        if bl == bh == 0 or cmp_(b, 0, "=="):
            raise ZeroDivisionError("integer division or modulo by zero")
        if bl == 0:
            bl = 1
        elif bh == 0:
            bh = -1
    sb = isinstance(b, SymInt)
    if not sb and b > 0 and b & (b - 1) == 0:
        k = b.bit_length() - 1
        return arith(a, k, ">>") if op == "//" else arith(a, b - 1, "&")
    if bl <= 0 <= bh or bl < 0:
        # sign of the divisor unknown or negative: a // b == (-a) // (-b), a % b == -((-a) % (-b))
        if sb and bh > 0:
            if cmp_(b, 0, ">"):
                b = SymInt(ext(b, width_for(1, bh)), 1, bh)
                return divmod_(a, b, op)
            b = SymInt(ext(b, width_for(bl, -1)), bl, -1)
        nb = arith(0, b, "-")
        na = arith(0, a, "-")
        r = divmod_(na, nb, op) if isinstance(na, SymInt) or isinstance(nb, SymInt) else (
            na // nb if op == "//" else na % nb)
        return r if op == "//" else arith(0, r, "-")
    w = chk(max(width_for(al, ah), width_for(bl, bh)) + 1)
    ea, eb = ext(a, w), ext(b, w)
    if al >= 0:
        q, r = z3.UDiv(ea, eb), z3.URem(ea, eb)
    else:
        q0, r0 = ea / eb, z3.SRem(ea, eb)
        neg = r0 < 0
        q = z3.If(neg, q0 - 1, q0)
        r = z3.If(neg, r0 + eb, r0)
    if op == "//":
        lo = min(al // bl, al // bh)
        hi = max(ah // bl, ah // bh)
        return sint(z3.Extract(width_for(lo, hi) - 1, 0, q), lo, hi)
    lo, hi = 0, bh - 1
    if al >= 0:
        hi = min(hi, ah)
    return sint(z3.Extract(width_for(lo, hi) - 1, 0, r), lo, hi)


def cmp_(a, b, op):
    a, b = norm(a), norm(b)
    if isinstance(a, (SymFloat, float)) or isinstance(b, (SymFloat, float)):
        if isinstance(a, (SymFloat, float, int, SymInt)) and isinstance(b, (SymFloat, float, int, SymInt)):
            return sfloat_cmp(a, b, op)
    if not is_intlike(a) or not is_intlike(b):
        if op == "==":
            return False
        if op == "!=":
            return True
        return NotImplemented
    if not isinstance(a, SymInt) and not isinstance(b, SymInt):
        return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
    if op == ">":
        return cmp_(b, a, "<")
    if op == ">=":
        return cmp_(b, a, "<=")
    if op == "!=":
        return not_(cmp_(a, b, "=="))
    (al, ah), (bl, bh) = bounds(a), bounds(b)
    if op == "==":
        if ah < bl or bh < al:
            return False
        if a is b:
            return True
        la, lb = linof(a), linof(b)
        if la is not None and lb is not None:
            n = max(len(la), len(lb))
            d = [(la[i] if i < len(la) else 0) ^ (lb[i] if i < len(lb) else 0) for i in range(n)]
            ex = cur()
            if ex.lin_basis:
                d = [ex.lin_reduce(x) for x in d]
            if not any(d):
                return True
            if any(x == 1 for x in d):
                return False
            if heavy(a, b) or any(bin(x).count("1") > 3 for x in d):
                d = gauss(d)
                if 1 in d or tuple(d) in ex.lin_false:
                    return False
                e = ex.lin_zero(d)
                ex.lin_eqs[e.get_id()] = (e, d)
                return SymBool(e)
            w = max(width_for(al, ah), width_for(bl, bh))
            r = lf_add(lf_of(a), lf_of(b), -1)
            r = lf_cmp(r, op) if r is not None else None
            if r is None:
                r = mkbool(ext(a, w) == ext(b, w))
            if isinstance(r, SymBool):
                ex.lin_eqs[r.e.get_id()] = (r.e, d)
            return r
    elif op == "<":
        if ah < bl:
            return True
        if al >= bh:
            return False
    else:
        if ah <= bl:
            return True
        if al > bh:
            return False
    lf = lf_add(lf_of(a), lf_of(b), -1)
    if lf is not None:
        r = lf_cmp(lf, op)
        if r is not None:
            return r
    if op == "==":
        w = max(width_for(al, ah), width_for(bl, bh))
        return mkbool(ext(a, w) == ext(b, w))
    if op == "<":
        w = max(width_for(al, ah), width_for(bl, bh))
        if al >= 0 and bl >= 0:
            return mkbool(z3.ULT(ext(a, w), ext(b, w)))
        return mkbool(ext(a, w) < ext(b, w))
    w = max(width_for(al, ah), width_for(bl, bh))
    if al >= 0 and bl >= 0:
        return mkbool(z3.ULE(ext(a, w), ext(b, w)))
    return mkbool(ext(a, w) <= ext(b, w))


def gauss(masks):
    """reduced row echelon form: equal subspaces give equal lists"""
    rows = []                       # (pivot, mask)
    for m in masks:
        for p, r in rows:
            if m >> p & 1:
                m ^= r
        if m:
            p = m.bit_length() - 1
            rows = [(q, r ^ m if r >> p & 1 else r) for q, r in rows]
            rows.append((p, m))
    rows.sort(reverse=True)
    return [r for _, r in rows]


def not_(b):
    if isinstance(b, SymBool):
        e = b.e
        return mkbool(e.arg(0) if z3.is_not(e) else z3.Not(e))
    if isinstance(b, SymInt):
        return cmp_(b, 0, "==")
    return not b


def and_all(bs):
    es = []
    for b in bs:
        if isinstance(b, (SymBool, SymInt)):
            es.append(bexpr(b))
        elif not b:
            return False
    if not es:
        return True
    return mkbool(z3.And(*es) if len(es) > 1 else es[0])


def or_all(bs):
    es = []
    for b in bs:
        if isinstance(b, (SymBool, SymInt)):
            es.append(bexpr(b))
        elif b:
            return True
    if not es:
        return False
    return mkbool(z3.Or(*es) if len(es) > 1 else es[0])


def in_range(x, lo, hi):
    """truth (forking) of lo <= x <= hi"""
    x = norm(x)
    if not isinstance(x, SymInt):
        return lo <= x <= hi
    if lo <= x.lo and x.hi <= hi:
        return True
    return bool(and_all([cmp_(x, lo, ">="), cmp_(x, hi, "<=")]))


def narrow(x, lo, hi):
    """x known to be within [lo, hi] on this path"""
    if not isinstance(x, SymInt):
        return x
    lo2, hi2 = max(lo, x.lo), min(hi, x.hi)
    if lo2 == x.lo and hi2 == x.hi:
        return x
    if lo2 == hi2:
        return lo2
    w = width_for(lo2, hi2)
    if x.lin is not None and lo2 >= 0:
        l = x.lin[:w - 1]
        return SymInt(None, lo2, hi2, lin=l, thunk=None if heavy(x) else (lambda: ext(x, w)), lf=lf_of(x))
    return SymInt(ext(x, w), lo2, hi2, lf=lf_of(x))


def ite(c, a, b):
    """value-level if-then-else; raises MergeAbort when the values cannot be merged"""
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        if isinstance(a, bool) and isinstance(b, bool) and a == b:
            return a
        return mkbool(z3.simplify(z3.If(c.e, bexpr(a), bexpr(b))))
    if is_intlike(a) and is_intlike(b):
        a, b = norm(a), norm(b)
        if not isinstance(a, SymInt) and not isinstance(b, SymInt) and a == b:
            return a
        (al, ah), (bl, bh) = bounds(a), bounds(b)
        lo, hi = min(al, bl), max(ah, bh)
        w = width_for(lo, hi)
        return SymInt(z3.If(c.e, ext(a, w), ext(b, w)), lo, hi)
    if isinstance(a, (SymBytes, bytes, bytearray)) and isinstance(b, (SymBytes, bytes, bytearray)):
        ea, eb = belems(a), belems(b)
        if len(ea) == len(eb):
            mut = kind(a) == "bytearray"
            return SymBytes([ite(c, x, y) for x, y in zip(ea, eb)], mut)
        raise MergeAbort("bytes of different length")
    if type(a) is tuple and type(b) is tuple and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if type(a) is type(b) and isinstance(a, (str, float, type(None))) and a == b:
        return a
    raise MergeAbort("cannot merge %s and %s" % (type(a).__name__, type(b).__name__))


def repeat(seq, n):
    """seq * n for symbolic n"""
    if isinstance(seq, list) and len(seq) == 1 and not isinstance(seq[0], (list, dict)):
        ex = cur()
        if ex.symlist_enabled and n.hi > ex.max_concrete_repeat:
            if n.lo < 0 and not cmp_(n, 0, ">="):
                return []
            return SymList.filled(seq[0], narrow(n, 0, n.hi))
    k = cur().concretize(n)
    return seq * k


# ------------------------------------------------------------------------------------------------------------------
# bytes

def split_bytes(v, n):
    """the n big-endian two's complement bytes of v (which fits)"""
    v = norm(v)
    if not isinstance(v, SymInt):
        return list((v & ((1 << (8 * n)) - 1)).to_bytes(n, "big"))
    out = []
    for k in range(n - 1, -1, -1):
        if v.lin is not None:
            l = v.lin[8 * k:8 * k + 8]
            out.append(lin_int(l, thunk=None if heavy(v) else _byte_thunk(v, k, len(lin_trim(l)))))
        else:
            w = 8 * n
            e = ext(v, w) if v.w <= w else z3.Extract(w - 1, 0, v.e)
            b = z3.simplify(z3.ZeroExt(1, z3.Extract(8 * k + 7, 8 * k, e)))
            out.append(b.as_long() if z3.is_bv_value(b) else SymInt(b, 0, 255))
    return out


def _byte_thunk(v, k, nb):
    def f():
        w = nb + 1
        e = v.e
        top = min(e.size() - 1, 8 * k + nb - 1)
        r = z3.Extract(top, 8 * k, e)
        return z3.ZeroExt(w - r.size(), r)
    return f


def join_bytes(bs, signed):
    """int of big-endian bytes"""
    if not any(isinstance(b, SymInt) for b in bs):
        return int.from_bytes(bytes(bs), "big", signed=signed)
    n = len(bs)
    if not signed:
        lins = [linof(b) for b in bs]
        if all(l is not None for l in lins):
            l = []
            for x in reversed(lins):
                l.extend(x)
                l.extend([0] * (8 - len(x)))
            hv = heavy(*bs)
            l = lin_trim(l)
            nb = len(l)
            return lin_int(l, thunk=None if hv else (lambda: _concat(bs, nb)))
        hi = 0
        for b in bs:
            hi = hi * 256 + bounds(b)[1]
        e = z3.Concat(z3.BitVecVal(0, 1), *[ext8(b) for b in bs])
        return SymInt(z3.Extract(width_for(0, hi) - 1, 0, e), 0, hi)
    e = z3.Concat(*[ext8(b) for b in bs]) if n > 1 else ext8(bs[0])
    return SymInt(z3.simplify(e), -(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1)


def _concat(bs, nb):
    e = z3.Concat(*[ext8(b) for b in bs]) if len(bs) > 1 else ext8(bs[0])
    e = z3.simplify(z3.Extract(nb - 1, 0, e))
    return z3.ZeroExt(1, e)


def ext8(b):
    if isinstance(b, SymInt):
        return z3.simplify(z3.Extract(7, 0, z3.ZeroExt(max(0, 8 - b.e.size()), b.e) if b.e.size() < 8 else b.e))
    return z3.BitVecVal(b, 8)


class SymBytes(object):
    """bytes/bytearray of concrete length with possibly symbolic elements"""
    __slots__ = ("els", "mut")

    def __init__(self, els, mut=False):
        self.els = els
        self.mut = mut

    def __len__(self):
        return len(self.els)

    def __bool__(self):
        return len(self.els) > 0

    def __iter__(self):
        i = 0
        while i < len(self.els):
            yield self.els[i]
            i += 1

    def __hash__(self):
        raise Unsupported("hash of symbolic bytes")

    def __str__(self):
        return "<bytes>"

    __repr__ = __str__

    def __format__(self, s):
        return "<bytes>"

    def __bytes__(self):
        return bytes([cur().concretize(x) if isinstance(x, SymInt) else x for x in self.els])

    def __getitem__(self, k):
        if isinstance(k, slice):
            k = conc_slice(k, len(self.els))
            return mkbytes(self.els[k], self.mut)
        if isinstance(k, (SymInt, SymBool)):
            return table_get(self.els, k, IndexError("index out of range"))
        return self.els[k]

    def _need_mut(self):
        if not self.mut:
            raise TypeError("'bytes' object does not support item assignment")
        cur().j_bytes(self)

    def __setitem__(self, k, v):
        self._need_mut()
        els = list(self.els)
        if isinstance(k, slice):
            k = conc_slice(k, len(els))
            els[k] = list(belems(v)) if isinstance(v, (bytes, bytearray, SymBytes)) else list(v)
        else:
            if not in_range(v, 0, 255):
                raise ValueError("byte must be in range(0, 256)")
            if isinstance(k, SymInt):
                k = cur().concretize(k)
            els[k] = v
        self.els = els

    def __delitem__(self, k):
        self._need_mut()
        els = list(self.els)
        del els[conc_slice(k, len(els)) if isinstance(k, slice) else k]
        self.els = els

    def __add__(self, o):
        if isinstance(o, (bytes, bytearray, SymBytes)):
            return mkbytes(list(self.els) + list(belems(o)), self.mut)
        if isinstance(o, str):
            raise TypeError("can't concat str to bytes")
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (bytes, bytearray, SymBytes)):
            return mkbytes(list(belems(o)) + list(self.els), kind(o) == "bytearray")
        if isinstance(o, str):
            raise TypeError('can only concatenate str (not "bytes") to str')
        return NotImplemented

    def __iadd__(self, o):
        if not isinstance(o, (bytes, bytearray, SymBytes)):
            if isinstance(o, str):
                raise TypeError("can't concat str to bytearray")
            if not self.mut:
                return NotImplemented
            o = SymBytes(list(o))
        if not self.mut:
            return self + o
        cur().j_bytes(self)
        self.els = list(self.els) + list(belems(o))
        return self

    def __mul__(self, n):
        if isinstance(n, SymInt):
            n = cur().concretize(n)
        return mkbytes(list(self.els) * n, self.mut)

    __rmul__ = __mul__

    def __eq__(self, o):
        if isinstance(o, (bytes, bytearray, SymBytes)):
            b = belems(o)
            if len(b) != len(self.els):
                return False
            return and_all([cmp_(x, y, "==") for x, y in zip(self.els, b)])
        return False

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def _lt(self, o, strict):
        a, b = list(self.els), list(belems(o))
        for x, y in zip(a, b):
            if cmp_(x, y, "=="):
                continue
            return cmp_(x, y, "<")
        return len(a) < len(b) if strict else len(a) <= len(b)

    def __lt__(self, o):
        return self._lt(o, True)

    def __le__(self, o):
        return self._lt(o, False)

    def __gt__(self, o):
        return not_(self._lt(o, False))

    def __ge__(self, o):
        return not_(self._lt(o, True))

    def __contains__(self, x):
        return bool(self.contains(x))

    def contains(self, x):
        if is_intlike(x):
            return or_all([cmp_(y, x, "==") for y in self.els])
        return cmp_(self.find(x), 0, ">=")

    # methods
    def append(self, v):
        self._need_mut()
        if not in_range(v, 0, 255):
            raise ValueError("byte must be in range(0, 256)")
        self.els = list(self.els) + [narrow(norm(v), 0, 255)]

    def extend(self, vs):
        self._need_mut()
        add = []
        for v in (belems(vs) if isinstance(vs, (bytes, bytearray, SymBytes)) else vs):
            if not in_range(v, 0, 255):
                raise ValueError("byte must be in range(0, 256)")
            add.append(narrow(norm(v), 0, 255))
        self.els = list(self.els) + add

    def insert(self, i, v):
        self._need_mut()
        els = list(self.els)
        els.insert(i, v)
        self.els = els

    def pop(self, i=-1):
        self._need_mut()
        els = list(self.els)
        r = els.pop(i)
        self.els = els
        return r

    def clear(self):
        self._need_mut()
        self.els = []

    def reverse(self):
        self._need_mut()
        self.els = list(reversed(self.els))

    def copy(self):
        return SymBytes(list(self.els), self.mut)

    def join(self, parts):
        out = []
        first = True
        for q in parts:
            if not isinstance(q, (bytes, bytearray, SymBytes)):
                raise TypeError("sequence item: expected a bytes-like object")
            if not first:
                out.extend(self.els)
            first = False
            out.extend(belems(q))
        return mkbytes(out, self.mut)

    def find(self, sub, start=0, end=None):
        pat = [sub] if is_intlike(sub) else list(belems(sub))
        n = len(self.els) if end is None else min(end, len(self.els))
        for i in range(start, n - len(pat) + 1):
            if and_all([cmp_(x, y, "==") for x, y in zip(self.els[i:i + len(pat)], pat)]):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError("subsection not found")
        return r

    def startswith(self, p):
        pe = belems(p)
        return len(pe) <= len(self.els) and bool(SymBytes(self.els[:len(pe)]) == p)

    def endswith(self, p):
        pe = belems(p)
        return len(pe) <= len(self.els) and bool(SymBytes(self.els[len(self.els) - len(pe):]) == p)

    def count(self, x):
        r = 0
        for y in self.els:
            if cmp_(y, x, "=="):
                r += 1
        return r

    def ljust(self, n, fill=b"\0"):
        return mkbytes(list(self.els) + list(fill) * max(0, n - len(self.els)), self.mut)

    def rjust(self, n, fill=b"\0"):
        return mkbytes(list(fill) * max(0, n - len(self.els)) + list(self.els), self.mut)

    def hex(self, *a):
        return "<hex>"

    def tobytes(self):
        return mkbytes(list(self.els), False)

    def tolist(self):
        return list(self.els)

    def decode(self, *a, **k):
        raise Unsupported("decode of symbolic bytes")

    def strip(self, *a):
        raise Unsupported("strip of symbolic bytes")

    def split(self, *a):
        raise Unsupported("split of symbolic bytes")

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def kind(o):
    if isinstance(o, SymBytes):
        return "bytearray" if o.mut else "bytes"
    return "bytearray" if isinstance(o, bytearray) else "bytes"


def belems(o):
    """elements of a bytes-like object"""
    if isinstance(o, SymBytes):
        return o.els
    return list(o)


def mkbytes(els, mut=False):
    """bytes when everything is concrete (and immutable), SymBytes otherwise"""
    if not mut:
        for x in els:
            if isinstance(x, SymInt):
                return SymBytes(list(els), False)
        return bytes(els)
    return SymBytes(list(els), True)


def conc_slice(k, n):
    """slice with symbolic bounds -> concrete slice for a sequence of length n (forks over the clamped bounds)"""
    def bound(b):
        if isinstance(b, SymBool):
            b = b.asint()
        if not isinstance(b, SymInt):
            return b
        if b.lo >= n:
            return n
        if b.hi <= -n and n > 0:
            return -n
        lo, hi = -n, n
        if b.lo >= 0:
            lo = 0
        c = b
        if c.hi > hi:
            c = ite(cmp_(c, hi, ">"), hi, c)
        if bounds(c)[0] < lo:
            c = ite(cmp_(c, lo, "<"), lo, c)
        c = SymInt(ext(c, width_for(lo, hi)), lo, hi) if isinstance(c, SymInt) else c
        return cur().concretize(c) if isinstance(c, SymInt) else c
    return slice(bound(k.start), bound(k.stop), bound(k.step))


def table_get(seq, k, exc):
    """seq[k] for symbolic k over a concrete-length sequence"""
    n = len(seq)
    k = norm(k)
    if k.lo < 0:
        if cmp_(k, 0, "<"):
            if cmp_(k, -n, "<"):
                raise exc
            k2 = arith(k, n, "+")
            return table_get(seq, narrow(k2, 0, n - 1), exc) if isinstance(k2, SymInt) else seq[k2]
        k = narrow(k, 0, k.hi)
        if not isinstance(k, SymInt):
            return seq[k]
    if k.hi >= n:
        if not cmp_(k, n, "<"):
            raise exc
        k = narrow(k, 0, n - 1)
        if not isinstance(k, SymInt):
            return seq[k]
    if all(is_intlike(x) for x in seq[k.lo:k.hi + 1]):
        if k.lin is not None:
            r = lin_table(seq, k)
            if r is not None:
                return r
        vals = [norm(x) for x in seq]
        los = [bounds(v)[0] for v in vals[k.lo:k.hi + 1]]
        his = [bounds(v)[1] for v in vals[k.lo:k.hi + 1]]
        lo, hi = min(los), max(his)
        if lo == hi:
            return lo
        w = width_for(lo, hi)
        ke = k.e
        kw = ke.size()

        def tree(base, bits):
            if base > k.hi:
                return None
            if bits == 0:
                return ext(vals[base], w) if base < n else None
            a = tree(base, bits - 1)
            b = tree(base + (1 << (bits - 1)), bits - 1)
            if b is None:
                return a
            if a is None:
                return b
            return z3.If(z3.Extract(bits - 1, bits - 1, ke) == 1, b, a)
        return SymInt(tree(0, kw - 1), lo, hi)
    return seq[cur().concretize(k)]


_LINTAB = {}


def lin_table(seq, k):
    """affine tables (T[x^y] = T[x]^T[y]^T[0]) indexed by a linear value give a linear value"""
    nb = len(k.lin)
    if len(seq) < (1 << nb) or nb == 0:
        return None
    if isinstance(seq, tuple):
        key = (seq[:1 << nb])
        ok = _LINTAB.get(key)
    else:
        key = tuple(seq[:1 << nb]) if all(type(x) is int for x in seq[:1 << nb]) else None
        ok = _LINTAB.get(key) if key is not None else False
    if ok is None:
        ok = all(type(x) is int and x >= 0 for x in key)
        if ok:
            t0 = key[0]
            for x in range(1, 1 << nb):
                low = x & -x
                if x != low and key[x] != key[x ^ low] ^ key[low] ^ t0:
                    ok = False
                    break
        _LINTAB[key] = ok
    if not ok:
        return None
    out_bits = max((key[1 << b] ^ key[0]).bit_length() for b in range(nb))
    out_bits = max(out_bits, key[0].bit_length())
    out = [((key[0] >> i) & 1) for i in range(out_bits)]
    for b in range(nb):
        m = k.lin[b]
        if not m:
            continue
        c = key[1 << b] ^ key[0]
        i = 0
        while c:
            if c & 1:
                out[i] ^= m
            c >>= 1
            i += 1
    return lin_int(out)


# ------------------------------------------------------------------------------------------------------------------
# lists of symbolic length

IW = 26   # index width of the arrays behind SymList (signed)
VW = 40   # element width (signed)


def index_const(j, r):
    """j - r as a constant, or None"""
    if not isinstance(r, SymInt):
        return j - r if not isinstance(j, SymInt) else None
    if not isinstance(j, SymInt):
        return None
    return same_root(j, r)


def merge_arr(c, a, b):
    """if-then-else of two SymList states"""
    if a[0].eq(b[0]) and a[1] is not None and b[1] is not None and a[1][0] is b[1][0]:
        da, db = a[1][1], b[1][1]
        if set(da) == set(db):
            d = {}
            for k in da:
                d[k] = da[k] if da[k].eq(db[k]) else z3.simplify(z3.If(c, da[k], db[k]))
            return (a[0], (a[1][0], d))
    return (z3.If(c, SymList.flush(a), SymList.flush(b)), None)


class SymList(object):
    """a list of ints with symbolic length, backed by a z3 array; used for blocks of arbitrary size"""

    def __init__(self, arr, length, off=0, over=None):
        self.arr = arr         # (z3 array, overlay): overlay = None or (root index, {constant: element expression})
        self.length = length   # SymInt or int
        self.off = off
        if not isinstance(arr, tuple):
            self.arr = (arr, None)

    @staticmethod
    def filled(v, n):
        if not is_intlike(v):
            raise Unsupported("symbolic-length list of non-integers")
        return SymList(z3.K(z3.BitVecSort(IW), ext(norm(v), VW)), n)

    def _idx(self, j):
        if bounds(j)[1] >= (1 << (IW - 1)):
            raise Unsupported("index too large")
        return ext(j, IW)

    @staticmethod
    def flush(arr):
        a, over = arr
        if over is not None:
            r, d = over
            for c, v in d.items():
                a = z3.Store(a, ext(arith(r, c, "+"), IW), v)
        return a

    def get(self, i):
        j = arith(i, self.off, "+")
        a, over = self.arr
        if over is not None:
            r, d = over
            k = index_const(j, r)
            if k is not None:
                if k in d:
                    e = d[k]
                    if z3.is_bv_value(e):
                        return e.as_signed_long()
                    return SymInt(e, -(1 << (VW - 1)), (1 << (VW - 1)) - 1)
            else:
                a = SymList.flush(self.arr)
        e = z3.simplify(z3.Select(a, self._idx(j)))
        if z3.is_bv_value(e):
            return e.as_signed_long()
        return SymInt(e, -(1 << (VW - 1)), (1 << (VW - 1)) - 1)

    def put(self, i, v):
        v = norm(v)
        if not is_intlike(v):
            raise Unsupported("non-integer stored in a symbolic-length list")
        l, h = bounds(v)
        if width_for(l, h) > VW:
            raise Unsupported("value too wide for a symbolic-length list")
        cur().j_list(self)
        j = arith(i, self.off, "+")
        a, over = self.arr
        if over is not None:
            k = index_const(j, over[0])
            if k is not None:
                d = dict(over[1])
                d[k] = ext(v, VW)
                self.arr = (a, (over[0], d))
                return
            a = SymList.flush(self.arr)
        self._idx(j)
        r, k = (j, 0) if isinstance(j, SymInt) else (0, j)
        self.arr = (a, (r, {k: ext(v, VW)}))

    def _norm_index(self, k):
        k = norm(k)
        l, h = bounds(k)
        if l < 0:
            if cmp_(k, 0, "<"):
                k = arith(k, self.length, "+")
                if cmp_(k, 0, "<"):
                    raise IndexError("list index out of range")
            else:
                k = narrow(k, 0, h)
        if not cmp_(k, self.length, "<"):
            raise IndexError("list index out of range")
        return k

    def _clamp(self, b, default):
        if b is None:
            return default
        b = norm(b)
        l, h = bounds(b)
        if l < 0:
            if cmp_(b, 0, "<"):
                b = arith(b, self.length, "+")
                if cmp_(b, 0, "<"):
                    return 0
            else:
                b = narrow(b, 0, h)
        if cmp_(b, self.length, "<="):
            return b
        return self.length

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported("stepped slice of a symbolic-length list")
            a, b = self._clamp(k.start, 0), self._clamp(k.stop, self.length)
            n = arith(b, a, "-")
            if not cmp_(n, 0, ">="):
                return []
            if isinstance(n, SymInt):
                n = narrow(n, 0, n.hi)
            # the view keeps the array value of this moment: a copy, as a list slice is
            return SymList(self.arr, n, arith(self.off, a, "+"))
        return self.get(self._norm_index(k))

    def __setitem__(self, k, v):
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unsupported("stepped slice of a symbolic-length list")
            a, b = self._clamp(k.start, 0), self._clamp(k.stop, self.length)
            n = arith(b, a, "-")
            if isinstance(v, SymList):
                raise Unsupported("slice assignment from a symbolic-length list")
            v = list(v)
            if not cmp_(n, len(v), "=="):
                raise Unsupported("resizing slice assignment")
            for i, x in enumerate(v):
                self.put(arith(a, i, "+"), x)
            return
        self.put(self._norm_index(k), v)

    def __len__(self):
        return self.length if not isinstance(self.length, SymInt) else cur().concretize(self.length)

    def __bool__(self):
        return bool(cmp_(self.length, 0, ">"))

    def __iter__(self):
        i = 0
        while cmp_(i, self.length, "<"):
            yield self.get(i)
            i += 1

    def __mul__(self, o):
        raise Unsupported("repeat of a symbolic-length list")

    def __add__(self, o):
        raise Unsupported("concatenation of a symbolic-length list")

    __radd__ = __add__

    def __eq__(self, o):
        if isinstance(o, (list, SymList)):
            if not cmp_(self.length, len(o) if isinstance(o, list) else o.length, "=="):
                return False
            return and_all([cmp_(x, y, "==") for x, y in zip(self, o)])
        return False

    def __ne__(self, o):
        return not_(self == o)

    __hash__ = None

    def copy(self):
        return SymList(self.arr, self.length, self.off)

    def append(self, *a):
        raise Unsupported("append to a symbolic-length list")

    extend = insert = pop = remove = clear = sort = reverse = index = count = append


# ------------------------------------------------------------------------------------------------------------------
# floats (IEEE doubles)

FP = z3.Float64()
RNE = z3.RNE()


class SymFloat(object):
    def __init__(self, e):
        self.e = e

    def _o(self, o):
        return sfloat_any(o)

    def __add__(self, o):
        return SymFloat(z3.fpAdd(RNE, self.e, self._o(o).e))

    __radd__ = __add__

    def __sub__(self, o):
        return SymFloat(z3.fpSub(RNE, self.e, self._o(o).e))

    def __rsub__(self, o):
        return self._o(o) - self

    def __mul__(self, o):
        return SymFloat(z3.fpMul(RNE, self.e, self._o(o).e))

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self._o(o)
        if decide(z3.fpIsZero(o.e)):
            raise ZeroDivisionError("division by zero")
        return SymFloat(z3.fpDiv(RNE, self.e, o.e))

    def __rtruediv__(self, o):
        return self._o(o) / self

    def __neg__(self):
        return SymFloat(z3.fpNeg(self.e))

    def __abs__(self):
        return SymFloat(z3.fpAbs(self.e))

    def __bool__(self):
        return decide(z3.Not(z3.fpIsZero(self.e)))

    def __eq__(self, o):
        return sfloat_cmp(self, o, "==")

    def __ne__(self, o):
        return not_(sfloat_cmp(self, o, "=="))

    def __lt__(self, o):
        return sfloat_cmp(self, o, "<")

    def __le__(self, o):
        return sfloat_cmp(self, o, "<=")

    def __gt__(self, o):
        return sfloat_cmp(o, self, "<")

    def __ge__(self, o):
        return sfloat_cmp(o, self, "<=")

    def __hash__(self):
        raise Unsupported("hash of symbolic float")

    def __str__(self):
        return "<float>"

    __repr__ = __str__

    def __format__(self, s):
        return "<float>"


class SymReal(SymFloat):
    """a float under the standard model of rounding: the exact result times 1 + d, |d| <= 2**-53 (normal range, no
    overflow); inputs may be declared to be integers, over which the quantification is relaxed to all reals"""

    def __init__(self, e, integer=False):
        self.e = e
        self.integer = integer

    def _o(self, o):
        return sreal(o)

    def __add__(self, o):
        return rounded(self.e + sreal(o).e)

    __radd__ = __add__

    def __sub__(self, o):
        return rounded(self.e - sreal(o).e)

    def __mul__(self, o):
        return rounded(self.e * sreal(o).e)

    __rmul__ = __mul__

    def _div(self, o):
        o = sreal(o)
        if decide(o.e == 0):
            raise ZeroDivisionError("division by zero")
        q = z3.FreshReal("q")
        cur().add(q * o.e == self.e)
        return q

    def __truediv__(self, o):
        return rounded(self._div(o))

    def __rtruediv__(self, o):
        return sreal(o) / self

    def __floordiv__(self, o):
        return SymReal(z3.ToReal(z3.ToInt(self._div(o))))

    def __rfloordiv__(self, o):
        return sreal(o) // self

    def __neg__(self):
        return SymReal(-self.e, self.integer)

    def __abs__(self):
        return SymReal(z3.If(self.e < 0, -self.e, self.e), self.integer)

    def __bool__(self):
        return decide(self.e != 0)


def rounded(e):
    e = z3.simplify(e)
    if z3.is_rational_value(e):
        v = fractions.Fraction(e.numerator_as_long(), e.denominator_as_long())
        return SymReal(z3.RealVal(fractions.Fraction(float(v))))
    d = z3.FreshReal("d")
    cur().add(z3.And(d >= -z3.Q(1, 1 << 53), d <= z3.Q(1, 1 << 53)))
    return SymReal(e * (1 + d))


def sreal(x):
    if isinstance(x, SymReal):
        return x
    if isinstance(x, (bool, int, float)):
        return SymReal(z3.RealVal(fractions.Fraction(x)))
    raise Unsupported("%s with a real" % type(x).__name__)


def sfloat(x):
    x = norm(x)
    if not isinstance(x, SymInt):
        return SymFloat(z3.FPVal(float(x), FP))
    if max(abs(x.lo), abs(x.hi)) > (1 << 53):
        raise Unsupported("int too wide for exact float conversion")
    return SymFloat(z3.fpSignedToFP(RNE, x.e, FP))


def sfloat_any(x):
    if isinstance(x, SymFloat):
        return x
    if isinstance(x, float):
        return SymFloat(z3.FPVal(x, FP))
    return sfloat(x)


def sfloat_cmp(a, b, op):
    if not isinstance(a, (int, float, SymInt, SymBool, SymFloat)) or not isinstance(
            b, (int, float, SymInt, SymBool, SymFloat)):
        return False if op == "==" else (True if op == "!=" else NotImplemented)
    if isinstance(a, SymReal) or isinstance(b, SymReal):
        x, y = sreal(a).e, sreal(b).e
        return mkbool(z3.simplify({"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]))
    a, b = sfloat_any(a), sfloat_any(b)
    f = {"==": z3.fpEQ, "<": z3.fpLT, "<=": z3.fpLEQ, ">": z3.fpGT, ">=": z3.fpGEQ,
         "!=": lambda x, y: z3.Not(z3.fpEQ(x, y))}[op]
    return mkbool(z3.simplify(f(a.e, b.e)))


def decide(e):
    return cur().decide(e)


# ------------------------------------------------------------------------------------------------------------------
# journal for state merging

class Journal(object):
    def __init__(self):
        self.old = {}    # key -> (obj, getter info, old value)

    def note(self, key, obj, kind_, idx, old):
        if key not in self.old:
            self.old[key] = (obj, kind_, idx, old)


_MISSING = object()


def _cur_value(obj, kind_, idx):
    if kind_ == "item":
        return obj[idx] if idx < len(obj) else _MISSING
    if kind_ == "dict":
        return dict.get(obj, idx, _MISSING)
    if kind_ == "attr":
        return obj.__dict__.get(idx, _MISSING) if hasattr(obj, "__dict__") else getattr(obj, idx, _MISSING)
    if kind_ == "bytes":
        return obj.els
    if kind_ == "symlist":
        return obj.arr
    raise EngineError("journal kind")


def _set_value(obj, kind_, idx, v):
    if kind_ == "item":
        list.__setitem__(obj, idx, v) if isinstance(obj, list) else obj.__setitem__(idx, v)
    elif kind_ == "dict":
        if v is _MISSING:
            dict.pop(obj, idx, None)
        else:
            dict.__setitem__(obj, idx, v)
    elif kind_ == "attr":
        if v is _MISSING:
            if idx in obj.__dict__:
                delattr(obj, idx)
        else:
            setattr(obj, idx, v)
    elif kind_ == "bytes":
        obj.els = v
    elif kind_ == "symlist":
        obj.arr = v


# ------------------------------------------------------------------------------------------------------------------
# the explorer

class Limits(object):
    def __init__(self, seconds=600, paths=200000, concretize=5000, solver_ms=60000):
        self.seconds = seconds
        self.paths = paths
        self.concretize = concretize
        self.solver_ms = solver_ms


class Explorer(object):
    """explores every path of harness(ctx)"""

    def __init__(self, harness, limits, merge=True):
        self.harness = harness
        self.limits = limits
        self.merge_enabled = merge
        self.symlist_enabled = False
        self.max_concrete_repeat = 64
        self.stats = dict(paths=0, aborted=0, decisions=0, forks=0, queries=0, solver_s=0.0, obligations=0,
                          discharged=0, trivial=0, merges=0, merge_aborts=0, unsupported=0, unknown=0)
        self.covered = {}
        self.functions = set()
        self.violations = []
        self.incomplete = []
        self.validated = 0
        self.t_end = time.time() + limits.seconds
        self.between = None
        self.keep_paths = 6
        self.samples = []     # (inputs assignment, observations) of some finished paths
        self.on_path_end = None
        self.stop_after_violations = 1
        self.text_mode = False
        self.sched_hint = None
        self.known_hits = {}
        self.on_suspect = None      # callback(inputs) for paths that end in an exception, a hang or an unsupported step
        self.on_violation = None    # callback(violation) -> True when it is confirmed
        self.suspects = 0
        self.path_seconds = 120

    def suspect(self, what):
        """the path ended in a way the engine cannot judge: the real code decides for the values of one model of it"""
        self.suspects += 1
        inp = None
        try:
            m = self.get_model()
            if m is not None:
                inp = self.assignment(m)
        except (EngineSignal, Exception):
            pass
        if self.on_suspect is not None and self.suspects <= 40:
            return ("suspect", what, inp)
        self.note_incomplete(what)
        return None

    def note_incomplete(self, msg):
        if msg not in self.incomplete:
            self.incomplete.append(msg)

    def pick(self, x):
        """under-approximation: fix a symbolic value to one feasible value and go on"""
        if self.jstack:
            raise MergeAbort("pick inside merge")
        self.approximated = True
        if isinstance(x, SymBytes):
            return (bytearray if x.mut else bytes)([self.pick(b) for b in x.els])
        if isinstance(x, SymBool):
            return bool(self.pick(x.asint()))
        if isinstance(x, SymInt):
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos]
                self.pos += 1
                if v[0] != "v":
                    raise EngineError("decision kind changed on replay: %r" % (v,))
                self.trace.append(v)
                self.add(x.e == v[1])
                return v[1]
            m = self.get_model()
            if m is None:
                raise PathAbort("infeasible")
            v = m.eval(x.e, model_completion=True).as_signed_long()
            self.trace.append(("v", v))
            self.pos += 1
            self.add(x.e == v)
            return v
        raise Unsupported("operation on %s" % type(x).__name__)

    # -- solver
    def _check(self, *extra):
        t = time.time()
        left = self.t_end - t
        if left <= 0:
            raise OutOfBudget("time budget used up")
        self.stats["queries"] += 1
        s = self.solver
        if extra:
            s.push()
            s.add(*extra)
        r = s.check()
        model = s.model() if r == z3.sat else None
        reason = s.reason_unknown() if r == z3.unknown else None
        if extra:
            s.pop()
        self.stats["solver_s"] += time.time() - t
        if r == z3.unknown:
            self.stats["unknown"] += 1
            raise OutOfBudget("solver answered unknown: %s" % reason)
        if r == z3.sat:
            self.last_model = model
            return True
        return False

    def add(self, e):
        self.solver.add(e)
        self.npc += 1
        if self.model is not None:
            if not z3.is_true(self.model.eval(e, model_completion=True)):
                self.model = None

    def sat_with(self, e):
        if self.model is not None and z3.is_true(self.model.eval(e, model_completion=True)):
            return True
        if self._check(e):
            return True
        return False

    def decide(self, cond):
        """truth value of a z3 Bool on this path, forking when both are possible"""
        r = self.decide_(cond)
        lf_learn(cond, r)
        return r

    def decide_(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.jstack:
            # inside a speculative (merged) region: only decisions that are forced are possible
            if not self._check(cond):
                return False
            if not self._check(z3.Not(cond)):
                return True
            raise MergeAbort("fork inside merge")
        self.stats["decisions"] += 1
        if time.time() > self.t_end:
            raise OutOfBudget("time budget used up")
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            if v[0] not in ("b", "f"):
                raise EngineError("decision kind changed on replay: %r" % (v,))
            if v[0] == "b":
                self.add(cond if v[1] else z3.Not(cond))
            self.trace.append(v)
            return v[1]
        ncond = z3.Not(cond)
        if self.model is not None:
            mv = z3.is_true(self.model.eval(cond, model_completion=True))
            t_ok = True if mv else self._check(cond)
            tm = self.model if mv else (self.last_model if t_ok else None)
            f_ok = True if not mv else self._check(ncond)
            fm = self.model if not mv else (self.last_model if f_ok else None)
        else:
            t_ok = self._check(cond)
            tm = self.last_model if t_ok else None
            f_ok = self._check(ncond)
            fm = self.last_model if f_ok else None
        if t_ok and f_ok:
            self.stats["forks"] += 1
            v = ("b", True)
            self.work.append(self.trace + [("b", False)])
            self.trace.append(v)
            self.solver.add(cond)
            self.npc += 1
            self.model = tm
            self.pos += 1
            return True
        if not t_ok and not f_ok:
            raise PathAbort("infeasible")
        self.trace.append(("f", t_ok))
        self.pos += 1
        self.model = tm if t_ok else fm
        return t_ok

    def concretize(self, x):
        """a concrete value of x; forks over all feasible values"""
        x = norm(x)
        if not isinstance(x, SymInt):
            return x
        e = z3.simplify(x.e)
        if z3.is_bv_value(e):
            return e.as_signed_long()
        if self.jstack:
            raise MergeAbort("concretization inside merge")
        self.stats["decisions"] += 1
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            if v[0] != "v":
                raise EngineError("decision kind changed on replay: %r" % (v,))
            self.trace.append(v)
            self.add(e == v[1])
            return v[1]
        vals = []
        self.solver.push()
        try:
            while self._check():
                val = self.last_model.eval(e, model_completion=True).as_signed_long()
                vals.append(val)
                if len(vals) > self.limits.concretize:
                    raise Unsupported("more than %d values to enumerate" % self.limits.concretize)
                self.solver.add(e != val)
        finally:
            self.solver.pop()
        if not vals:
            raise PathAbort("infeasible")
        vals.sort()
        for val in reversed(vals[1:]):
            self.work.append(self.trace + [("v", val)])
        if len(vals) > 1:
            self.stats["forks"] += len(vals) - 1
        self.trace.append(("v", vals[0]))
        self.pos += 1
        self.add(e == vals[0])
        return vals[0]

    def choice(self, n):
        """harness-level fork over range(n) without a solver variable"""
        if n == 1:
            return 0
        if self.jstack:
            raise MergeAbort("choice inside merge")
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            if v[0] != "c":
                raise EngineError("decision kind changed on replay: %r" % (v,))
            self.trace.append(v)
            return v[1]
        for i in range(n - 1, 0, -1):
            self.work.append(self.trace + [("c", i)])
        self.stats["forks"] += n - 1
        self.trace.append(("c", 0))
        self.pos += 1
        return 0

    # -- inputs
    def new_int(self, name, lo, hi):
        if name in self.inputs:
            raise EngineError("duplicate input %s" % name)
        if lo == hi:
            self.inputs[name] = lo
            return lo
        w = width_for(lo, hi)
        if lo >= 0:
            nb = w - 1
            v = z3.BitVec(name, nb)
            ids = self.new_bits(v, nb)
            x = SymInt(z3.ZeroExt(1, v), lo, hi, lin=tuple(1 << i for i in ids))
            if lo > 0:
                self.add(z3.UGE(v, lo))
            if hi & (hi + 1):
                self.add(z3.ULE(v, hi))
        else:
            v = z3.BitVec(name, w)
            x = SymInt(v, lo, hi)
            self.add(z3.And(v >= lo, v <= hi))
        self.inputs[name] = x
        return x

    def new_real(self, name, lo, hi, integer=True):
        if name in self.inputs:
            raise EngineError("duplicate input %s" % name)
        v = z3.Real(name)
        self.add(z3.And(v >= lo, v <= hi))
        x = self.inputs[name] = SymReal(v, integer)
        return x

    def new_bool(self, name):
        if name in self.inputs:
            raise EngineError("duplicate input %s" % name)
        x = SymBool(z3.Bool(name))
        self.inputs[name] = x
        return x

    def new_bits(self, v, nb):
        first = len(self.bit_atoms)
        for i in range(nb):
            self.bit_atoms.append((v, i))
        return range(first, first + nb)

    def linearize(self, x):
        e = x.e
        k = (e.get_id(), x.hi)
        r = self.lin_atoms.get(k)
        if r is None:
            ids = self.new_bits(e, min(x.hi.bit_length(), e.size()))
            r = (SymInt(e, x.lo, x.hi, lin=tuple(1 << i for i in ids)), e)
            self.lin_atoms[k] = r
        return r[0]

    def bit_expr(self, i):
        if i == 0:
            return z3.BitVecVal(1, 1)
        v, k = self.bit_atoms[i]
        return z3.Extract(k, k, v)

    def mask_expr(self, m):
        """1-bit expression of an XOR of atoms"""
        r = self.mask_cache.get(m)
        if r is not None:
            return r
        r = None
        i = 0
        mm = m
        terms = []
        while mm:
            low = (mm & -mm).bit_length() - 1
            terms.append(self.bit_expr(low))
            mm &= mm - 1
        if not terms:
            r = z3.BitVecVal(0, 1)
        else:
            r = terms[0]
            for t in terms[1:]:
                r = r ^ t
        self.mask_cache[m] = r
        return r

    def lin_expr(self, lin, w):
        bits = [self.mask_expr(m) for m in lin]
        bits.reverse()
        e = z3.Concat(*bits) if len(bits) > 1 else bits[0]
        e = z3.simplify(e)
        if e.size() < w:
            e = z3.ZeroExt(w - e.size(), e)
        elif e.size() > w:
            e = z3.Extract(w - 1, 0, e)
        return e

    def lin_zero(self, masks):
        """all masks evaluate to 0 (Gauss-reduced first: fewer and shorter equations)"""
        rows = gauss(masks)
        if any(r == 1 for r in rows):
            return z3.BoolVal(False)
        return z3.And(*[self.mask_expr(r) == 0 for r in rows]) if rows else z3.BoolVal(True)

    def lin_reduce(self, m):
        for p, b in self.lin_basis:
            if m >> p & 1:
                m ^= b
        return m

    def lin_learn(self, m):
        """the XOR of atoms m is 0 on this path"""
        m = self.lin_reduce(m)
        if m > 1:
            self.lin_basis.append((m.bit_length() - 1, m))

    # -- merging
    def j_bytes(self, o):
        if self.jstack:
            self.jstack[-1].note((id(o), "bytes", 0), o, "bytes", 0, o.els)

    def j_list(self, o):
        if self.jstack:
            self.jstack[-1].note((id(o), "symlist", 0), o, "symlist", 0, o.arr)

    def j_write(self, obj, kind_, idx):
        if self.jstack:
            key = (id(obj), kind_, idx)
            j = self.jstack[-1]
            if key not in j.old:
                old = _cur_value(obj, kind_, idx)
                if old is _MISSING and kind_ == "item":
                    raise MergeAbort("list item out of range")
                j.note(key, obj, kind_, idx, old)

    def effect(self, what):
        """an unjournaled side effect is about to happen"""
        if self.jstack:
            raise MergeAbort("effect inside merge: " + what)

    # -- running
    def run(self):
        global E
        self.work = [[]]
        try:
            while self.work:
                if self.stats["paths"] >= self.limits.paths:
                    self.incomplete.append("path budget (%d) used up, %d branches left" % (
                        self.limits.paths, len(self.work)))
                    break
                if time.time() > self.t_end:
                    self.incomplete.append("time budget (%ds) used up, %d branches left" % (
                        self.limits.seconds, len(self.work)))
                    break
                if self.between is not None:
                    self.between(self)
                if self.stats["paths"] > 300 and self.stats["paths"] % 2:
                    # large searches may not come to an end: look everywhere, not at the last branches only
                    prefix = self.work.pop((self.stats["paths"] * 7919) % len(self.work))
                else:
                    prefix = self.work.pop()
                self.run_path(prefix)
                if len(self.violations) >= self.stop_after_violations:
                    break
        finally:
            E = None
        return self

    def run_path(self, prefix):
        global E
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.npc = 0
        self.model = None
        self.last_model = None
        self.inputs = {}
        self.observations = []
        self.bit_atoms = [None]
        self.lf_atoms = []
        self.lf_index = {}
        self.lf_exprs = {}
        self.lf_cmps = {}
        self.lf_atom_ids = {}
        self.lf_facts = {}
        self.lin_eqs = {}
        self.lin_basis = []
        self.lin_false = set()
        self.lin_atoms = {}
        self.lf_keep = []
        self.mask_cache = {}
        self.jstack = []
        self.assume_stack = []
        self.path_notes = []
        self.sched_hint = None
        self.approximated = False
        self.solver = z3.Solver()
        self.solver.set("timeout", self.limits.solver_ms)
        self.solver.set("random_seed", 1)
        E = self
        self.stats["paths"] += 1
        nv = len(self.violations)
        todo = None
        self.path_end = min(self.t_end + 20, time.time() + self.path_seconds)
        alarm(self.path_end - time.time())
        try:
            self.harness(self)
            alarm(0)
            self.path_finished()
        except PathDone:
            pass
        except PathAbort:
            self.stats["aborted"] += 1
        except Unsupported as ex:
            alarm(0)
            self.stats["unsupported"] += 1
            todo = self.suspect("unsupported: %s" % ex)
        except PathTimeout:
            alarm(0)
            todo = self.suspect("a path did not end in time")
        except OutOfBudget as ex:
            self.note_incomplete(str(ex))
        except RecursionError:
            alarm(0)
            todo = self.suspect("recursion limit")
        except Exception:
            alarm(0)
            import traceback
            todo = self.suspect("exception: " + traceback.format_exc()[-1500:])
        finally:
            alarm(0)
            E = None
            self.solver = None
        if todo is not None:
            self.on_suspect(self, todo[1], todo[2])
        if len(self.violations) > nv and self.on_violation is not None:
            self.on_violation(self, self.violations[-1])

    def path_finished(self):
        n = self.stats["paths"] - self.stats["aborted"]
        if len(self.samples) < self.keep_paths or n % 97 == 0 and len(self.samples) < 3 * self.keep_paths:
            m = self.get_model()
            if m is not None:
                self.samples.append((self.assignment(m), [(k, self.value(v, m)) for k, v in self.observations]))

    def get_model(self, *extra):
        if self.model is not None and not extra:
            return self.model
        if self._check(*extra):
            return self.last_model
        return None

    def value(self, v, m):
        """concrete value of a (possibly symbolic) Python value under model m"""
        if isinstance(v, SymInt):
            r = m.eval(v.e, model_completion=True)
            return r.as_signed_long()
        if isinstance(v, SymBool):
            return z3.is_true(m.eval(v.e, model_completion=True))
        if isinstance(v, SymReal):
            r = m.eval(v.e, model_completion=True)
            if z3.is_algebraic_value(r):
                r = r.approx(20)
            f = fractions.Fraction(r.numerator_as_long(), r.denominator_as_long())
            return round(f) if v.integer else float(f)
        if isinstance(v, SymFloat):
            r = z3.simplify(z3.fpToIEEEBV(m.eval(v.e, model_completion=True)))
            import struct
            return struct.unpack(">d", r.as_long().to_bytes(8, "big"))[0]
        if isinstance(v, SymBytes):
            return bytes([self.value(x, m) for x in v.els])
        if isinstance(v, bytearray):
            return bytes(v)
        if isinstance(v, SymList):
            n = self.value(v.length, m)
            return [self.value(v.get(i), m) for i in range(min(n, 4000))]
        if isinstance(v, tuple):
            return tuple(self.value(x, m) for x in v)
        if isinstance(v, list):
            return [self.value(x, m) for x in v]
        if isinstance(v, dict):
            return {self.value(k, m): self.value(x, m) for k, x in v.items()}
        if hasattr(v, "_sym_value"):
            return v._sym_value(lambda x: self.value(x, m))
        return v

    def assignment(self, m):
        a = {k: self.value(v, m) for k, v in self.inputs.items()}
        a["__choices__"] = [v[1] for v in self.trace if v[0] == "c"]
        if self.sched_hint is not None:
            a["__sched__"] = [list(h) for h in self.sched_hint]
        return a

    def check(self, cond, msg, data=None):
        """assert cond on this path"""
        self.stats["obligations"] += 1
        if isinstance(cond, (SymBool, SymInt)):
            e = z3.simplify(bexpr(cond))
            if z3.is_true(e):
                self.stats["trivial"] += 1
                self.stats["discharged"] += 1
                return
            if z3.is_false(e):
                m = self.get_model()
            else:
                m = None
                # a long conjunction is settled conjunct by conjunct
                parts = [e]
                if z3.is_and(e) and e.num_args() > 12:
                    parts = e.children()
                for p in parts:
                    ne = z3.Not(p)
                    if self.model is not None and z3.is_true(self.model.eval(ne, model_completion=True)):
                        m = self.model
                    elif self._check(ne):
                        m = self.last_model
                    if m is not None:
                        break
                if m is None:
                    self.stats["discharged"] += 1
                    return
        else:
            if cond:
                self.stats["trivial"] += 1
                self.stats["discharged"] += 1
                return
            m = self.get_model()
        if m is None:
            raise PathAbort("infeasible")
        self.violations.append(dict(msg=msg, inputs=self.assignment(m),
                                    observed=[(k, repr(self.value(v, m))[:300]) for k, v in self.observations],
                                    data=repr(self.value(data, m))[:600] if data is not None else None,
                                    notes=list(self.path_notes)))
        raise PathDone()

    def assume(self, cond):
        if isinstance(cond, (SymBool, SymInt)):
            e = z3.simplify(bexpr(cond))
            if z3.is_true(e):
                return
            if z3.is_false(e):
                raise PathAbort("assumption")
            lf_learn(bexpr(cond), True)
            if self.pos < len(self.prefix):
                self.add(e)
                return
            if not self.sat_with(e):
                raise PathAbort("assumption")
            m = self.last_model if self.model is None or not z3.is_true(
                self.model.eval(e, model_completion=True)) else self.model
            self.solver.add(e)
            self.npc += 1
            self.model = m
        elif not cond:
            raise PathAbort("assumption")
