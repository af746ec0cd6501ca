"""Strings built from symbolic integers.  By default such a string is an opaque placeholder (log and error messages);
with E.text_mode the pieces are kept (SymText), so that the decimal text of a number can be parsed back."""
import builtins
import re
from . import core
from .core import SymInt, SymBool, SymBytes, SymFloat, Unsupported, is_intlike, cmp_, norm, SymList

SYMV = (SymInt, SymBool, SymFloat, SymBytes, SymList)


class SymText(object):
    """str: concatenation of literal strings and decimal renderings of symbolic integers"""
    __slots__ = ("parts",)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.parts = out

    def length(self):
        n = 0
        for p in self.parts:
            n = n + (len(p) if isinstance(p, str) else digits(p))
        return n

    def __len__(self):
        n = self.length()
        return n if type(n) is int else core.cur().concretize(n)

    def __bool__(self):
        return bool(self.parts)

    def layout(self):
        """[(piece, start, end)] with a concrete length of every number on this path"""
        out = []
        n = 0
        for p in self.parts:
            k = len(p) if isinstance(p, str) else digits(p)
            k = k if type(k) is int else core.cur().concretize(k)
            out.append((p, n, n + k))
            n += k
        return out, n

    def cut(self, lo, hi):
        lay, n = self.layout()
        lo, hi, _ = slice(lo, hi).indices(n)
        out = []
        for p, a, b in lay:
            if hi <= a or lo >= b or lo >= hi:
                continue
            if isinstance(p, str):
                out.append(p[max(0, lo - a):hi - a])
            elif lo <= a and hi >= b:
                out.append(p)
            else:
                out.append(str(core.cur().concretize(p))[max(0, lo - a):hi - a])
        return mk(out)

    def __add__(self, o):
        if not isinstance(o, (str, SymText)):
            raise TypeError('can only concatenate str (not "%s") to str' % type(o).__name__)
        return mk(self.parts + parts(o))

    def __radd__(self, o):
        if not isinstance(o, (str, SymText)):
            if isinstance(o, (bytes, bytearray)):
                raise TypeError("can't concat str to bytes")
            return NotImplemented
        return mk(parts(o) + self.parts)

    def __eq__(self, o):
        if isinstance(o, str) or isinstance(o, SymText):
            return eq(self, o)
        return False

    def __ne__(self, o):
        return core.not_(self == o)

    def __hash__(self):
        raise Unsupported("hash of symbolic text")

    def __str__(self):
        return "".join(p if isinstance(p, str) else "<int>" for p in self.parts)

    __repr__ = __str__

    def __format__(self, spec):
        return str(self)

    def __getitem__(self, k):
        if isinstance(k, slice) and k.step in (None, 1):
            lo, hi = k.start or 0, k.stop
            p = self.parts
            if type(lo) is int and (hi is None or type(hi) is int) and p:
                a, b = p[0], p[-1]
                if lo < 0 and hi is None and isinstance(b, str) and -lo <= len(b):
                    return b[lo:]
                if lo == 0 and hi is not None and 0 <= hi <= (len(a) if isinstance(a, str) else 0):
                    return a[:hi] if hi else ""
                if lo >= 0 and lo <= (len(a) if isinstance(a, str) else 0) and (
                        hi is None or hi < 0 and -hi <= (len(b) if isinstance(b, str) else 0)) and len(p) > 1:
                    return mk(([a[lo:]] if isinstance(a, str) else [a]) + p[1:-1] +
                              ([b[:hi]] if isinstance(b, str) else [b]))
            lo, hi = [x if x is None or type(x) is int else core.cur().concretize(x) for x in (lo, hi)]
            return self.cut(lo, hi)
        if core.is_intlike(k):
            k = k if type(k) is int else core.cur().concretize(k)
            if k >= 0 and self.parts and isinstance(self.parts[0], str) and len(self.parts[0]) > k:
                return self.parts[0][k]
            if k < 0 and self.parts and isinstance(self.parts[-1], str) and len(self.parts[-1]) >= -k:
                return self.parts[-1][k]
            n = self.layout()[1]
            if k >= n or k < -n:
                raise IndexError("string index out of range")
            k %= n
            return self.cut(k, k + 1)
        raise Unsupported("index into symbolic text")

    def __iter__(self):
        raise Unsupported("iteration over symbolic text")

    def __contains__(self, x):
        return bool(contains(self, x))

    def _sym_value(self, f):
        return "".join(p if isinstance(p, str) else str(f(p)) for p in self.parts)

    # str methods
    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def lstrip(self, chars=None):
        _chk(chars)
        p = list(self.parts)
        if p and isinstance(p[0], str):
            p[0] = p[0].lstrip(chars)
        return mk(p)

    def rstrip(self, chars=None):
        _chk(chars)
        p = list(self.parts)
        if p and isinstance(p[-1], str):
            p[-1] = p[-1].rstrip(chars)
        return mk(p)

    def split(self, sep=None, maxsplit=-1):
        if sep is not None:
            _chk(sep)
        out = [[]]
        ws = sep is None
        n = 0
        for p in self.parts:
            if not isinstance(p, str):
                out[-1].append(p)
                continue
            buf = ""
            i = 0
            while i < len(p):
                if maxsplit >= 0 and n >= maxsplit:
                    buf += p[i:]
                    break
                if ws and p[i].isspace():
                    out[-1].append(buf)
                    buf = ""
                    while i < len(p) and p[i].isspace():
                        i += 1
                    out.append([])
                    n += 1
                elif not ws and p.startswith(sep, i):
                    out[-1].append(buf)
                    buf = ""
                    out.append([])
                    n += 1
                    i += len(sep)
                else:
                    buf += p[i]
                    i += 1
            out[-1].append(buf)
        r = [mk(x) for x in out]
        if ws:
            r = [x for x in r if x]
        return r

    def splitlines(self, *a):
        return [x for x in self.split("\n")]

    def partition(self, sep):
        r = self.split(sep, 1)
        return (r[0], sep, r[1]) if len(r) == 2 else (self, "", "")

    def find(self, sub, *a):
        if a:
            lo = a[0] or 0
            hi = a[1] if len(a) > 1 else None
            if type(lo) is int and lo == 0 and hi is None:
                return self.find(sub)
            n = self.layout()[1]
            lo, hi, _ = slice(*[x if x is None or type(x) is int else core.cur().concretize(x)
                                for x in (lo, hi)]).indices(n)
            t = self.cut(lo, hi)
            r = t.find(sub)
            return r if type(r) is int and r < 0 else r + lo
        if isinstance(sub, SymText):
            if self.startswith(sub):
                return 0
            raise Unsupported("find of symbolic text")
        _chk(sub)
        n = 0
        for p in self.parts:
            if isinstance(p, str):
                r = p.find(sub)
                if r >= 0:
                    return n + r
                n = n + len(p)
            else:
                if not sub:
                    return n
                n = n + digits(p)
        return -1

    def rfind(self, sub, *a):
        if a:
            raise Unsupported("rfind with range in symbolic text")
        _chk(sub)
        if not sub:
            return self.length()
        r = -1
        n = 0
        for p in self.parts:
            if isinstance(p, str):
                k = p.rfind(sub)
                if k >= 0:
                    r = n + k
                n = n + len(p)
            else:
                n = n + digits(p)
        return r

    def count(self, sub, *a):
        if a:
            raise Unsupported("count with range in symbolic text")
        _chk(sub)
        if not sub:
            return self.length() + 1
        return sum(p.count(sub) for p in self.parts if isinstance(p, str))

    def index(self, sub):
        r = self.find(sub)
        if isinstance(r, int) and r < 0:
            raise ValueError("substring not found")
        return r

    def startswith(self, pre, *a):
        if isinstance(pre, tuple):
            return any(self.startswith(x) for x in pre)
        ps = parts(pre)
        mine = list(self.parts)
        i = 0
        for q in ps:
            last = i == len(ps) - 1
            i += 1
            if not mine:
                return False
            m = mine.pop(0)
            if isinstance(q, str):
                if not isinstance(m, str):
                    if _isnum(q):
                        raise Unsupported("prefix of symbolic text")
                    return False
                if last:
                    return m.startswith(q)
                if m != q:
                    return False
            else:
                if isinstance(m, str):
                    raise Unsupported("prefix of symbolic text")
                if not cmp_(q, m, "=="):
                    return False
        return True

    def endswith(self, suf, *a):
        if isinstance(suf, str) and self.parts and isinstance(self.parts[-1], str) and (
                len(self.parts[-1]) >= len(suf)):
            return self.parts[-1].endswith(suf)
        raise Unsupported("suffix of symbolic text")

    def lower(self):
        return mk([p.lower() if isinstance(p, str) else p for p in self.parts])

    def upper(self):
        return mk([p.upper() if isinstance(p, str) else p for p in self.parts])

    def replace(self, a, b, *c):
        _chk(a)
        return mk([p.replace(a, b) if isinstance(p, str) else p for p in self.parts])

    def encode(self, *a, **k):
        return encode(self)

    def isdigit(self):
        if len(self.parts) == 1 and not isinstance(self.parts[0], str):
            return bool(cmp_(self.parts[0], 0, ">="))
        raise Unsupported("isdigit of symbolic text")

    def join(self, xs):
        out = []
        for i, x in enumerate(xs):
            if i:
                out.extend(self.parts)
            out.extend(parts(x))
        return mk(out)

    def format(self, *a, **k):
        raise Unsupported("format of symbolic text")


class TextBytes(object):
    """ASCII encoding of a SymText"""
    __slots__ = ("text",)

    def __init__(self, t):
        self.text = t

    def decode(self, *a, **k):
        return self.text

    def strip(self, *a):
        a = [x.decode("latin-1") if isinstance(x, (bytes, bytearray)) else _typeerr() for x in a if x is not None]
        return encode(mk(self.text.strip(*a).parts if isinstance(self.text.strip(*a), SymText) else [
            self.text.strip(*a)]))

    def split(self, sep=None, *a):
        if isinstance(sep, str):
            _typeerr()
        return [encode(x) for x in self.text.split(None if sep is None else sep.decode("latin-1"), *a)]

    def find(self, sub, *a):
        if isinstance(sub, str):
            _typeerr()
        return self.text.find(sub.decode("latin-1") if isinstance(sub, bytes) else sub.text, *a)

    def startswith(self, sub):
        if isinstance(sub, str):
            _typeerr()
        return self.text.startswith(sub.decode("latin-1") if isinstance(sub, bytes) else sub.text)

    def endswith(self, sub, *a):
        if isinstance(sub, str):
            _typeerr()
        if isinstance(sub, tuple):
            return any(self.endswith(x) for x in sub)
        return self.text.endswith(sub.decode("latin-1") if isinstance(sub, bytes) else sub.text)

    def lstrip(self, *a):
        a = [x.decode("latin-1") if isinstance(x, (bytes, bytearray)) else _typeerr() for x in a if x is not None]
        return encode(self.text.lstrip(*a))

    def rstrip(self, *a):
        a = [x.decode("latin-1") if isinstance(x, (bytes, bytearray)) else _typeerr() for x in a if x is not None]
        return encode(self.text.rstrip(*a))

    def splitlines(self, *a):
        return [encode(x) for x in self.text.splitlines(*a)]

    def partition(self, sep):
        if isinstance(sep, str):
            _typeerr()
        return tuple(encode(x) for x in self.text.partition(sep.decode("latin-1")))

    def index(self, sub, *a):
        if isinstance(sub, str):
            _typeerr()
        return self.text.index(sub.decode("latin-1") if isinstance(sub, bytes) else sub.text)

    def join(self, xs):
        return encode(self.text.join([x.decode("latin-1") if isinstance(x, bytes) else x.text for x in xs]))

    def __contains__(self, x):
        return bool(contains(self.text, x.decode("latin-1") if isinstance(x, bytes) else x))

    def __add__(self, o):
        if isinstance(o, (bytes, bytearray)):
            return encode(self.text + o.decode("latin-1"))
        if isinstance(o, TextBytes):
            return encode(self.text + o.text)
        return _typeerr()

    def __radd__(self, o):
        if isinstance(o, (bytes, bytearray)):
            return encode(o.decode("latin-1") + self.text)
        if hasattr(o, "els") and not o.els:
            return self
        return _typeerr()

    def __bool__(self):
        return bool(self.text)

    def length(self):
        return self.text.length()

    def __len__(self):
        return len(self.text)

    def rfind(self, sub, *a):
        if isinstance(sub, str):
            _typeerr()
        return self.text.rfind(sub.decode("latin-1"), *a)

    def count(self, sub, *a):
        if isinstance(sub, str):
            _typeerr()
        return self.text.count(sub.decode("latin-1"), *a)

    def __getitem__(self, k):
        r = self.text[k]
        if isinstance(k, slice):
            return encode(r)
        return r.parts[0] + 48 if isinstance(r, SymText) else ord(r)

    def __eq__(self, o):
        if isinstance(o, TextBytes):
            return self.text == o.text
        if isinstance(o, bytes):
            return self.text == o.decode("latin-1")
        return False

    __hash__ = None

    def __format__(self, s):
        return "b'" + str(self.text) + "'"

    def _sym_value(self, f):
        return self.text._sym_value(f).encode("ascii")


def _typeerr():
    raise TypeError("a bytes-like object is required, not 'str'")


def _chk(s):
    if s is not None and not isinstance(s, str):
        raise TypeError("must be str")
    if s is not None and any(c.isdigit() or c == "-" for c in s):
        raise Unsupported("digits searched in symbolic text")


def _isnum(q):
    return bool(re.match(r"-?\d", q))


def digits(v):
    """number of characters of the decimal text"""
    k = 1
    top = max(abs(v.lo), abs(v.hi)) if v.lo is not None and v.hi is not None else 10 ** 20
    for i in range(1, 20):
        if 10 ** i > top:
            break
        k = core.ite(core.or_all([cmp_(v, 10 ** i, ">="), cmp_(v, -10 ** i, "<=")]), i + 1, k)
    return k + core.ite(cmp_(v, 0, "<"), 1, 0)


def parts(x):
    if isinstance(x, SymText):
        return list(x.parts)
    if isinstance(x, str):
        return [x] if x else []
    raise TypeError("expected str instance, %s found" % type(x).__name__)


def mk(ps):
    t = SymText(ps)
    if not t.parts:
        return ""
    if all(isinstance(p, str) for p in t.parts):
        r = t.parts[0]
        for p in t.parts[1:]:
            r = r + p
        return r
    return t


class Opaque(str):
    """a placeholder for text with symbolic numbers that still knows them: where the text matters (format strings,
    names, keys, comparisons) it takes a concrete value per path"""
    def __new__(cls, pieces):
        s = str.__new__(cls, "".join(p if isinstance(p, str) else "<int>" for p in pieces))
        s.pieces = pieces
        return s

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return Opaque(self.pieces + (o.pieces if isinstance(o, Opaque) else [str(o)]))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return Opaque([str(o)] + self.pieces)

    def __mul__(self, n):
        return Opaque(self.pieces * n)

    __rmul__ = __mul__

    def concrete(self):
        e = core.E
        if e is None:
            return "".join(self.pieces) if all(isinstance(p, str) for p in self.pieces) else str.__str__(self)
        return "".join(p if isinstance(p, str) else p() if callable(p) else p[1] % e.concretize(p[0])
                       for p in self.pieces)

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        if o is self:
            return True
        if core.E is not None and not isinstance(o, Opaque):
            a, b = self.pieces[0], self.pieces[-1]
            if len(o) == 0:
                return not self
            if isinstance(a, str) and not o.startswith(a) or isinstance(b, str) and not o.endswith(b):
                return False
            ps = [p if isinstance(p, str) else p[0] for p in self.pieces if isinstance(p, str) or not callable(p) and
                  p[1] == "%d" and isinstance(p[0], SymInt)]
            if len(ps) == len(self.pieces):
                try:
                    return bool(eq(SymText(ps), o))
                except Unsupported:
                    pass
        return str.__eq__(plain(self), plain(o))

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.concrete())

    def __bool__(self):
        if any(callable(p) for p in self.pieces):
            return len(self.concrete()) > 0
        return any(not isinstance(p, str) or p for p in self.pieces)

    def __mod__(self, a):
        return percent(self.concrete(), a)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return Opaque([lambda: self.concrete()[k]])
        return self.concrete()[k]

    def length(self):
        n = 0
        for p in self.pieces:
            if isinstance(p, str):
                n = n + len(p)
            elif not callable(p) and p[1] == "%d" and isinstance(p[0], SymInt):
                n = n + digits(p[0])
            else:
                return len(self.concrete())
        return n

    def __len__(self):
        n = self.length()
        return n if type(n) is int else core.E.concretize(n)

    def __iter__(self):
        return iter(self.concrete())

    def __contains__(self, x):
        return plain(x) in self.concrete()

    def __lt__(self, o):
        return self.concrete() < plain(o)

    def __le__(self, o):
        return self.concrete() <= plain(o)

    def __gt__(self, o):
        return self.concrete() > plain(o)

    def __ge__(self, o):
        return self.concrete() >= plain(o)


def plain(x):
    """the native value of a text"""
    return x.concrete() if isinstance(x, Opaque) else x


def number(v, how="%d"):
    return Opaque([(v, how)])


def join_bytes(sep, xs):
    out = b""
    for i, x in enumerate(xs):
        if not isinstance(x, (bytes, bytearray, TextBytes)):
            if isinstance(x, SymBytes):
                raise Unsupported("symbolic bytes joined with symbolic text")
            raise TypeError("sequence item %d: expected a bytes-like object, %s found" % (i, type(x).__name__))
        out = out + (sep + x if i else x)
    return out


def encode(t):
    if isinstance(t, str):
        return t.encode("ascii")
    return TextBytes(t)


def eq(a, b):
    pa, pb = parts(a), parts(b)
    out = []
    i = j = 0
    pa, pb = list(pa), list(pb)
    while pa and pb:
        x, y = pa[0], pb[0]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return False
            pa[0], pb[0] = x[n:], y[n:]
            if not pa[0]:
                pa.pop(0)
            if not pb[0]:
                pb.pop(0)
            continue
        if not isinstance(x, str) and not isinstance(y, str):
            out.append(cmp_(x, y, "=="))
            pa.pop(0)
            pb.pop(0)
            continue
        if isinstance(y, str):
            x, y, px, py = y, x, pb, pa
        else:
            px, py = pa, pb
        # x literal, y number: the literal must start with a decimal number
        m = re.match(r"-?(0|[1-9]\d*)", x)
        if not m or m.group(0) == "-0":
            return False
        out.append(cmp_(y, int(m.group(0)), "=="))
        px[0] = x[m.end():]
        if not px[0]:
            px.pop(0)
        py.pop(0)
    del i, j
    if pa or pb:
        return False
    return core.and_all(out)


def contains(c, x):
    if isinstance(x, SymText):
        raise Unsupported("search of symbolic text")
    if isinstance(c, SymText):
        _chk(x)
        return not x or any(isinstance(p, str) and x in p for p in c.parts)
    r = c.find(x)
    return r >= 0


def to_int(x, base=10):
    if base != 10:
        raise Unsupported("int() of symbolic text in another base")
    if not isinstance(x, SymText):
        return int(plain(x), base)
    p = [q for q in x.strip().parts] if isinstance(x.strip(), SymText) else [x.strip()]
    if len(p) == 1 and not isinstance(p[0], str):
        return p[0]
    if len(p) == 2 and isinstance(p[0], str) and p[0] == "+" and cmp_(p[1], 0, ">="):
        return p[1]
    if all(isinstance(q, str) for q in p):
        return int("".join(p))
    if any(isinstance(q, str) and not re.match(r"^[-+0-9]*$", q) for q in p):
        raise ValueError("invalid literal for int() with base 10")
    raise Unsupported("int() of symbolic text")


def tm():
    e = core.E
    return e is not None and e.text_mode


def to_str(x, *a, **k):
    if isinstance(x, SymText):
        return x
    if isinstance(x, TextBytes):
        return x.text if a or k else "<bytes>"
    if isinstance(x, SymBool):
        return "True" if x else "False" if tm() else "<bool>"
    if isinstance(x, SymInt):
        return SymText([x]) if tm() else number(x)
    if isinstance(x, SYMV):
        if a or k:
            return x.decode(*a, **k)
        return "<sym>"
    if isinstance(x, BaseException) and len(x.args) == 1 and isinstance(x.args[0], SymText) and (
            type(x).__str__ is Exception.__str__):
        return x.args[0]
    if type(x) in (list, tuple) and tm() and _sym_in(x):
        return container(x)
    return str(x, *a, **k)


def _sym_in(x):
    for v in x:
        if isinstance(v, SYMV + (SymText,)):
            return True
        if type(v) in (list, tuple) and _sym_in(v):
            return True
    return False


def container(x):
    out = ["[" if type(x) is list else "("]
    for i, v in enumerate(x):
        if i:
            out.append(", ")
        out.extend(parts(to_repr(v)))
    if type(x) is tuple and len(x) == 1:
        out.append(",")
    out.append("]" if type(x) is list else ")")
    return mk(out)


def to_repr(x):
    if isinstance(x, SymText):
        return "'<text>'"
    if isinstance(x, SYMV):
        return to_str(x)
    if type(x) in (list, tuple) and tm() and _sym_in(x):
        return container(x)
    return repr(x)


PCT = re.compile(r"%(?:\((\w+)\))?([-#0 +]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?(.)", re.S)


def percent(fmt, args):
    if isinstance(fmt, SymText):
        raise Unsupported("format string is symbolic")
    fmt = plain(fmt)
    tup = args if type(args) is tuple else (args,)
    if not any(isinstance(x, SYMV + (SymText, TextBytes)) or isinstance(x, BaseException) or
               (type(x) in (list, tuple) and _sym_in(x)) for x in tup):
        return fmt % args
    out = []
    pos = 0
    n = 0
    for m in PCT.finditer(fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        conv = m.group(5)
        if conv == "%":
            out.append("%")
            continue
        if m.group(1) or m.group(3) == "*":
            raise Unsupported("format " + fmt)
        if n >= len(tup):
            raise TypeError("not enough arguments for format string")
        v = tup[n]
        n += 1
        if conv in "di":
            if isinstance(v, (SymInt, SymBool)):
                if tm():
                    if m.group(2) or m.group(3):
                        raise Unsupported("padded number")
                    out.append(norm(v))
                else:
                    out.append(number(norm(v), "%" + m.group(0)[1:]))
            elif isinstance(v, SymFloat):
                out.append("<float>")
            elif isinstance(v, (SymText, TextBytes, SymBytes)):
                raise TypeError("%d format: a real number is required, not str")
            else:
                out.append(("%" + m.group(0)[1:]) % v)
        elif conv in "sra":
            if isinstance(v, SymText):
                out.extend(v.parts)
            elif conv == "s":
                out.extend(parts(to_str(v)))
            else:
                out.extend(parts(to_repr(v)))
        elif isinstance(v, SYMV):
            if conv in "xXoc" and not isinstance(v, (SymInt, SymBool)):
                raise TypeError("%%%s format: an integer is required" % conv)
            out.append(number(norm(v), m.group(0)) if conv in "xXo" else "<num>")
        else:
            out.append(m.group(0) % v)
    out.append(fmt[pos:])
    if n < len(tup):
        raise TypeError("not all arguments converted during string formatting")
    return mk(out)


def fstr(ps):
    out = []
    for p in ps:
        if isinstance(p, str):
            out.append(p)
            continue
        v, conv, spec = p
        out.extend(parts(fmt1(v, conv, spec)))
    return mk(out)


def fmt1(v, conv, spec):
    if conv == 114:
        v = to_repr(v)
    elif conv == 115:
        v = to_str(v)
    elif conv == 97:
        v = to_repr(v)
    if isinstance(v, (SymText, TextBytes)):
        return to_str(v)
    if isinstance(v, SYMV) or isinstance(v, BaseException):
        if tm() and spec not in (None, "", "d"):
            raise Unsupported("format spec")
        if isinstance(v, SymInt) and re.match(r"^0?\d*[dxXob]$", spec or "") and spec[-1] != "b":
            return number(v, "%" + spec)
        return to_str(v)
    if type(v) in (list, tuple) and tm() and _sym_in(v):
        return to_str(v)
    return format(v, spec or "")


FIELD = re.compile(r"\{\{|\}\}|\{(\w*)(?:!([rsa]))?(?::([^{}]*))?\}")


def str_method(s, name, a, k, f):
    """bound str method of a native string (or of the class str)"""
    if s is str:
        if a and isinstance(a[0], SymText):
            return getattr(a[0], name)(*a[1:], **k)
        return f(*a, **k)
    if name == "format":
        vals = list(a) + list(k.values())
        if any(isinstance(x, SYMV + (SymText, TextBytes, BaseException)) or (type(x) in (list, tuple) and _sym_in(x))
               for x in vals):
            out = []
            pos = 0
            auto = 0
            for m in FIELD.finditer(s):
                out.append(s[pos:m.start()])
                pos = m.end()
                if m.group(0) in ("{{", "}}"):
                    out.append(m.group(0)[0])
                    continue
                key = m.group(1)
                if key == "":
                    key = str(auto)
                    auto += 1
                v = a[int(key)] if key.isdigit() else k[key]
                out.extend(parts(fmt1(v, ord(m.group(2)) if m.group(2) else -1, m.group(3))))
            out.append(s[pos:])
            return mk(out)
        return f(*a, **k)
    if name == "join":
        xs = list(a[0])
        if any(isinstance(x, SymText) for x in xs):
            return SymText([s]).join(xs) if s else mk([p for x in xs for p in parts(x)])
        if any(isinstance(x, Opaque) for x in xs):
            return mk([p for i, x in enumerate(xs) for p in ([s] if i else []) + parts(x)])
        return f(xs)
    if isinstance(s, Opaque):
        if name in ("__str__", "__repr__", "encode"):
            return f(*a, **k)
        if name in ("upper", "lower", "strip", "lstrip", "rstrip", "replace", "ljust", "rjust", "center", "zfill",
                    "title", "capitalize", "expandtabs", "removeprefix", "removesuffix"):
            return Opaque([lambda: getattr(s.concrete(), name)(*[plain(x) for x in a])])
        return str_method(s.concrete(), name, a, k, getattr(s.concrete(), name))
    if any(isinstance(x, SymText) for x in a):
        if name in ("__eq__", "__ne__", "__add__"):
            return getattr(SymText([s]), name)(*a)
        if name == "startswith" or name == "find":
            r = getattr(SymText([s]), name)(*a)
            return r
        raise Unsupported("str.%s with symbolic text" % name)
    if any(isinstance(x, SymInt) for x in a):
        a = tuple(core.cur().concretize(x) if isinstance(x, SymInt) else x for x in a)
    return f(*a, **k)
