"""Model of the struct module for symbolic values (used by the instrumented code; the replay uses the real one)."""
import struct as _real
import re
import z3
from . import core
from .core import SymInt, SymBool, SymBytes, SymFloat, SymList, Unsupported, norm, in_range, narrow, split_bytes, \
    join_bytes, belems, mkbytes, is_intlike
from .text import SymText, TextBytes, plain

error = _real.error


def calcsize(fmt):
    return _real.calcsize(plain(fmt))

INT = {"b": True, "B": False, "h": True, "H": False, "i": True, "I": False, "l": True, "L": False, "q": True,
       "Q": False, "n": True, "N": False}
_CACHE = {}


def parse(fmt):
    """(little, total size, [(code, offset, size)])"""
    if isinstance(fmt, (bytes, bytearray)):
        fmt = bytes(fmt).decode("ascii")
    fmt = plain(fmt)
    if not isinstance(fmt, str):
        raise TypeError("Struct() argument 1 must be a str or bytes object, not %s" % type(fmt).__name__)
    r = _CACHE.get(fmt)
    if r is not None:
        return r
    size = _real.calcsize(fmt)   # raises struct.error on bad formats
    f = fmt
    prefix = "@"
    if f[:1] in ("<", ">", "!", "=", "@"):
        prefix, f = f[0], f[1:]
    import sys
    little = prefix == "<" or (prefix in "=@" and sys.byteorder == "little")
    items = []
    upto = prefix
    for cnt, code in re.findall(r"\s*(\d*)([a-zA-Z?])", f):
        n = int(cnt) if cnt else 1
        if code in "sp":
            start = _real.calcsize(upto + "0" + code)
            items.append((code, start, n))
            upto += "%d%s" % (n, code)
            continue
        for _ in range(n):
            start = _real.calcsize(upto + "0" + code)
            one = _real.calcsize(("=" if prefix in "<>!=" else "@") + code)
            if code != "x":
                items.append((code, start, one))
            upto += code
        if n == 0:
            upto += "0" + code
    if len(_CACHE) < 5000:
        _CACHE[fmt] = (little, size, items)
    return little, size, items


def symbolic(args):
    return any(isinstance(a, (SymInt, SymBool, SymBytes, SymFloat, SymText, TextBytes, SymList)) for a in args)


def pack(fmt, *args):
    if not symbolic(args):
        return _real.pack(plain(fmt), *args)
    little, size, items = parse(fmt)
    if len(items) != len(args):
        raise error("pack expected %d items for packing (got %d)" % (len(items), len(args)))
    buf = [0] * size
    for (code, off, n), a in zip(items, args):
        if code in INT:
            if not is_intlike(a):
                if isinstance(a, (SymFloat, float, str, bytes, SymBytes, SymText, list, tuple, type(None), SymList)):
                    raise error("required argument is not an integer")
                a = a.__index__()
            lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if INT[code] else (0, (1 << (8 * n)) - 1)
            if not in_range(a, lo, hi):
                raise error("'%s' format requires %d <= number <= %d" % (code, lo, hi))
            bs = split_bytes(narrow(norm(a), lo, hi), n)
            if little:
                bs.reverse()
            buf[off:off + n] = bs
        elif code == "?":
            if isinstance(a, SymInt):
                a = core.cmp_(a, 0, "!=")
            buf[off] = a.asint() if isinstance(a, SymBool) else int(bool(a))
        elif code == "c":
            if not isinstance(a, (bytes, bytearray, SymBytes)) or len(a) != 1:
                raise error("char format requires a bytes object of length 1")
            buf[off] = belems(a)[0]
        elif code in "sp":
            if not isinstance(a, (bytes, bytearray, SymBytes)):
                raise error("argument for 's' must be a bytes object")
            el = list(belems(a))
            if code == "p":
                el = el[:max(0, min(n - 1, 255))]
                el = [len(el)] + el
            el = (el + [0] * n)[:n]
            buf[off:off + n] = el
        elif code in "fd":
            buf[off:off + n] = pack_float(code, a, little)
        else:
            if isinstance(a, (SymInt, SymFloat)):
                raise Unsupported("struct code " + code)
            buf[off:off + n] = list(_real.pack(("<" if little else ">") + code, a))
    return mkbytes(buf)


def pack_float(code, a, little):
    if isinstance(a, (SymInt, SymBool)):
        a = core.sfloat(a)
    if not isinstance(a, SymFloat):
        return list(_real.pack(("<" if little else ">") + code, a))
    if code == "d":
        bv = z3.fpToIEEEBV(a.e)
        n = 8
    else:
        f = z3.fpFPToFP(z3.RNE(), a.e, z3.Float32())
        if core.decide(z3.And(z3.fpIsInf(f), z3.Not(z3.fpIsInf(a.e)))):
            raise OverflowError("float too large to pack with f format")
        bv = z3.fpToIEEEBV(f)
        n = 4
    v = SymInt(z3.ZeroExt(1, bv), 0, (1 << (8 * n)) - 1)
    bs = split_bytes(v, n)
    if little:
        bs.reverse()
    return bs


def buffer(b):
    if isinstance(b, TextBytes):
        raise Unsupported("unpack of symbolic text")
    if not isinstance(b, (bytes, bytearray, SymBytes, memoryview)):
        raise TypeError("a bytes-like object is required, not '%s'" % (
            "str" if isinstance(b, SymText) else type(b).__name__))
    return belems(b)


def unpack(fmt, b):
    if not isinstance(b, SymBytes):
        buffer(b)
        return _real.unpack(plain(fmt), b)
    little, size, items = parse(fmt)
    el = b.els
    if len(el) != size:
        raise error("unpack requires a buffer of %d bytes" % size)
    return _un(little, items, el, 0)


def _un(little, items, el, base):
    out = []
    for code, off, n in items:
        x = list(el[base + off:base + off + n])
        if code in INT:
            if little:
                x.reverse()
            out.append(join_bytes(x, INT[code]))
        elif code == "?":
            out.append(core.cmp_(x[0], 0, "!="))
        elif code in "cs":
            out.append(mkbytes(x))
        elif code in "fd":
            if little:
                x.reverse()
            v = join_bytes(x, False)
            if not isinstance(v, SymInt):
                out.append(_real.unpack(">" + code, v.to_bytes(n, "big"))[0])
                continue
            bits = z3.Extract(8 * n - 1, 0, core.ext(v, 8 * n + 1))
            f = z3.fpBVToFP(bits, z3.Float32() if n == 4 else z3.Float64())
            out.append(SymFloat(z3.fpFPToFP(z3.RNE(), f, z3.Float64()) if n == 4 else f))
        else:
            raise Unsupported("struct code " + code)
    return tuple(out)


def unpack_from(fmt, buf, offset=0):
    if not isinstance(buf, SymBytes):
        buffer(buf)
        return _real.unpack_from(plain(fmt), buf, offset)
    little, size, items = parse(fmt)
    if isinstance(offset, SymInt):
        offset = core.cur().concretize(offset)
    n = len(buf.els)
    if offset < 0:
        if offset + n < 0:
            raise error("offset out of range")
        offset += n
    if n - offset < size:
        raise error("unpack_from requires a buffer of at least %d bytes" % (size + offset))
    return _un(little, items, buf.els, offset)


def iter_unpack(fmt, buf):
    little, size, items = parse(fmt)
    el = list(buffer(buf))
    if size == 0 or len(el) % size:
        raise error("iterative unpacking requires a buffer of a multiple of %d bytes" % size)
    return iter([_un(little, items, el, i) for i in range(0, len(el), size)])


def pack_into(fmt, buf, offset, *args):
    data = list(belems(pack(fmt, *args)))
    if isinstance(offset, SymInt):
        offset = core.cur().concretize(offset)
    if isinstance(buf, SymBytes):
        if offset < 0:
            offset += len(buf.els)
        if offset < 0 or offset + len(data) > len(buf.els):
            raise error("pack_into requires a buffer of at least %d bytes" % (offset + len(data)))
        buf[offset:offset + len(data)] = SymBytes(data)
        return
    _real.pack_into(plain(fmt), buf, offset, *args)


class Struct(object):
    def __init__(self, fmt):
        self.format = fmt
        self.size = calcsize(fmt)

    def pack(self, *a):
        return pack(self.format, *a)

    def unpack(self, b):
        return unpack(self.format, b)

    def unpack_from(self, buffer, offset=0):
        return unpack_from(self.format, buffer, offset)

    def iter_unpack(self, b):
        return iter_unpack(self.format, b)

    def pack_into(self, buf, offset, *a):
        return pack_into(self.format, buf, offset, *a)
