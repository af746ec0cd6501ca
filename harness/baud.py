"""Silence intervals of RTU masters and servers (C34)"""
from harness.common import *
from harness.rtu import Port

TOP = 10 ** 9
EPS = 1e-9


def near(ctx, got, k, baud):
    """got is k character times of 11 bits (k times 0.5 ms above 19200), up to rounding"""
    if baud <= 19200:
        return ctx.all([got * baud <= k * 11 * (1 + EPS), got * baud >= k * 11 * (1 - EPS)])
    return ctx.all([got <= k * 0.0005 * (1 + EPS), got >= k * 0.0005 * (1 - EPS)])


def device(ctx, what, baud, **kw):
    port = Port(ctx, baudrate=baud, is_open=False)
    ctx.env = port
    if what == "master":
        d = ctx.keep(ctx.M.modbus_rtu.RtuMaster(port, **kw))
        t = d.get_timeout() if hasattr(d, "get_timeout") else port.timeout
    else:
        d = ctx.keep(ctx.M.modbus_rtu.RtuServer(port, **kw))
        t = d.get_timeout()
    return port, t


def one(ctx, what="master", char=None, frame=None, lo=1, hi=TOP):
    """any baud rate: the port's timeouts are the multiples prescribed"""
    baud = ctx.rate("baud", lo, hi)
    kw = {}
    if char is not None:
        kw["interchar_multiplier"] = char
    if frame is not None:
        kw["interframe_multiplier"] = frame
    port, t = device(ctx, what, baud, **kw)
    char = 1.5 if char is None else char
    frame = 3.5 if frame is None else frame
    ctx.check(port.inter_byte_timeout > 0, "the inter-character timeout is positive")
    ctx.check(port.timeout > 0, "the inter-frame timeout is positive")
    ctx.check(near(ctx, port.inter_byte_timeout, char, baud), "the inter-character timeout is %s characters" % char)
    ctx.check(near(ctx, port.timeout, frame, baud), "the inter-frame timeout is %s characters" % frame)
    ctx.check(near(ctx, t, frame, baud), "the device's timeout is %s characters" % frame)
    if frame > char:
        ctx.check(port.timeout > port.inter_byte_timeout, "the inter-frame timeout is the longer one")
    ctx.check(port.baudrate == baud and not port.is_open, "nothing else of the port is changed")
    ctx.cover("done")


def multipliers(ctx, what="master"):
    """any multipliers"""
    baud = ctx.rate("baud", 1, TOP)
    c = ctx.rate("char", 1, 1000)
    f = ctx.rate("frame", 1, 1000)
    port, t = device(ctx, what, baud, interchar_multiplier=c, interframe_multiplier=f)
    ctx.check(near(ctx, port.inter_byte_timeout, c, baud), "the inter-character timeout follows its multiplier")
    ctx.check(near(ctx, port.timeout, f, baud), "the inter-frame timeout follows its multiplier")
    ctx.cover("done")


def two(ctx, what="master"):
    """any two baud rates: the faster one never has the longer interval"""
    b1 = ctx.rate("baud1", 1, TOP)
    b2 = ctx.rate("baud2", 1, TOP)
    ctx.assume(b1 + 1 <= b2)
    p1, t1 = device(ctx, what, b1)
    p2, t2 = device(ctx, what, b2)
    ctx.check(p2.inter_byte_timeout <= p1.inter_byte_timeout, "a higher baud rate has no longer inter-character timeout")
    ctx.check(p2.timeout <= p1.timeout, "a higher baud rate has no longer inter-frame timeout")
    ctx.check(t2 <= t1, "a higher baud rate has no longer timeout")
    ctx.cover("done")


def given(ctx, what="master"):
    """a character time given by the caller replaces the one of the baud rate"""
    baud = ctx.rate("baud", 1, TOP)
    port, t = device(ctx, "master", baud, t0=0.25)
    ctx.check(port.inter_byte_timeout == 0.375 and port.timeout == 0.875, "the character time given is used")
    ctx.cover("done")


def exact(ctx, what="server"):
    """utils.calculate_rtu_inter_char itself"""
    baud = ctx.rate("baud", 1, TOP)
    t0 = ctx.M.utils.calculate_rtu_inter_char(baud)
    ctx.check(near(ctx, t0, 1, baud), "one character has 11 bits")
    ctx.check(t0 > 0, "it is positive")
    ctx.cover("done")
