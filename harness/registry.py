"""Which harnesses decide which property, within which bounds"""
from symex.runner import Job
from harness.bounds import B
from harness.exchanges import SPECS, chunks
from harness.requests import KINDS, stars

COMMON_ASSUMPTIONS = [
    "Python semantics as implemented by the symbolic executor (ints, bytes, lists, dicts, struct, exceptions); sampled "
    "paths and every counterexample are replayed on the un-instrumented code under CPython",
    "logging has no effect; sockets, serial ports, clock and threads are the stubs of symex/stubs.py driven by the harness",
]
PROPS = {}


# sequences of requests in which every ordered pair of the kinds occurs
MIXED = {
    "C01": (("db", ("rc", "rd", "wc", "wcs", "set coils", "bad quantity", "bad value", "wrs", "bad function"), True),),
    "C02": (("db", ("rh", "ri", "wr", "wrs", "rw", "mask", "set", "redefine", "other", "read other", "bad quantity", "bad write"), True),
            ("db", ("rh", "ri", "wr", "wrs", "rw", "set", "redefine", "other", "read other"), False)),
    "C03": (("db", ("bad address", "bad quantity", "bad value", "bad function", "bad rw", "bad write", "rh", "rc", "wrs", "wcs"),
             True),),
    "C04": (("db", ("wc", "wr", "rc", "rh", "bad value", "bad write", "wcs", "wrs", "redefine", "everyone"), True),
            ("db", ("wc", "wr", "rh", "set"), False)),
    "C05": (("db", ("wcs", "wrs", "wc", "wr", "rc", "rh", "bad write", "redefine", "set", "set coils"), True),
            ("db", ("wrs", "wr", "rh", "set"), False)),
    "C06": (("db", ("mask", "wr", "wrs", "rh", "set", "bad write", "everyone", "redefine"), True),
            ("db", ("mask", "wr", "rh", "set"), False)),
    "C07": (("db", ("rw", "bad rw", "wr", "rh", "wrs", "mask", "set", "redefine"), True),
            ("db", ("rw", "bad rw", "wr", "rh", "set"), False)),
    "C08": (("db", KINDS, True),),
    "C09": (("tcp", ("other", "read other", "nobody", "wr", "rh", "everyone", "bad address", "replace", "toggle"), True),
            ("rtu", ("other", "read other", "nobody", "wr", "rh", "everyone", "replace", "toggle"), True)),
    "C10": (("tcp", ("everyone", "wr", "rh", "other", "read other", "nobody", "mask", "replace", "toggle"), True),
            ("rtu", ("everyone", "wr", "rh", "other", "read other", "nobody", "replace", "toggle"), True)),
    "C12": (("db", ("set", "set coils", "get", "redefine", "wr", "wcs", "bad write", "rw"), True),
            ("db", ("set", "get", "redefine", "wr"), False)),
    "C13": (("tcp", ("other", "read other", "replace", "toggle", "everyone", "wr", "rh", "nobody"), True),
            ("db", ("other", "read other", "replace", "toggle", "everyone", "wr"), True)),
    "C15": (("tcp", KINDS, True),),
    "C20": (("tcp", ("wc", "wr", "wcs", "wrs", "mask", "rw", "set", "set coils", "rh", "rc", "ri", "rd"), True),
            ("rtu", ("wc", "wr", "wcs", "wrs", "mask", "rw", "set", "rh", "rc", "other", "read other"), False)),
    "C21": (("tcp", ("wrs", "wcs", "rh", "rc", "bad function", "bad address", "nobody", "everyone", "rw"), True),),
    "C25": (("rtu", KINDS, True),),
}


STREAKS = ("C08", "C09", "C10", "C15", "C21", "C25")


def mixed(pid):
    jobs = []
    for over, kinds, unsigned in MIXED.get(pid, ()):
        for c in stars(kinds, 14):
            jobs.append(J("requests.sequence", over=over, kinds=c, unsigned=unsigned))
        for kind in (kinds if pid in STREAKS else ()):
            jobs.append(J("requests.sequence", over=over, kinds=(kind,) * 13 + ("rh", kind, "rc"), unsigned=unsigned))
    return jobs


def prop(pid, jobs, assumptions=(), budget=None):
    bounds, outside = B.get(pid, ("see harness/registry.py", ""))
    own = jobs
    jobs = (lambda tier: own(tier) + mixed(pid)) if pid in MIXED else own
    PROPS[pid] = dict(jobs=jobs, bounds=bounds, outside=outside, assumptions=list(assumptions), budget=budget or {})


def J(h, covers=("done",), seconds=200, **params):
    opts = {}
    for k in ("paths", "merge", "kind", "attr_hooks"):
        if k + "_" in params:
            opts[k] = params.pop(k + "_")
    return Job(h, params, covers=covers, seconds=seconds, **opts)


UN = (True, False)


def rereads(T, which):
    return [J("slave.reread", fc=fc, change=c, n=4 if T else 3, unsigned=(fc + len(str(c))) % 2 > 0, twice=2 if T else 1)
            for fc, cs in which for c in cs]


LONG_BITS = tuple(range(18, 41)) + (47, 48, 49, 63, 64, 65, 79, 80, 81, 95, 96, 97, 120, 121, 127, 128, 129, 160, 192, 200, 247, 248, 249,
                                   254, 255, 256, 257, 258, 264, 300, 320, 384, 400, 500, 511, 512, 513, 600, 640, 750, 768, 800, 900,
                                   999, 1000, 1001, 1016, 1023, 1024, 1025, 1100, 1200, 1250, 1280, 1300, 1400, 1500, 1535, 1536, 1537,
                                   1600, 1700, 1792, 1800, 1900)


def c01(tier):
    T = tier == "thorough"
    jobs = []
    for fc in (1, 2):
        for u in UN:
            jobs.append(J("slave.read_bits", fc=fc, n=24 if T else 18, unsigned=u))
            for q in (1, 2, 3, 4, 5, 7, 8, 9, 16, 17) if T else (1, 3, 5, 8, 9, 16):
                jobs.append(J("slave.big_read", fc=fc, q=q, unsigned=u))
            for q in range(17, 41) if T else (17, 20, 31, 33):
                jobs.append(J("slave.read_bits", fc=fc, n=q + 17, q=q, start=70, unsigned=u, neighbours_too=False))
    tail = (1960, 1967, 1968, 1969, 1976, 1983, 1984) + tuple(range(1985, 2001))
    for q in (range(1, 2001) if T else LONG_BITS + tail):
        jobs.append(J("slave.read_bits", seconds=600, fc=1 + q % 2, n=q + q % 9 + 1, q=q, off=q % 9, start=70 + q % 13,
                      unsigned=q % 3 > 0, neighbours_too=False))
    return jobs + rereads(T, ((1, (5, 15, "set", "again")), (2, ("set", "again"))))


prop("C01", c01)


def c02(tier):
    T = tier == "thorough"
    jobs = []
    for fc in (3, 4):
        for u in UN:
            jobs.append(J("slave.read_regs", fc=fc, n=18 if T else 12, unsigned=u))
            for q in (1, 2, 3, 4, 5, 6, 7, 8, 9) if T else (1, 2, 3, 5, 8):
                jobs.append(J("slave.big_read", fc=fc, q=q, unsigned=u))
            for q in range(9, 126):
                if T or (q + fc + u) % 2:
                    jobs.append(J("slave.read_regs", fc=fc, n=q + q % 9 + 1, q=q, off=None if T else q % 9, start=70 + q % 13, unsigned=u,
                                  neighbours_too=False))
    return jobs + rereads(T, ((3, (6, 16, 22, 23, "set", "again")), (4, ("set", "again"))))


prop("C02", c02)


def c03(tier):
    T = tier == "thorough"
    jobs = []
    for fc in (1, 2, 3, 4):
        lim = 2000 if fc < 3 else 125
        vq = (1, 2, lim - 1, lim)
        jobs.append(J("slave.refusal_read", ("accepted", "refused"), fc=fc, nblocks=1, valid_q=(1, lim), unsigned=False))
        for nb in (1, 2, 3):
            jobs.append(J("slave.refusal_read", ("accepted", "refused"), fc=fc, nblocks=nb, valid_q=vq if nb < 3 or T else (1, lim)))
    for fc in (15, 16):
        for nb in (1, 2, 3) if T else (1, 2):
            for k in (1, 2, 3, 4, 6) if T else (2, 4):
                jobs.append(J("slave.refusal_write", fc=fc, nblocks=nb, nbytes=k))
        jobs.append(J("slave.refusal_write", fc=fc, nblocks=1, nbytes=4, unsigned=False))
        for k in (246, 128, 250) if T else (246,):
            jobs.append(J("slave.refusal_write", fc=fc, nblocks=1, nbytes=k))
    for fc in (5, 6, 22):
        for nb in (1, 2, 3):
            jobs.append(J("slave.refusal_single", fc=fc, nblocks=nb))
        jobs.append(J("slave.refusal_single", fc=fc, nblocks=1, unsigned=False))
    return jobs


prop("C03", c03)


def c04(tier):
    T = tier == "thorough"
    jobs = []
    for fc in (5, 6):
        for u in UN:
            jobs.append(J("slave.write_single", fc=fc, n=24 if T else 12, unsigned=u))
            jobs.append(J("slave.big_write_single", fc=fc, unsigned=u))
    return jobs + rereads(T, ((1, (5,)), (3, (6,))))


prop("C04", c04)


def c05(tier):
    T = tier == "thorough"
    jobs = []
    for u in UN:
        jobs.append(J("slave.write_multi", fc=16, n=14 if T else 10, unsigned=u))
        jobs.append(J("slave.write_multi", fc=15, n=20 if T else 14, unsigned=u))
        for q in ((1, 2, 3, 4, 5) if T else (1, 2, 3)):
            jobs.append(J("slave.big_write", fc=16, q=q, unsigned=u))
        for q in ((1, 2, 3, 5, 7, 8, 9) if T else (1, 3, 8, 9)):
            jobs.append(J("slave.big_write", fc=15, q=q, unsigned=u))
        for q in range(15, 41) if T else (16, 17, 20, 25, 33):
            jobs.append(J("slave.write_multi", fc=15, n=q + 17, q=q, start=70, unsigned=u, neighbours_too=False))
        for q in range(8, 124):
            if T or (q + u) % 2:
                jobs.append(J("slave.write_multi", fc=16, n=q + q % 9 + 2, q=q, off=None if T else q % 9, start=70 + q % 13, unsigned=u,
                              neighbours_too=False))
    tail = (1929, 1935, 1936, 1937, 1944, 1951, 1952) + tuple(range(1953, 1969))
    for q in range(1, 1969) if T else LONG_BITS + tail:
        jobs.append(J("slave.write_multi", seconds=600, fc=15, n=q + q % 9 + 2, q=q, off=q % 9, start=70 + q % 13, unsigned=q % 3 > 0,
                      neighbours_too=False))
    return jobs + rereads(T, ((1, (15,)), (3, (16,))))


prop("C05", c05)


def c06(tier):
    jobs = []
    for u in UN:
        jobs.append(J("slave.mask_write", n=5, unsigned=u))
        jobs.append(J("slave.big_mask_write", unsigned=u))
    return jobs + rereads(tier == "thorough", ((3, (22,)),))


prop("C06", c06)


def c07(tier):
    T = tier == "thorough"
    jobs = []
    for u in UN:
        jobs.append(J("slave.rdwr", n=6 if T else 5, unsigned=u))
        jobs.append(J("slave.rdwr", n=4, unsigned=u, two=True))
        for nb in (2, 4, 6):
            jobs.append(J("slave.rdwr_refused", n=4, nbytes=nb, unsigned=u))
        for qr, qw in ((1, 1), (2, 2), (3, 1), (1, 3)):
            jobs.append(J("slave.big_rdwr", qr=qr, qw=qw, unsigned=u))
        for qr, qw in ((125, 123), (1, 123), (125, 1), (64, 63), (9, 17), (33, 2), (2, 33), (100, 100), (121, 123), (120, 121)) + (
                tuple((q, q * 7 % 123 + 1) for q in range(1, 126)) if T else ()):
            jobs.append(J("slave.rdwr", n=126, qr=qr, qw=qw, unsigned=u, ro=qw % (127 - qr), wo=qr % (127 - qw)))
    jobs += rereads(T, ((3, (23,)),))
    return jobs


prop("C07", c07)


def c08(tier):
    T = tier == "thorough"
    jobs = []
    for n in list(range(0, 21 if T else 13)) + [253]:
        jobs.append(J("slave.any_pdu", length=n, codes="unknown"))
    for fc in (1, 2, 3, 4, 7):
        for n in list(range(1, 16 if T else 9)) + [253]:
            jobs.append(J("slave.any_pdu", length=n, fc=fc))
    for fc in (5, 6, 15, 16, 22, 23):
        for n in range(1, 22 if T else 16):
            jobs.append(J("slave.any_pdu", length=n, fc=fc, unsigned=n % 2 == 0))
    for fc in (15, 16, 23):
        for u in UN:
            for q, cut in ((9, 1), (17, 1), (17, 2), (4, -1), (4, -2), (8, 1), (1, 1), (33, 4), (100, 1), (1000, 1)) if fc == 15 else (
                    (2, 1), (3, 2), (3, 3), (3, 4), (2, -1), (2, -2), (1, 1), (1, 2), (20, 1), (20, 2), (100, 1), (100, 150)):
                jobs.append(J("slave.damaged_write", fc=fc, q=q, cut=cut, unsigned=u))
    for fc in (1, 2, 3, 4, 5, 6, 7, 15, 16, 22, 23):
        jobs.append(J("slave.raised", fc=fc, unsigned=fc % 2 > 0))
    return jobs


prop("C08", c08)


def c09(tier):
    T = tier == "thorough"
    jobs = []
    for fr in ("tcp", "rtu"):
        for n in (0, 1, 2, 3) + ((4, 5, 6) if T else ()):
            for fc in (3, 6, 16, 15):
                for err in UN:
                    jobs.append(J("reg.addressed", ("absent",) + (("answered",) if n else ()), nslaves=n, framing=fr,
                                  fc=fc, err=err))
        for fc in (1, 22, 23, 99, 8):
            jobs.append(J("reg.addressed", ("absent", "answered"), nslaves=2, framing=fr, fc=fc))
    for ops, fc, fr in ((("add", "ask", "remove", "ask", "add"), 6, "raw"), (("add", "add", "ask", "remove"), 3, "tcp"),
                        (("add", "ask", "clear", "ask", "add"), 6, "rtu"), (("add", "look", "remove", "add", "look"), 6, "raw"),
                        (("add", "add", "ask", "ask"), 6, "raw")):
        jobs.append(J("reg.addressed_history", ("absent", "answered", "done"), ops=ops, fc=fc, framing=fr))
    if T:
        for ops in (("add", "ask", "remove", "ask", "add", "ask", "remove"), ("add", "ask", "add", "ask", "remove", "ask"),
                    ("add", "add", "add", "ask", "remove", "ask")):
            for fc in (3, 6):
                jobs.append(J("reg.addressed_history", ("absent", "answered", "done"), seconds=600, ops=ops, fc=fc, framing="tcp" if fc == 3 else "rtu"))
    for over in ("tcp", "rtu"):
        for fcs, err in (((6, 3), True), ((3, 99), False), ((16, 6), True), ((6, 6, 3), False)):
            if len(fcs) < 3 or T:
                jobs.append(J("layers.addressed", ("absent", "answered", "done"), over=over, fcs=fcs, err=err))
    jobs.append(J("many.slaves", n=40))
    return jobs


prop("C09", c09)


def c10(tier):
    T = tier == "thorough"
    jobs = []
    for fc in (5, 6, 22):
        for fr in ("raw", "tcp", "rtu"):
            jobs.append(J("reg.broadcast", fc=fc, framing=fr))
    for fc in (15, 16):
        for q in (1, 2, 3):
            jobs.append(J("reg.broadcast", fc=fc, q=q))
    for q, qr in ((1, 1), (2, 1), (1, 2), (2, 3), (3, 1)):
        jobs.append(J("reg.broadcast", fc=23, q=q, qr=qr))
    for fc in (15, 16, 23):
        for fr in ("tcp", "rtu"):
            jobs.append(J("reg.broadcast", fc=fc, q=2, framing=fr))
    for fc in (1, 2, 3, 4):
        jobs.append(J("reg.broadcast", fc=fc))
    for n in range(0, 17 if T else 13):
        for fc in (5, 6, 15, 16, 22, 23, 7) if n else (None,):
            jobs.append(J("reg.broadcast", fc=fc, length=n))
    for w in (0, 1, 2):
        jobs.append(J("reg.broadcast_hook", which=w))
    for over in ("tcp", "rtu"):
        for fc in (1, 2, 3, 4, 5, 6, 7, 15, 16, 22, 23, 99):
            jobs.append(J("layers.broadcast", over=over, fc=fc))
        for fc in (16, 23):
            jobs.append(J("layers.broadcast", over=over, fc=fc, q=2))
    for n, fc in ((40, 6), (40, 16), (255, 6)):
        jobs.append(J("many.broadcast", n=n, fc=fc))
    return jobs


prop("C10", c10)


def c11(tier):
    T = tier == "thorough"
    AR = ("accepted", "refused", "done")
    jobs = [J("reg.block_history", AR, ops=("add", "add", "add"), tables_used="H", names=0),
            J("reg.block_history", AR, ops=("add", "add", "add"), tables_used="C", names=0),
            J("reg.block_history", AR, ops=("add", "add", "remove", "add"), tables_used="H", names=3),
            J("reg.block_history", ("done",), ops=("any", "any", "any"), tables_used="H", names=2),
            J("reg.block_history", ("done",), ops=("add", "clear", "add", "add"), tables_used="D", names=0),
            J("reg.block_history", ("done",), ops=("add", "any", "any"), tables_used="HI", names=2),
            J("reg.no_ghosts", ops=("add", "add", "remove", "add")),
            J("reg.no_ghosts", ops=("add", "add", "add")),
            J("reg.no_ghosts", ops=("add", "add", "remove", "remove")),
            J("reg.block_history", ("done",), ops=("add", "touch", "remove", "touch", "add"), tables_used="H", names=1),
            J("reg.block_history", ("done",), ops=("add", "ask", "clear", "ask", "add"), tables_used="C", names=0),
            J("reg.block_history", ("done",), ops=("add", "touch", "ask", "remove", "add"), tables_used="H", names=1),
            J("reg.bad_table")]
    if T:
        jobs += [J("reg.block_history", AR, seconds=700, ops=("add", "add", "any", "any"), tables_used="HC", names=3),
                 J("reg.block_history", ("done",), seconds=700, ops=("any", "any", "any"), tables_used="HI", names=2),
                 J("reg.block_history", AR, seconds=700, ops=("add", "add", "add", "add"), tables_used="H", names=0),
                 J("reg.block_history", AR, seconds=700, ops=("add", "add", "add", "remove", "add"), tables_used="H",
                   names=3)]
    for n in (20, 60):
        jobs.append(J("many.blocks", n=n))
    return jobs


prop("C11", c11)


def c12(tier):
    T = tier == "thorough"
    SR = ("stored", "refused")
    jobs = []
    for t in "CDHI":
        jobs.append(J("reg.local_read", ("read", "refused"), n=16 if T else 10, table=t))
        jobs.append(J("reg.local_access", SR, kind="scalar", table=t))
        for k in range(0, 8):
            jobs.append(J("reg.local_access", SR if k < 6 else ("refused",), kind="list", count=k, table=t))
    for k in (0, 1, 3, 5):
        jobs.append(J("reg.local_access", SR, kind="tuple", count=k))
        jobs.append(J("reg.local_access", SR, kind="range", count=k))
    jobs.append(J("reg.local_access", ("refused",), kind="list", count=6))
    for k in (1, 2, 3, 5, 9) + ((17, 40) if T else ()):
        jobs.append(J("reg.local_big", SR, count=k))
    jobs.append(J("reg.local_big", SR, count=1, scalar=True))
    jobs.append(J("reg.local_unknown"))
    for u in UN:
        for ops in (("set", "get", "write", "get"), ("write", "set", "get", "set"), ("get", "write", "write", "set")):
            jobs.append(J("reg.local_history", ("done",), ops=ops, unsigned=u))
        if T:
            jobs.append(J("reg.local_history", ("done",), seconds=600, ops=("set", "write", "get", "set", "write"), unsigned=u))
    return jobs


prop("C12", c12)


def c13(tier):
    T = tier == "thorough"
    jobs = [J("reg.slave_history", ops=("add", "add", "add", "remove")),
            J("reg.slave_history", ops=("add", "remove", "add", "get")),
            J("reg.slave_history", ops=("add", "add", "clear", "add")),
            J("reg.slave_history", ops=("any", "any", "any"))]
    if T:
        jobs.append(J("reg.slave_history", seconds=600, ops=("any", "any", "any", "any")))
        jobs.append(J("reg.slave_history", seconds=600, ops=("add", "add", "any", "any", "any"), lo=-100000, hi=100000))
    for n in (20, 255):
        jobs.append(J("many.slaves", n=n, probe=1 if n > 100 else 3))
    return jobs


prop("C13", c13)

NOT_APPLICABLE = {
    "C37": "hmi/ is Python 2 code over a web framework that is not installed and does not even parse on the available "
           "interpreter, so there is no code that could be executed symbolically",
}


def c14(tier):
    T = tier == "thorough"
    jobs = []
    for n in (range(0, 260) if T else list(range(0, 20)) + [64, 100, 127, 128, 200, 252, 253, 254]):
        jobs.append(J("query.tcp_build", ("built", "refused"), n=n))
    for n in (range(0, 261) if T else list(range(0, 24)) + [100, 128, 255, 256, 257, 259, 260]):
        jobs.append(J("query.tcp_parse", ("accepted", "rejected") if n >= 7 else ("rejected",), n=n))
    for n in (6, 7, 9):
        for k in (0, 1, 253):
            jobs.append(J("query.tcp_parse", ("rejected",), n=n, reqlen=k, dirty=True))
    for n in (8, 9, 10, 11, 12):
        for fc in (1, 3):
            jobs.append(J("query.tcp_execute", ("rejected",), n=n, fc=fc))
    for n in (range(0, 20) if T else (6, 7, 9, 10, 11, 12)):
        jobs.append(J("tcpmaster.any_answer", ("data", "error") if n > 10 else ("error",), n=n, end="idle"))
    from harness.layers import CALLS
    for call in CALLS:
        jobs.append(J("layers.sent_frame", over="tcp", call=call))
    return jobs


prop("C14", c14)


def c15(tier):
    T = tier == "thorough"
    jobs = []
    for n in (range(0, 261) if T else list(range(0, 24)) + [100, 128, 255, 256, 257, 259, 260]):
        jobs.append(J("query.tcp_server_parse", ("accepted", "rejected") if n >= 7 else ("rejected",), n=n))
    for n in (7, 8, 12, 260):
        for k in (range(0, 254) if T and n == 12 else (0, 1, 2, 5, 253)):
            jobs.append(J("query.tcp_server_build", n=n, k=k))
    for n in range(6, 24 if T else 20):
        jobs.append(J("query.tcp_server_execute", ("answered",) if n > 7 else ("silent",) if n < 7 else (), n=n))
    for fc in (5, 6, 15, 16, 22, 23):
        for n in (0, 6, 7, 8, 11, 12, 13, 14, 15, 16):
            jobs.append(J("query.tcp_server_refuses", n=n, fc=fc))
    for n in range(0, 30 if T else 15):
        jobs.append(J("layers.tcp_frames", ("answered", "silent") if n > 6 else ("silent",), n=n))
    jobs.append(J("tcpserver.writes", cuts=0))
    return jobs


prop("C15", c15)


def c16(tier):
    T = tier == "thorough"
    jobs = []
    for n in (range(0, 254) if T else (0, 1, 2, 5, 60, 253)):
        jobs.append(J("query.rtu_build", ("built", "refused"), n=n))
        jobs.append(J("query.rtu_build", ("built",), n=n, side="response"))
    for side in ("server", "master"):
        for n in (range(0, 257) if T else list(range(0, 10)) + [64, 255, 256]):
            jobs.append(J("query.rtu_parse", ("accepted", "rejected") if n > 2 else ("rejected",), n=n, side=side))
        for n in (2, 4, 7):
            jobs.append(J("query.rtu_parse", ("rejected",), n=n, side=side, dirty=True))
    for fc in (5, 6, 15, 16, 22, 23):
        for n in (3, 4, 8, 10, 11, 15):
            jobs.append(J("query.rtu_execute", n=n, fc=fc))
    for n in range(1, 20 if T else 11):
        jobs.append(J("layers.rtu_damaged", n=n))
        if n > 3:
            jobs.append(J("layers.rtu_valid", n=n))
    for n in (64, 128, 129, 255, 256):
        jobs.append(J("layers.rtu_damaged", n=n))
        jobs.append(J("layers.rtu_valid", n=n))
    from harness.layers import CALLS
    for over in ("serial", "gate"):
        for call in CALLS:
            jobs.append(J("layers.sent_frame", over=over, call=call))
        for n in range(0, 13 if T else 9):
            jobs.append(J("rtu.any_answer", ("data", "error") if n > 6 else ("error",), n=n, over="serial" if over == "serial" else "tcp"))
    return jobs


prop("C16", c16)


def c17(tier):
    T = tier == "thorough"
    jobs = []
    for side in ("server", "master"):
        for n in (range(3, 65) if T else range(3, 17)):
            jobs.append(J("query.rtu_corrupted", ("accepted", "rejected"), n=n, side=side))
        for n in ([100, 128, 200, 254, 255, 256] if T else [256]):
            jobs.append(J("query.rtu_corrupted", ("accepted", "rejected"), n=n, side=side, seconds=400))
    for n in range(4, 25 if T else 10):
        jobs.append(J("layers.rtu_corrupted", ("accepted", "rejected"), n=n))
    for over in ("serial", "tcp"):
        for n in ((5, 7, 9) if over == "serial" else (7, 9)) + ((11, 13, 25) if T else ()):
            jobs.append(J("layers.master_corrupted", ("accepted", "rejected"), over=over, n=n))
        jobs.append(J("layers.master_corrupted", ("accepted", "rejected"), over=over, n=8, fc=6))
    return jobs


prop("C17", c17)


def call_sequences(over, size=10, bads=(), specs=SPECS):
    """sequences of calls in which every ordered pair of `specs` occurs; every third call fails when `bads` are given"""
    jobs = []
    for k, c in enumerate(chunks(specs, size)):
        bad = tuple(bads[(k + i // 3) % len(bads)] if i % 3 == k % 3 else None for i in range(len(c))) if bads else ()
        jobs.append(J("exchanges.calls", over=over, specs=c, bad=bad))
    return jobs


def c18(tier):
    T = tier == "thorough"
    SR = ("sent", "refused")
    jobs = []
    for fc in (1, 2, 3, 4):
        jobs.append(J("master.req_read", ("refused",), fc=fc))
        for q in (list(range(0, 260)) + [1000, 1968, 1999, 2000, 2001, 4096, 32767, 32768, 65535] if T else
                  (0, 1, 7, 8, 9, 125, 126, 255, 256, 2000, 2001, 65535)):
            jobs.append(J("master.req_read", SR, fc=fc, qty=q))
    jobs += [J("master.req_single", SR, fc=5), J("master.req_single", SR, fc=6), J("master.req_mask", SR)]
    for n in (list(range(0, 40)) + [255, 256, 257, 1967, 1968] if T else (0, 1, 3, 7, 8, 9, 16, 17, 1968)):
        jobs.append(J("master.req_coils", SR, n=n, kind="list" if n % 2 else "tuple"))
    for n in (1, 3, 9):
        jobs.append(J("master.req_coils", SR, n=n, hi=70000))
    for n in (list(range(0, 124)) if T else (0, 1, 2, 3, 8, 122, 123)):
        jobs.append(J("master.req_regs", SR, n=n, kind="list" if n % 2 else "tuple"))
    for n in (4, 8):
        for f in range(3, n, 2):
            jobs.append(J("master.req_regs", SR, n=n, free=(f - 1, f)))
    W, S, DW, DS = (0, 0xFFFF), (-0x8000, 0x7FFF), (0, 0xFFFFFFFF), (-0x80000000, 0x7FFFFFFF)
    for fmt, lims in ((">HH", (W, W)), (">hh", (S, S)), (">I", (DW,)), (">i", (DS,)), (">HhI", (W, S, DW)),
                      ("<H", (W,)), (">Q", ((0, 2 ** 64 - 1),))):
        jobs.append(J("master.req_regs_format", SR, fmt=fmt, lims=lims))
    for n, q in ((1, 1), (2, 3), (3, 125), (0, 1), (121, 125)) + (((40, 17), (100, 100)) if T else ()):
        jobs.append(J("master.req_rdwr", SR, n=n, qty=q))
    for qs in ((1,), (2, 3), (1, 4, 2), (10, 10, 10), (1,) * 19, tuple(range(1, 34)), (2,) * 35) + (
            ((0,), (1, 1, 1, 1, 1)) + tuple([(1,) * n for n in range(6, 36)]) if T else ()):
        jobs.append(J("master.req_files", SR, n=len(qs), qtys=qs))
    for k in range(6):
        jobs.append(J("master.req_files_bad", ("refused",), case=k))
    jobs += [J("master.req_other", ("sent",), case="status"), J("master.req_other", SR, case="devinfo"),
             J("master.req_other", ("refused",), case="unknown")]
    for n in (0, 1, 2, 4, 100):
        jobs.append(J("master.req_other", SR, case="diag", n=n))
    for n in (0, 1, 5, 253):
        jobs.append(J("master.req_other", ("sent",), case="raw", n=n))
    for fr in ("tcp", "rtu"):
        for fc in (1, 3, 6):
            jobs.append(J("master.req_unit", SR, framing=fr, fc=fc))
    from harness.layers import CALLS
    for over in ("tcp", "serial", "gate"):
        for call in CALLS:
            jobs.append(J("layers.sent_frame", over=over, call=call))
    jobs += call_sequences("tcp", 10)
    return jobs


prop("C18", c18)


def c19(tier):
    T = tier == "thorough"
    jobs = []

    def ans(fc, qty, size, ns):
        for n in ns:
            cov = ("data", "error") if n == size else ("error",)
            jobs.append(J("master.answered", cov, fc=fc, qty=qty, n=n))
    for fc in (1, 2):
        for q in (list(range(1, 34)) + [1999, 2000] if T else (1, 2, 7, 8, 9, 16, 17, 2000)):
            z = 2 + (q + 7) // 8
            ans(fc, q, z, list(range(0, z + 4)) if z < 9 else (z - 1, z, z + 1))
    for fc in (3, 4, 23):
        for q in (list(range(1, 20)) + [60, 124, 125] if T else (1, 2, 3, 125)):
            z = 2 + 2 * q
            ans(fc, q, z, list(range(0, z + 4)) if z < 9 else (z - 2, z - 1, z, z + 1, z + 2))
    for fc in (5, 6):
        ans(fc, 1, 5, range(0, 10))
    for fc in (15, 16):
        ans(fc, 3, 5, range(0, 10))
    ans(22, 1, 7, range(0, 11))
    ans(7, 1, 2, range(0, 5))
    for q in (0, 1, 2, 4):
        ans(8, q, 3 + q, range(0, 9))
    ans(8, 250, 253, (252, 253))
    for n in (0, 1, 2, 3, 10, 40, 253):
        jobs.append(J("master.answered", ("data", "error") if n > 1 else ("error",), fc=43, qty=1, n=n))
    for qs in ((1,), (2,), (1, 2), (3, 1, 2), (124,), (1,) * 35, (11,) * 10) + (((5, 5, 5, 5), (40,), (60, 63)) if T else ()):
        z = 2 + sum(2 + 2 * q for q in qs)
        ans(20, qs, z, sorted(set([0, 1, 2, 3, z - 2, z - 1, z, z + 1, z + 2])))
    for fc in (3, 4, 23, 0):
        for q, fmt, kinds in ((2, ">I", (4,)), (2, ">i", (-4,)), (2, ">hh", (-2, -2)), (4, ">Hih", (2, -4, -2)),
                              (4, ">q", (-8,)), (2, ">BBH", (1, 1, 2)), (3, ">I", (4,)), (1, ">I", (4,))):
            if fc:
                jobs.append(J("master.formatted", ("error",) if sum(map(abs, kinds)) != 2 * q else ("data",), fc=fc, qty=q,
                              fmt=fmt, kinds=kinds))
    for fc in (1, 3, 5, 6, 16, 22, 43, 0):
        for n in (0, 1, 2, 3, 5, 7):
            jobs.append(J("master.raw_returned", ("data", "error") if n > 1 else ("error",), fc=fc, qty=2, n=n))
    for n, fmt in ((4, ">BH"), (3, ">BH"), (5, ">BH"), (9, ">II"), (2, ">B"), (0, ">B"), (1, ">B")):
        jobs.append(J("master.raw_call", ("error",), n=n, fmt=fmt))
    for n in (9, 10, 11, 12):
        jobs.append(J("tcpmaster.any_answer", ("data", "error") if n > 10 else ("error",), n=n, end="eof"))
    for n in (5, 6, 7, 8):
        for over in ("serial", "tcp"):
            jobs.append(J("rtu.any_answer", ("data", "error") if n > 6 else ("error",), n=n, over=over))
            jobs.append(J("rtu.any_answer", ("data", "error") if n > 7 else ("error",), n=n, fc=6, over=over))
    jobs += call_sequences("tcp", 10, ("exception", "cut", "silence"))
    jobs += call_sequences("serial", 10)
    return jobs


prop("C19", c19)


def c21(tier):
    T = tier == "thorough"
    jobs = []
    for sz in ((9, 10), (8,), (7, 12)) + (((20, 9), (9, 9, 9), (7, 7)) if T else ()):
        jobs.append(J("tcpserver.stream", sizes=sz, cuts=2, end="idle"))
        for e in ("eof", "idle", "reset"):
            jobs.append(J("tcpserver.stream", sizes=sz, cuts=1 if T or len(sz) == 1 else 0, end=e, truncate=True))
        jobs.append(J("tcpserver.stream", sizes=sz, cuts=0, shorts=2, end="idle"))
    jobs.append(J("tcpserver.stream", sizes=(260,), cuts=1 if T else 0, k=30))
    jobs.append(J("tcpserver.stream", sizes=(12, 260), cuts=0, k=259))
    jobs.append(J("tcpserver.stream", sizes=(12,), cuts=0, k=260, shorts=1, end="idle"))
    for n in range(6, 20 if T else 17):
        jobs.append(J("tcpserver.any_stream", n=n))
    jobs.append(J("tcpserver.two_clients", cuts=1))
    jobs.append(J("tcpserver.writes", cuts=2))
    jobs.append(J("tcpserver.writes", cuts=0, shorts=2))
    for n in (60, 300):
        jobs.append(J("many.requests", n=n))
    jobs.append(J("many.requests", n=60, pieces=True))
    jobs.append(J("many.clients", n=12))
    return jobs


prop("C21", c21)


def c22(tier):
    T = tier == "thorough"
    jobs = []
    for kind in ("reset", "timeout", "other"):
        for end in ("eof", "idle", "reset"):
            for n in (range(0, 13) if T else (12, 9, 0)):
                jobs.append(J("tcpserver.faulty_socket", n=n, kind=kind, end=end))
        for n in (range(0, 13) if T else (12, 7, 0)):
            jobs.append(J("tcpserver.faulty_socket", n=n, kind=kind, end="eof", both=1))
            jobs.append(J("tcpserver.faulty_socket", n=n, kind=kind, end="idle", both=2))
        jobs.append(J("tcpserver.faulty_socket", n=12, kind=kind, end="eof", faults=2))
        for k in (1, 2):
            jobs.append(J("tcpserver.faulty_socket", n=12, kind=kind, where="accept", faults=k, upto=3))
    for kind in ("aborted", "would block", "timeout", "other"):
        for k in (1, 2):
            jobs.append(J("tcpserver.refused_connection", kind=kind, times=k))
    for end in ("eof", "idle", "reset"):
        for n in (range(0, 14) if T else (1, 5, 6, 7, 8, 9, 12)):
            jobs.append(J("tcpserver.garbage", n=n, end=end, err=n % 2 > 0))
    for e in ("ValueError", "KeyError", "OSError", "struct", "modbus", "request", "mbap", "memory"):
        jobs.append(J("tcpserver.failing_handling", exc=e))
    from harness.tcpserver import SERVER_HOOKS
    for h in SERVER_HOOKS:
        for e in ("ValueError", "OSError"):
            for t in (1, 2):
                jobs.append(J("tcpserver.failing_hook", hook=h, exc=e, times=t))
        jobs.append(J("tcpserver.failing_hook", hook=h, second="modbus_tcp.TcpServer.on_error", times=3))
        jobs.append(J("tcpserver.failing_hook", hook=h, second="modbus_tcp.TcpServer.on_error", times=3, cut=9, end="idle"))
    for n, lazy in ((6, 0), (12, 4), (40, 0)):
        jobs.append(J("many.clients", n=n, lazy=lazy))
    jobs.append(J("many.clients", n=12, rounds=3, leave=True))
    return jobs


prop("C22", c22)


def c23(tier):
    T = tier == "thorough"
    jobs = []
    for fc, q in ((3, 1), (1, 9)) + (((4, 3), (2, 17), (3, 125)) if T else ()):
        jobs.append(J("tcpmaster.reads", fc=fc, qty=q, cuts=2 if q < 20 else 1, tail=3))
        jobs.append(J("tcpmaster.reads", fc=fc, qty=q, cuts=1, tail=0))
    jobs.append(J("tcpmaster.reads", fc=3, qty=125, cuts=0, tail=11))
    for end in ("eof", "idle", "reset"):
        for n in range(0, 12):
            jobs.append(J("tcpmaster.cut_answer", ("cut" if n < 11 else "whole",), n=n, end=end, cuts=1))
        for n in range(0, 10):
            jobs.append(J("tcpmaster.cut_answer", ("cut" if n < 9 else "whole",), n=n, end=end, exception=True, cuts=1))
        for n in (range(0, 20) if T else (0, 6, 7, 8, 9, 10, 11, 12, 14)):
            jobs.append(J("tcpmaster.any_answer", ("data", "error") if n > 10 else ("error",), n=n, end=end))
    for e in range(0, 12):
        jobs.append(J("tcpmaster.stale", ("data",) if e == 11 else ("failed",), early=e, whole=True, late=0))
    for e, l in ((1, 0), (5, 0), (11, 0), (13, 0), (30, 0), (0, 1), (0, 5), (0, 11), (3, 3), (11, 11)):
        jobs.append(J("tcpmaster.stale", ("data",) if l == 0 else ("failed",), early=e, late=l))
        jobs.append(J("tcpmaster.stale", ("failed",), early=e, late=l, second="none"))
    for k in (1, 2, 3, 4, 6):
        jobs.append(J("tcpmaster.much_stale", blocks=k))
    for end in ("eof", "reset"):
        jobs.append(J("tcpmaster.broken", end=end))
    for k in ("reset", "timeout", "other"):
        jobs.append(J("tcpmaster.faulty", ("done", "recovered"), kind=k))
        jobs.append(J("tcpmaster.faulty", ("done", "recovered"), kind=k, faults=2, upto=12))
    jobs.append(J("tcpmaster.short_sends", n=3))
    jobs += call_sequences("tcp", 10, ("cut", "silence", "closed", "exception"))
    return jobs


prop("C23", c23)


def c24(tier):
    T = tier == "thorough"
    jobs = []
    for over in ("serial", "tcp"):
        for fc, q in ((3, 1), (1, 9), (6, 1), (16, 2), (22, 1)) + (((4, 3), (2, 17), (3, 30)) if T else ()):
            jobs.append(J("rtu.answered", fc=fc, qty=q, over=over, cuts=2 if fc != 1 or T else 1))
            jobs.append(J("rtu.answered", fc=fc, qty=q, over=over, cuts=1, tail=3))
        jobs.append(J("rtu.answered", fc=3, qty=125, over=over, cuts=0))
        for fc in (3, 1, 6, 16) + ((2, 4, 22) if T else ()):
            for end in ("idle", "eof") if over == "tcp" else ("idle",):
                jobs.append(J("rtu.exception_answer", fc=fc, over=over, cuts=2 if fc == 3 else 1, end=end))
        for end in ("idle", "eof", "reset") if over == "tcp" else ("idle",):
            for n in range(0, 7):
                jobs.append(J("rtu.cut", n=n, fc=3, qty=1, over=over, end=end))
            for n in range(0, 8):
                jobs.append(J("rtu.cut", n=n, fc=6, qty=1, over=over, end=end))
            for n in (range(0, 13) if T else (0, 2, 3, 4, 5, 6, 7, 8, 9)):
                jobs.append(J("rtu.any_answer", ("data", "error") if n > 6 else ("error",), n=n, over=over, end=end))
    for fc, q in ((16, 2), (22, 1), (1, 9)):
        jobs.append(J("rtu.answered", fc=fc, qty=q, echo=True, cuts=2))
        jobs.append(J("rtu.answered", fc=fc, qty=q, echo=True, cuts=2 if T else 1, tail=3))
        jobs.append(J("rtu.exception_answer", fc=fc, echo=True, cuts=1))
    for fc, q in ((3, 1), (16, 2), (1, 9)):
        jobs.append(J("rtu.answered", fc=fc, qty=q, cuts=2, tail=2))
    for fc, q in ((3, 1), (6, 1)):
        jobs.append(J("rtu.answered", fc=fc, qty=q, echo=True, cuts=2))
        jobs.append(J("rtu.answered", fc=fc, qty=q, echo=True, cuts=1, tail=2, stale=3))
        jobs.append(J("rtu.answered", fc=fc, qty=q, sw=0.3, cuts=2))
        jobs.append(J("rtu.answered", fc=fc, qty=q, sw=0.3, cuts=1, stale=4))
        jobs.append(J("rtu.exception_answer", fc=fc, echo=True, cuts=1))
        jobs.append(J("rtu.exception_answer", fc=fc, sw=0.3, cuts=2))
        for n in range(0, 7):
            jobs.append(J("rtu.cut", n=n, fc=fc, echo=True))
            jobs.append(J("rtu.cut", n=n, fc=fc, sw=0.3))
            jobs.append(J("rtu.cut", n=n, fc=fc, late=True, cuts=0))
    for n in (7, 8):
        jobs.append(J("rtu.any_answer", ("data", "error"), n=n, sw=0.3))
        jobs.append(J("rtu.any_answer", ("data", "error"), n=n, echo=True))
    for k in range(0, 4):
        jobs.append(J("rtu.slow", slow_at=k))
    for fc, q in ((16, 30), (16, 123), (3, 125)):
        jobs.append(J("rtu.answered", fc=fc, qty=q, echo=True, cuts=1, stale=3))
        jobs.append(J("rtu.exception_answer", fc=fc, qty=q, echo=True, cuts=1))
    for n in range(0, 8):
        jobs.append(J("rtu.echo_lost", n=n))
    jobs.append(J("rtu.echo_altered", n=8))
    for over in ("serial", "gate"):
        jobs += call_sequences(over, 10)
        jobs += call_sequences(over, 10, ("cut", "silence", "exception") if over == "serial" else ("cut", "silence", "closed", "exception"))
    return jobs


prop("C24", c24)


def c25(tier):
    T = tier == "thorough"
    jobs = []
    for sizes in ((8,), (3, 4), (8, 7), (1, 2, 9), (130,), (256, 8)) + (((5, 6, 7), (12, 13), (20,)) if T else ()):
        c = 2 if sum(sizes) < (40 if T else 12) else 1 if len(sizes) == 1 else 0
        jobs.append(J("rtu.server_stream", sizes=sizes, cuts=c))
    jobs.append(J("rtu.server_stream", sizes=(20,), cuts=3 if T else 2))
    jobs.append(J("rtu.server_stream", sizes=(6, 3), cuts=1, is_open=False))
    for n in range(0, 17 if T else 11):
        for err in (True, False):
            jobs.append(J("rtu.server_any", ("silent", "answered") if n > 3 else ("silent",), n=n, err=err))
    jobs.append(J("rtu.server_any", ("silent", "answered"), n=8, cuts=1))
    for s in ((1,), (2, 1), (1, 1, 1)):
        jobs.append(J("rtu.server_writes", sizes=s, cuts=1 if len(s) < 2 or T else 0))
    for k in (True, False):
        for n in (0, 1, 2, 3):
            for o in (0, 1, 2):
                jobs.append(J("rtu.server_faults", faults=n, keep=k, open_fails=o))
        jobs.append(J("rtu.server_faults", faults=0, write_fails=1, keep=k))
        jobs.append(J("rtu.server_faults", faults=1, write_fails=1, keep=k, open_fails=1, is_open=False))
    jobs.append(J("rtu.server_pending", cuts=1))
    jobs.append(J("many.requests", over="rtu", n=60))
    for n in (4, 100, 120, 121, 128, 248, 250, 255, 256, 257, 384, 512):
        jobs.append(J("many.noise", n=n))
    return jobs


prop("C25", c25)


def c20(tier):
    T = tier == "thorough"
    jobs = []
    for over in ("tcp", "rtu", "gate"):
        for u in UN:
            for op in (5, 6, 15, 16, 22, 23, "set", "inputs"):
                for q in ((1,) if op in (5, 6, 22) else (1, 3, 9) if op in (15,) else (1, 2)) if T or over != "gate" else (1,):
                    n = q + 1 + (1 if T else 0)
                    jobs.append(J("e2e.roundtrip", over=over, ops=(op,), q=q, n=n, unsigned=u))
        jobs.append(J("e2e.roundtrip", over=over, ops=(16, "set"), q=2, n=3, unsigned=False))
        jobs.append(J("e2e.roundtrip", over=over, ops=(6,), q=1, n=1, chop=2))
        jobs.append(J("e2e.roundtrip", over=over, ops=(16,), q=2, n=2, chop=3 if T else 2))
        jobs.append(J("e2e.history", over=over, k=3 if T else 2, q=2, n=3 if T else 2, unsigned=over != "rtu", seconds=300))
        for fc in (1, 2, 3, 4):
            for q in (0, 1, 4, 5) + ((125, 126) if fc > 2 else (2000, 2001)):
                jobs.append(J("e2e.errors", ("refused",), over=over, fc=fc, q=q))
        for fc in (5, 6, 22):
            jobs.append(J("e2e.errors", ("refused", "done"), over=over, fc=fc))
        for fc in (15, 16):
            for q in (0, 1, 4, 5) + ((123, 124) if fc == 16 else ()):
                jobs.append(J("e2e.errors", ("refused",), over=over, fc=fc, q=q))
        for fc, q in ((1, 2000), (3, 125), (15, 1968), (16, 123), (23, 125)) if T else ((1, 2000), (23, 125), (16, 123)):
            jobs.append(J("e2e.big", over=over, fc=fc, q=q, unsigned=over != "gate", seconds=400))
        jobs.append(J("e2e.slave_error", over=over))
        for i, fmt in enumerate((">I", ">i", "<i", ">q", "<Q", ">HI", ">bBh", ">iHq", "<hI", ">IIII")):
            if T or over == "tcp" or i % 2 == (over == "rtu"):
                jobs.append(J("e2e.formats", over=over, fmt=fmt, unsigned=i % 3 != 1))
        jobs.append(J("e2e.missing", over=over))
        jobs.append(J("e2e.missing", over=over, fc=6))
    return jobs


prop("C20", c20)


def c31(tier):
    T = tier == "thorough"
    jobs = []
    for n in (range(1, 20) if T else (6, 7, 8, 9, 12, 13)):
        for err in UN:
            jobs.append(J("verbose.tcp_server", n=n, err=err))
    jobs.append(J("verbose.tcp_server", n=12, whole=False, fc=3))
    for fc in (15, 16, 22, 23):
        jobs.append(J("verbose.tcp_server", n={15: 14, 16: 15, 22: 14, 23: 19}[fc], fc=fc))
    for n in (8, 12):
        jobs.append(J("verbose.tcp_server", n=n, end="eof"))
    for k in (0, 1, 2, 9, 255) + (tuple(range(3, 9)) if T else ()):
        jobs.append(J("verbose.tcp_any_answer", k=k))
    jobs.append(J("verbose.tcp_any_answer", none=True))
    for e in ("ValueError", "OSError", "struct"):
        jobs.append(J("verbose.failing_server", exc=e))
    jobs.append(J("verbose.toggled"))
    for n in (range(1, 12) if T else (1, 3, 4, 8)):
        jobs.append(J("verbose.rtu_server", n=n, err=n % 2 > 0))
        if n > 2:
            for to in ("unit", "all"):
                jobs.append(J("verbose.rtu_server", n=n, err=n % 2 == 0, valid=True, to=to))
    for fc in (15, 16):
        jobs.append(J("verbose.rtu_server", n=11 if fc == 16 else 10, fc=fc, valid=True))
    for fc in (1, 3, 6, 16, 22, 23, 7, 8, 43, 1001, 1003):
        for n in (range(0, 16) if T else (0, 6, 9, 11, 12)):
            jobs.append(J("verbose.tcp_master", n=n, fc=fc, raw=n % 2 > 0, end="idle" if n % 3 else "eof"))
        for n in (range(0, 12) if T else (0, 5, 7, 8)):
            jobs.append(J("verbose.rtu_master", n=n, fc=fc, raw=n % 2 > 0, over="serial" if n % 3 else "tcp"))
            jobs.append(J("verbose.rtu_master", n=n, fc=fc, raw=n % 2 < 1, valid=False, echo=True))
        for n in (range(0, 9) if T else (0, 1, 2, 4, 5)):
            jobs.append(J("verbose.any_master", n=n, fc=fc))
        jobs.append(J("verbose.any_master", none=True, fc=fc))
    return jobs


prop("C31", c31)


def c33(tier):
    T = tier == "thorough"
    jobs = []
    for over in ("tcp", "gate", "serial"):
        jobs.append(J("lifecycle.master", over=over, k=4 if T else 3, seconds=600))
        if over == "serial":
            jobs.append(J("lifecycle.master", over=over, k=4 if T else 3, is_open=True, seconds=600))
        for first in (("refused open", "close"), ("answer", "lost", "refused execute"), ("open", "close", "open"),
                      ("refused execute", "refused execute"), ("answer", "silent", "close"), ("open", "gone", "gone")):
            jobs.append(J("lifecycle.master", over=over, k=len(first) + (3 if T else 2), first=first, seconds=600))
    for kw in (dict(), dict(requests=2), dict(requests=0), dict(bind_fails=1, sessions=3), dict(twice=True), dict(cut=7),
               dict(cut=3), dict(cut=9, leave="eof"), dict(cut=9, leave="reset"), dict(stops=3), dict(stops=1),
               dict(sessions=4), dict(clients=3)):
        jobs.append(J("lifecycle.tcp_server", ("done", "bind failed") if "bind_fails" in kw else ("done",), **kw))
    for kw in (dict(), dict(requests=2), dict(requests=0), dict(is_open=True), dict(open_fails=True, sessions=3), dict(cut=3),
               dict(stops=3), dict(stops=1), dict(sessions=4), dict(is_open=True, open_fails=True)):
        jobs.append(J("lifecycle.rtu_server", ("done", "open failed") if "open_fails" in kw else ("done",), **kw))
    return jobs


prop("C33", c33)


def c34(tier):
    jobs = []
    for w in ("master", "server"):
        jobs.append(J("baud.one", what=w))
        for c, f in ((1.5, 3.5), (1.0, 2.0), (2.5, 4.75), (0.75, 10.0), (None, 5.0), (1.25, None)):
            jobs.append(J("baud.one", what=w, char=c, frame=f))
        jobs.append(J("baud.two", what=w))
        jobs.append(J("baud.multipliers", what=w))
    jobs.append(J("baud.given"))
    jobs.append(J("baud.exact"))
    return jobs


prop("C34", c34)


def c30(tier):
    T = tier == "thorough"
    jobs = []
    jobs.append(J("hooks.history", ("done", "twice"), k=3 if T else 2, names=2, nhooks=2 if not T else 3))
    jobs.append(J("hooks.history", ("done", "twice"), k=3, names=2, nhooks=2, kinds=("value",)))
    jobs.append(J("hooks.history", k=0, names=1, nhooks=3, prefix=((0, 0), (0, 1), (0, 2)),
                  kinds=("none", "value", "zero", "empty", "false")))
    jobs.append(J("hooks.history", k=0, names=2, nhooks=3, prefix=((0, 0), (0, 1), (0, 2), (1, 2), (1, 1)),
                  kinds=("none", "value", "self")))
    jobs.append(J("hooks.history", ("done", "twice"), k=1, names=3, nhooks=3, prefix=((0, 2), (1, 0), (2, 1), (0, 1), (1, 2)),
                  kinds=("none", "value")))
    jobs.append(J("hooks.history", k=0, names=1, nhooks=4, prefix=((0, 0), (0, 1), (0, 2), (0, 3)),
                  kinds=("none", "self", "value")))
    jobs.append(J("hooks.next_gone"))
    for a, b in (("call", "remove0"), ("call", "remove1"), ("call", "remove_all"), ("call", "install2"), ("install2", "install3"),
                 ("install2", "remove0"), ("remove0", "remove1"), ("remove_all", "install2"), ("remove0", "remove0")):
        jobs.append(J("threads.hooks_pair", a=a, b=b, pre=2, attr_hooks_=True))
        if a == "call" or a == "install2" or T:
            jobs.append(J("threads.hooks_pair", a=a, b=b, pre=2, gives=0 if b == "remove1" else 1, attr_hooks_=True))
    jobs.append(J("threads.hooks_pair", a="install2", b="install3", start=(), pre=2, attr_hooks_=True))
    jobs.append(J("threads.hooks_pair", a="call", b="install2", third="remove0", pre=2 if T else 1, attr_hooks_=True))
    jobs.append(J("hooks.falsy"))
    for e in ("KeyError", "ValueError", "modbus"):
        jobs.append(J("hooks.raising", exc=e))
    for fc in (1, 2, 3, 4, 5, 6, 7, 15, 16, 22, 23, 8, 99):
        for to in ("slave", "nobody", "all"):
            if fc in (1, 3, 5, 6, 16, 23) or to == "slave" or T:
                jobs.append(J("hooks.tcp_server", fc=fc, to=to))
                if fc not in (8,):
                    jobs.append(J("hooks.rtu_server", fc=fc, to=to))
    for cut in (3, 7, 9):
        for e in ("eof", "reset", "idle"):
            jobs.append(J("hooks.tcp_server", fc=6, cut=cut, end=e))
    jobs.append(J("hooks.tcp_server", fc=3, end="eof"))
    jobs.append(J("hooks.rtu_server", fc=3, is_open=True))
    jobs.append(J("hooks.rtu_server", fc=6, bad=True))
    jobs.append(J("hooks.rtu_server", fc=6, fault=True))
    for n in (0, 6, 9, 11, 12) if not T else range(0, 15):
        jobs.append(J("hooks.master", over="tcp", fc=3, n=n))
        jobs.append(J("hooks.master", over="tcp", fc=6, n=n, end="eof"))
    for n in (0, 2, 5, 7, 9) if not T else range(0, 12):
        for over in ("serial", "gate"):
            jobs.append(J("hooks.master", over=over, fc=3, n=n))
            jobs.append(J("hooks.master", over=over, fc=6, n=n))
    for over in ("tcp", "rtu", "gate"):
        for fc in (1, 3, 6, 16) + ((2, 4, 5, 15, 22, 23) if T else ()):
            jobs.append(J("hooks.end_to_end", over=over, fc=fc))
    jobs.append(J("hooks.local"))
    for n in (0, 1, 8, 20):
        for over in ("tcp", "serial", "gate"):
            jobs.append(J("hooks.master_sends", over=over, n=n))
        jobs.append(J("hooks.master_sends", over="serial", site="modbus_rtu.RtuMaster.before_send", n=n))
    for fc in (3, 6, 16):
        for n in (3, 5, 9) if not T else range(3, 12):
            for site in ("modbus.Master.after_recv", "modbus_rtu.RtuMaster.after_recv"):
                if n <= 9 and fc == 3 or n <= 8:
                    jobs.append(J("hooks.master_receives", site=site, fc=fc, n=n))
        for n in (7, 8, 9, 11):
            jobs.append(J("hooks.master_receives", over="tcp", fc=fc, n=n))
    for fc in (1, 3, 6, 16, 22, 23, 7):
        for n in (0, 1, 2, 4, 5) if not T else range(0, 9):
            jobs.append(J("hooks.any_receives", fc=fc, n=n))
    for k in (0, 5):
        for n in (0, 1, 12, 30):
            for over in ("tcp", "rtu"):
                for site in ("modbus.Server.before_handle_request", "modbus.Server.after_handle_request"):
                    jobs.append(J("hooks.server_value", over=over, site=site, n=n, k=k))
            jobs.append(J("hooks.server_value", over="rtu", site="modbus_rtu.RtuServer.after_read", n=n, k=k))
            jobs.append(J("hooks.server_value", over="rtu", site="modbus_rtu.RtuServer.before_write", n=n, k=k))
            if k:
                jobs.append(J("hooks.server_value", over="tcp", site="modbus_tcp.TcpServer.before_send", n=n, k=k))
    jobs.append(J("hooks.server_value", over="tcp", site="modbus_tcp.TcpServer.after_recv", n=12))
    for over in ("tcp", "rtu"):
        for fc in (1, 3, 6, 16, 99):
            for n in (0, 1, 2, 7):
                jobs.append(J("hooks.slave_value", over=over, fc=fc, n=n))
        for fc in (1, 2, 3, 4, 5, 6, 7, 16, 22, 23):
            jobs.append(J("hooks.slave_value", over=over, site=HANDLER_SITES[fc], fc=fc, n=5))
    jobs.append(J("many.hooks"))
    return jobs


HANDLER_SITES = dict((fc, "modbus.Slave.handle_%s_request" % n) for fc, n in {
    1: "read_coils", 2: "read_discrete_inputs", 3: "read_holding_registers", 4: "read_input_registers",
    5: "write_single_coil", 6: "write_single_register", 7: "read_exception_status", 15: "write_multiple_coils",
    16: "write_multiple_registers", 22: "mask_write_register", 23: "read_write_multiple_registers"}.items())
prop("C30", c30)


def c35(tier):
    T = tier == "thorough"
    jobs = []
    for w in ("ir", "coils", "di"):
        qs = (1, 2, 3, 17, 125) if w == "ir" else (1, 2, 7, 8, 9, 16, 17, 100)
        if T:
            qs = tuple(range(1, 126)) if w == "ir" else tuple(range(1, 40)) + (255, 256, 1999, 2000)
        for q in qs:
            jobs.append(J("pymod.read", what=w, q=q, seconds=400))
        jobs.append(J("pymod.read", what=w, q=1, default=True))
        jobs.append(J("pymod.read", what=w, q=4, opened=False, timeout=2.5))
        jobs.append(J("pymod.refused_argument", op=w))
    jobs.append(J("pymod.write", what="register"))
    jobs.append(J("pymod.write", what="coil"))
    jobs.append(J("pymod.write", what="coil", kind="bool"))
    for op in ("ir", "coils", "di", "register", "coil"):
        for how in ("exception", "silent", "eof", "reset", "refused"):
            jobs.append(J("pymod.failure", op=op, how=how))
        for n in (2, 3, 5, 8) + ((4, 6, 7, 9, 10) if T else ()):
            jobs.append(J("pymod.failure", op=op, how="other", n=n))
    jobs.append(J("pymod.with_server", n=4 if T else 3, q=2))
    jobs.append(J("pymod.lifecycle"))
    return jobs


prop("C35", c35)


def c32(tier):
    T = tier == "thorough"
    jobs = []
    ops = ("add_slave", "has_slave", "remove_slave", "remove_all_slaves", "add_block", "remove_block", "remove_all_blocks",
           "set_values", "get_values")
    for op in ops:
        jobs.append(J("simu.history", k=1, ops=(op,), nvals=3 if T else 2))
    jobs.append(J("simu.history", k=1, ops=("set_values",), nvals=0))
    jobs.append(J("simu.history", k=1, ops=("set_values",), nvals=1))
    for op in ops:
        for half in (ops[:5], ops[5:]) if op in ("add_block", "get_values", "set_values") else (ops,):
            jobs.append(J("simu.history", k=2, ops=half, first=op, wide=False, nvals=1, seconds=300))
    for op in sorted(("add_slave", "has_slave", "remove_slave", "remove_all_slaves", "add_block", "remove_block",
                      "remove_all_blocks", "set_values", "get_values", "set_verbose")):
        jobs.append(J("simu.malformed", op=op))
    jobs.append(J("simu.unknown"))
    jobs.append(J("simu.composite"))
    for over_rpc in (False, True):
        for op in ("install_hook", "uninstall_hook"):
            jobs.append(J("simu.hook_commands", k=4 if T else 3, over_rpc=over_rpc, first=op, seconds=300))
    for op in ops:
        jobs.append(J("simu.rpc_calls", k=1, ops=(op,), nvals=3 if T else 2))
    for op in ops if T else ("add_slave", "set_values", "remove_block", "remove_slave"):
        jobs.append(J("simu.rpc_calls", k=2, ops=ops if T else ("add_slave", "set_values", "get_values", "remove_block", "has_slave"),
                      first=op, nvals=1, seconds=300))
    for how in ("error", "other", "unknown", "text", "eof", "silent", "bye"):
        jobs.append(J("simu.rpc_answers", how=how))
    for n in (1, 3):
        jobs.append(J("simu.rpc_pieces", n=n))
        jobs.append(J("simu.rpc_command_pieces", n=n))
    jobs.append(J("simu.rpc_pieces", n=250, big=True))
    jobs.append(J("simu.rpc_command_pieces", n=250, big=True))
    jobs.append(J("simu.rpc_command_pieces", n=900, big=True))
    jobs.append(J("simu.rpc_garbage"))
    for op in ops:
        jobs.append(J("console.commands", k=1, first=op))
    for leave in ("console", "rpc"):
        jobs.append(J("console.session", leave=leave, pre=1, attr_hooks_=True))
    for first in (0, 1, 2):
        for same in (True, False):
            jobs.append(J("console.together", first=first, same=same, pre=1, attr_hooks_=True))
    return jobs


prop("C32", c32)


def c26(tier):
    T = tier == "thorough"
    jobs = [J("threads.step"), J("threads.concurrent_ids", n=2, pre=2, attr_hooks_=True),
            J("threads.concurrent_ids", n=3, pre=2, attr_hooks_=True),
            J("threads.concurrent_ids", n=2, each=2, pre=3 if T else 2, attr_hooks_=True),
            J("threads.master_ids", n=2, pre=2 if T else 1, attr_hooks_=True),
            J("threads.master_ids", n=2, each=2, pre=1, attr_hooks_=True)]
    if T:
        jobs.append(J("threads.concurrent_ids", n=3, pre=3, attr_hooks_=True))
        jobs.append(J("threads.concurrent_ids", n=2, each=3, pre=3, attr_hooks_=True))
    return jobs


prop("C26", c26)


def c27(tier):
    from harness.threads import OPS27, WRITERS, TABLE_OF
    T = tier == "thorough"
    jobs = []
    k = 0
    for i, a in enumerate(OPS27):
        for b in OPS27[i:]:
            if a not in WRITERS and b not in WRITERS:
                continue
            # operations on different tables never meet
            if TABLE_OF.get(a) and TABLE_OF.get(b) and TABLE_OF[a] != TABLE_OF[b] and not T:
                continue
            k += 1
            jobs.append(J("threads.slave_pair", a=a, b=b, pre=3 if T else 2, unsigned=k % 3 > 0, seconds=300 if T else 100,
                          attr_hooks_=True))
    progs = [(("write_n",), ("get", "get")), (("set",), ("read_h", "read_h")), (("rw",), ("get", "read_h")), (("coils",), ("get_c", "read_c")),
             (("mask",), ("mask", "get")), (("write_n", "write_1"), ("read_h", "get")), (("set", "set1"), ("read_h", "read_h")),
             (("remove",), ("get", "read_h")), (("remove", "get"), ("set",)), (("add",), ("read_h", "get_all")),
             (("set_c", "get_c"), ("coils",)), (("mask", "mask"), ("write_1", "mask"))]
    for k, (a, b) in enumerate(progs):
        jobs.append(J("threads.program_pair", a=a, b=b, pre=2 if T or k < 8 else 1, unsigned=k % 2 > 0, seconds=300 if T else 100,
                      attr_hooks_=True))
    trios = [("write_n", "mask", "get_all"), ("set", "write_n", "read_h"), ("mask", "mask", "mask"), ("coil", "coils", "read_c")]
    for k, (a, b, c) in enumerate(trios):
        jobs.append(J("threads.slave_pair", a=a, b=b, third=c, pre=2 if T else 1, unsigned=k % 2 > 0, seconds=300 if T else 100,
                      attr_hooks_=True))
    jobs.append(J("threads.hook_order", attr_hooks_=True))
    jobs.append(J("threads.hook_order", op="set_c", attr_hooks_=True))
    return jobs


prop("C27", c27)


def c28(tier):
    T = tier == "thorough"
    jobs = []
    for over in ("tcp", "rtu", "gate"):
        jobs.append(J("threads.master_calls", over=over, pre=2, attr_hooks_=True))
        jobs.append(J("threads.master_calls", over=over, n=2, calls=2, pre=2 if T else 1, attr_hooks_=True))
        jobs.append(J("threads.master_calls", over=over, n=3, pre=3 if T else 1, attr_hooks_=True))
        jobs.append(J("threads.master_calls", over=over, pre=1, kinds={0: "silence"}, attr_hooks_=True))
        jobs.append(J("threads.master_calls", over=over, pre=1, kinds={0: 2, 1: 4}, attr_hooks_=True))
        jobs.append(J("threads.master_calls", over=over, pre=1, before=4 if over == "rtu" else 15,
                      attr_hooks_=True))
        jobs.append(J("threads.master_calls", over=over, pre=1, fault=4 if over == "rtu" else 15,
                      attr_hooks_=True))
        cls = {"tcp": "modbus_tcp.TcpMaster", "rtu": "modbus_rtu.RtuMaster", "gate": "modbus_rtu_over_tcp.RtuOverTcpMaster"}[over]
        for h in ["modbus.Master.before_send", "modbus.Master.after_send", "modbus.Master.after_recv", cls + ".after_recv"] + (
                ["modbus_tcp.TcpMaster.before_connect", "modbus_tcp.TcpMaster.after_connect", "modbus_tcp.TcpMaster.before_send"]
                if over == "tcp" else []):
            jobs.append(J("threads.master_calls", over=over, pre=1, hook=h, attr_hooks_=True))
    return jobs


prop("C28", c28)


def c29(tier):
    T = tier == "thorough"
    jobs = []
    ops = ("add_slave", "get_slave", "remove_slave", "remove_all_slaves", "request", "broadcast")
    for i, a in enumerate(ops):
        for b in ops[i:]:
            if (a, b) in (("get_slave", "get_slave"), ("request", "get_slave"), ("get_slave", "request")):
                continue
            jobs.append(J("threads.registry_pair", a=a, b=b, pre=2 if T else 1, attr_hooks_=True))
    for a, b, c in (("add_slave", "add_slave", "remove_slave"), ("add_slave", "remove_slave", "request"),
                    ("remove_slave", "add_slave", "get_slave")):
        jobs.append(J("threads.registry_pair", a=a, b=b, third=c, pre=2 if T else 1, seconds=300 if T else 100, attr_hooks_=True))
    for k, (a, b) in enumerate((("add_a", "add_d"), ("add_a", "add_a"), ("add_a", "add_b"), ("add_c", "add_d"), ("add_a", "add_c"),
                 ("add_a", "remove"), ("add_b", "remove"), ("remove", "remove"), ("add_a", "clear"), ("remove", "clear"),
                 ("clear", "clear"), ("add_a", "lookup"), ("remove", "lookup"), ("clear", "lookup"), ("add_b", "add_b"))):
        if T:
            jobs.append(J("threads.block_pair", a=a, b=b, pre=2, attr_hooks_=True, seconds=900))
        jobs.append(J("threads.block_pair", a=a, b=b, pre=1, lo=6, hi=11, sizes=((2,), (2,)) if k % 2 else ((1,), (2,)),
                      attr_hooks_=True))
    return jobs


prop("C29", c29)


def c36(tier):
    T = tier == "thorough"
    jobs = []
    for c in ("none", "idle", "request", "two", "cut", "cut header", "gone", "reset", "drip", "stuck", "endless", "two endless"):
        jobs.append(J("stopping.tcp", client=c, pre=3 if T else 2, seconds=600 if T else 100, attr_hooks_=True))
    for c in ("none", "request", "cut", "noise", "two", "endless"):
        for o in (True, False):
            jobs.append(J("stopping.rtu", client=c, is_open=o, pre=3 if T else 2, seconds=600 if T else 100, attr_hooks_=True))
    for c in ("none", "request"):
        jobs.append(J("stopping.tcp", client=c, pre=2 if T else 1, stops=2, attr_hooks_=True))
        jobs.append(J("stopping.tcp", client=c, pre=2 if T else 1, again=1, attr_hooks_=True))
        jobs.append(J("stopping.rtu", client=c, pre=2 if T else 1, stops=2, attr_hooks_=True))
        jobs.append(J("stopping.rtu", client=c, pre=2 if T else 1, again=1, attr_hooks_=True))
    for n, lazy in ((12, 4), (40, 0), (70, 30)):
        jobs.append(J("many.clients", n=n, lazy=lazy))
    return jobs


prop("C36", c36)


def c38(tier):
    T = tier == "thorough"
    jobs = []
    for init in ("ok", "none", "fails"):
        for fails in (0, 3):
            for ex in (False, True):
                jobs.append(J("stopping.worker", init=init, fails=fails, exit_fails=ex, pre=3 if T else 2, attr_hooks_=True))
    jobs.append(J("stopping.worker", stops=2, pre=2, attr_hooks_=True))
    jobs.append(J("stopping.worker", args=(1, 2), pre=1, attr_hooks_=True))
    return jobs


prop("C38", c38)


def c39(tier):
    T = tier == "thorough"
    jobs = []
    steps = ("tcp write", "rtu write", "tcp read", "rtu read", "set", "get", "new slave", "tcp coil", "rtu coils")
    for op in steps:
        for composite in (True, False):
            jobs.append(J("shared.history", k=3 if T else 2, first=op, composite=composite, order=len(jobs) % 2,
                          seconds=600 if T else 100, attr_hooks_=True))
    for order in (0, 1):
        for composite in (True, False):
            jobs.append(J("shared.history", k=1, order=order, composite=composite, sessions=2, attr_hooks_=True))
            jobs.append(J("shared.history", k=1, order=order, composite=composite, verbose=1, attr_hooks_=True))
            jobs.append(J("shared.history", k=1, order=order, composite=composite, pre=1, attr_hooks_=True,
                          steps=("tcp write", "rtu write", "new slave")))
        jobs.append(J("shared.verbose_of", order=order, attr_hooks_=True))
    return jobs


prop("C39", c39)
