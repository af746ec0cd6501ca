"""Linear conditions over GF(2) on a path: projection to some input bits, and z3 queries for the error patterns they admit"""
import time
import z3
from .core import SymInt, EngineError


def rows_over(ex, e):
    """([(mask over the bits of e, constant)], number of bits): what the path's linear conditions say about e alone"""
    col = {}
    n = 0
    for x in e:
        if isinstance(x, SymInt):
            for i in range(8):
                m = x.lin[i] if i < len(x.lin) else 0
                if m == 0 or m & (m - 1) or m == 1:
                    raise EngineError("error bits must be inputs")
                col[m.bit_length() - 1] = n + i
        n += 8
    emask = 0
    for b in col:
        emask |= 1 << b
    pend = [m for _, m in ex.lin_basis]
    out = []
    # eliminate every bit that is not an error bit
    while pend:
        m = pend.pop()
        other = m & ~emask & ~1
        if other:
            p = other.bit_length() - 1
            pend = [(x ^ m) if x >> p & 1 else x for x in pend]
            pend = [x for x in pend if x]
        else:
            out.append(m)
    rows = []
    for m in out:
        r = 0
        for b, j in col.items():
            if m >> b & 1:
                r |= 1 << j
        rows.append((r, m & 1))
    return rows, n


def reduce_rows(rows):
    """reduced basis as ints with the constant as lowest bit, or None when contradictory"""
    basis = []
    for r, k in rows:
        m = (r << 1) | k
        for p, b in basis:
            if m >> p & 1:
                m ^= b
        if m == 1:
            return None
        if m:
            basis.append((m.bit_length() - 1, m))
    return [b for _, b in basis]


def patterns(ex, rows, n, maxburst):
    """yields (kind, bits of a pattern the rows admit, or None)"""
    nr = max(1, len(rows))
    colv = [sum(((r >> j) & 1) << i for i, (r, k) in enumerate(rows)) for j in range(n)]
    const = sum(k << i for i, (r, k) in enumerate(rows))

    def solve(s, *extra):
        t = time.time()
        ex.stats["queries"] += 1
        s.set("timeout", 120000)
        r = s.check(*extra)
        ex.stats["solver_s"] += time.time() - t
        if r == z3.unknown:
            ex.note_incomplete("error pattern query: unknown")
            return None
        return s.model() if r == z3.sat else None

    # one or two bits at any positions
    i, j = z3.BitVecs("I J", 16)
    ci, cj = z3.BitVecs("CI CJ", nr)
    s = z3.Solver()
    s.add(z3.Or(*[z3.And(i == p, ci == colv[p]) for p in range(n)]))
    s.add(z3.Or(*[z3.And(j == p, cj == colv[p]) for p in range(n)]))
    s.add(z3.ULE(i, j))
    s.add(z3.If(i == j, ci == const, ci ^ cj == const))
    m = solve(s)
    yield "one or two bits", None if m is None else sorted({m[i].as_long(), m[j].as_long()})
    # a burst: any non-zero pattern in a window
    w = z3.BitVec("W", maxburst)
    bad = None
    for p in range(0, max(1, n - maxburst + 1)):
        s = z3.Solver()
        s.add(w != 0)
        e = z3.BitVecVal(const, nr)
        for q in range(maxburst):
            if p + q < n:
                e = e ^ z3.If(z3.Extract(q, q, w) == 1, z3.BitVecVal(colv[p + q], nr), z3.BitVecVal(0, nr))
        s.add(e == 0)
        m = solve(s)
        if m is not None:
            v = m[w].as_long()
            bad = [p + q for q in range(maxburst) if v >> q & 1 and p + q < n]
            if bad:
                break
    yield "burst of up to %d bits" % maxburst, bad or None
    # odd number of bits
    red = reduce_rows(rows + [((1 << n) - 1, 1)])
    s = z3.Solver()
    vs = [z3.Bool("E%d" % b) for b in range(n)]
    if red is None:
        s.add(z3.BoolVal(False))
    else:
        for b in red:
            x = z3.BoolVal(bool(b & 1))
            for q in range(n):
                if b >> (q + 1) & 1:
                    x = z3.Xor(x, vs[q])
            s.add(z3.Not(x))
    m = solve(s)
    yield "odd number of bits", None if m is None else [q for q in range(n) if z3.is_true(m[vs[q]])] or [0]


def search(ex, e, content, maxburst):
    """a burst pattern the whole path condition admits when the bytes in content are zero: their values, or None"""
    from z3 import z3util
    zero = {}
    for x in content:
        if isinstance(x, SymInt):
            for v in z3util.get_vars(x.e):
                zero[v.get_id()] = v
    pairs = [(v, z3.BitVecVal(0, v.size())) for v in zero.values()]
    conds = [z3.simplify(z3.substitute(a, *pairs)) if pairs else a for a in ex.solver.assertions()]
    t0 = time.time()
    n = len(e)
    span = maxburst // 8
    for p in range(n - span, -1, -1):
        win = set(range(p, p + span))
        s = z3.Solver()
        s.set("timeout", 5000)
        wp = []
        for k, x in enumerate(e):
            if k not in win:
                wp.extend((v, z3.BitVecVal(0, v.size())) for v in z3util.get_vars(x.e))
        for c in conds:
            s.add(z3.substitute(c, *wp) if wp else c)
        s.add(z3.Or(*[e[k].e != 0 for k in win]))
        ex.stats["queries"] += 1
        t = time.time()
        r = s.check()
        ex.stats["solver_s"] += time.time() - t
        if r == z3.sat:
            m = s.model()
            return [m.eval(x.e, model_completion=True).as_long() if k in win else 0 for k, x in enumerate(e)]
        if time.time() - t0 > 30:
            break
    return None
