"""Syntactic interval bounds of integer terms; cheap decisions before any solver."""
import z3
from .values import IS, BS
from . import texts

INF = None
_B = {}


def bounds(z):
    k = z.get_id()
    r = _B.get(k)
    if r is not None: return r[0]
    r = _bounds(z)
    _B[k] = (r, z)
    return r


def _bounds(z):
    if z3.is_int_value(z):
        v = z.as_long()
        return v, v
    if not z3.is_app(z): return None, None
    k = z.decl().kind()
    if k == z3.Z3_OP_SEQ_LENGTH:
        n = texts.zlen(z.arg(0))
        return (n, n) if isinstance(n, int) else (0, None)
    if k == z3.Z3_OP_ADD:
        lo = hi = 0
        for c in z.children():
            a, b = bounds(c)
            lo = None if lo is None or a is None else lo + a
            hi = None if hi is None or b is None else hi + b
        return lo, hi
    if k == z3.Z3_OP_SUB and z.num_args() == 2:
        a, b = bounds(z.arg(0))
        c, d = bounds(z.arg(1))
        return (None if a is None or d is None else a - d, None if b is None or c is None else b - c)
    if k == z3.Z3_OP_MUL:
        lo, hi = 1, 1
        for c in z.children():
            a, b = bounds(c)
            if a is None or b is None or lo is None:
                if lo is not None and a is not None and a >= 0 and lo >= 0:
                    lo, hi = lo * a, None
                    continue
                lo = hi = None
                return None, None
            if hi is None:
                if a >= 0 and lo >= 0:
                    lo = lo * a
                    continue
                return None, None
            ps = [lo * a, lo * b, hi * a, hi * b]
            lo, hi = min(ps), max(ps)
        return lo, hi
    if k == z3.Z3_OP_ITE:
        a, b = bounds(z.arg(1))
        c, d = bounds(z.arg(2))
        return (None if a is None or c is None else min(a, c), None if b is None or d is None else max(b, d))
    if k == z3.Z3_OP_MOD:
        m = z.arg(1)
        if z3.is_int_value(m) and m.as_long() > 0:
            a, b = bounds(z.arg(0))
            if a is not None and a >= 0 and b is not None and b < m.as_long(): return a, b
            return 0, m.as_long() - 1
        return None, None
    if k == z3.Z3_OP_IDIV:
        m = z.arg(1)
        if z3.is_int_value(m) and m.as_long() > 0:
            a, b = bounds(z.arg(0))
            n = m.as_long()
            return None if a is None else a // n, None if b is None else b // n
        return None, None
    nm = z.decl().name()
    if nm == 'OS2IP':
        n = texts.zlen(z.arg(0)) if not is_concat(z.arg(0)) else None
        if n is None:
            from . import values
            n = texts.tlen(values.mktext(values.SBytes, [z.arg(0)]))
        return 0, (256 ** n - 1 if isinstance(n, int) and n < 70000 else None)
    if nm == 'XOR':
        a, b = bounds(z.arg(0))
        c, d = bounds(z.arg(1))
        if a is not None and a >= 0 and c is not None and c >= 0:
            if b is None or d is None: return 0, None
            return 0, (1 << max(b.bit_length(), d.bit_length())) - 1
    return None, None


def is_concat(t): return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT


MEMO = {}


def decide(z):
    """True, False or None."""
    i = z.get_id()
    r = MEMO.get(i)
    if r is None: r = MEMO[i] = (z, decide1(z))
    return r[1]


def decide1(z):
    if z3.is_true(z): return True
    if z3.is_false(z): return False
    if not z3.is_app(z): return None
    k = z.decl().kind()
    if k == z3.Z3_OP_NOT:
        r = decide(z.arg(0))
        return None if r is None else not r
    if k == z3.Z3_OP_AND:
        rs = [decide(c) for c in z.children()]
        if any(r is False for r in rs): return False
        return True if all(r is True for r in rs) else None
    if k == z3.Z3_OP_OR:
        rs = [decide(c) for c in z.children()]
        if any(r is True for r in rs): return True
        return False if all(r is False for r in rs) else None
    if k == z3.Z3_OP_IMPLIES:
        a, b = decide(z.arg(0)), decide(z.arg(1))
        if a is False or b is True: return True
        return False if a is True and b is False else None
    if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and z.arg(0).sort() == IS:
        x, y = z.arg(0), z.arg(1)
        if k in (z3.Z3_OP_GE, z3.Z3_OP_GT): x, y = y, x
        strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
        a, b = bounds(x)
        c, d = bounds(y)
        if b is not None and c is not None and (b < c or (b == c and not strict)): return True
        if a is not None and d is not None and (a > d or (a == d and strict)): return False
        return None
    if k == z3.Z3_OP_EQ and z.arg(0).sort() == IS:
        a, b = bounds(z.arg(0))
        c, d = bounds(z.arg(1))
        if b is not None and c is not None and b < c: return False
        if a is not None and d is not None and a > d: return False
    return None
