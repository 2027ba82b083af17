"""Ropes: operations on symbolic strings and octet strings.

Facts about uninterpreted text functions are kept in tables keyed by the name
of the function (or constant): its length and its alphabet.
"""
import z3
from .core import *
from .values import *

LEN = {}        # decl name -> int, or function(term) -> int / z3 Int
ALPHA = {}      # decl name -> alphabet name
ALPHABETS = {
    'b64u': frozenset('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'),
    'b64': frozenset('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'),
    'hex': frozenset('0123456789abcdef'),
    'digits': frozenset('0123456789'),
    'ascii': frozenset(map(chr, range(128))),
}
INVERSE = {}    # decl name of f -> decl name of g, where f(g(x)) = x always

ENC = z3.Function('ENC', SS, SS)          # utf-8 octets of a text
DECU = z3.Function('DECU', SS, SS)        # text of utf-8 octets
ISUTF8 = z3.Function('ISUTF8', SS, BS)
ISASCII = z3.Function('ISASCII', SS, BS)
LOWER = z3.Function('LOWER', SS, SS)
UPPER = z3.Function('UPPER', SS, SS)


def decl_name(t):
    return t.decl().name() if z3.is_app(t) else None


def zlen(t):
    """Length of a piece: Python int or z3 Int term."""
    if isinstance(t, (str, bytes)): return len(t)
    nm = decl_name(t)
    f = LEN.get(nm)
    if f is not None:
        return f(t) if callable(f) else f
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
        # pieces are only made in range
        l = t.arg(2)
        return l.as_long() if z3.is_int_value(l) else l
    return z3.Length(t)


def add_i(a, b):
    if isinstance(a, int) and isinstance(b, int): return a + b
    if isinstance(a, int) and a == 0: return b
    if isinstance(b, int) and b == 0: return a
    return a + b


def tlen(v):
    n = 0
    for p in text_parts(v): n = add_i(n, zlen(p))
    return n if isinstance(n, int) else mkint(n)


def tlen_z(v):
    n = tlen(v)
    return zint(n)


def alphabet(t):
    """Set of characters a piece is known to be made of, or None."""
    if isinstance(t, bytes): t = t.decode('latin-1')
    if isinstance(t, str): return frozenset(t)
    nm = decl_name(t)
    a = ALPHA.get(nm)
    if a is not None: return ALPHABETS[a]
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_EXTRACT: return alphabet(t.arg(0))
    if nm in ('ENC', 'DECU'):
        a = alphabet(t.arg(0))
        if a is not None and a <= ALPHABETS['ascii']: return a
    return None


def is_ascii_piece(t):
    a = alphabet(t)
    return a is not None and all(ord(c) < 128 for c in a)


def extract(t, a, l):
    """Piece [a, a+l) of z3 string t (in range)."""
    if isinstance(a, int): a = z3.IntVal(a)
    if isinstance(l, int): l = z3.IntVal(l)
    a, l = z3.simplify(a), z3.simplify(l)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_EXTRACT:
        a0 = t.arg(1)
        a = z3.simplify(a0 + a)
        t = t.arg(0)
    n = zlen(t)
    if z3.is_int_value(a) and a.as_long() == 0:
        if isinstance(n, int):
            if z3.is_int_value(l) and l.as_long() == n: return t
        elif z3.simplify(n - l).eq(z3.IntVal(0)): return t
    if z3.is_int_value(l) and l.as_long() == 0: return z3.StringVal('')
    return z3.SubString(t, a, l)


def merge_pieces(parts):
    """Rejoin neighbouring extracts of one term."""
    out = []
    for p in parts:
        if out and z3.is_expr(p) and z3.is_expr(out[-1]):
            q = out[-1]
            if is_extract(p) and is_extract(q) and p.arg(0).eq(q.arg(0)):
                end = z3.simplify(q.arg(1) + q.arg(2))
                if z3.simplify(end - p.arg(1)).eq(z3.IntVal(0)):
                    out[-1] = extract(q.arg(0), q.arg(1), z3.simplify(q.arg(2) + p.arg(2)))
                    continue
        out.append(p)
    return out


def is_extract(p): return z3.is_app(p) and p.decl().kind() == z3.Z3_OP_SEQ_EXTRACT


def concat(cls, vs):
    ps = []
    for v in vs: ps.extend(text_parts(v))
    return mktext(cls, merge_pieces(ps))


def same(a, b):
    """Syntactic equality of integer terms (int or z3)."""
    if isinstance(a, int) and isinstance(b, int): return a == b
    d = z3.simplify(zint(a) - zint(b))
    if z3.is_int_value(d): return d.as_long() == 0
    from . import poly
    return poly.is_zero(zint(a) - zint(b))


def split_at(ex, v, off):
    """(left, right) of text v at offset off (int or z3, 0 <= off <= len)."""
    cls = cls_of_text(v)
    parts = list(text_parts(v))
    left = []
    acc = 0
    while parts:
        if same(acc, off): break
        p = parts[0]
        n = zlen(p)
        end = add_i(acc, n)
        if isinstance(off, int) and isinstance(end, int): whole = off >= end
        elif same(end, off): whole = True
        elif isinstance(n, int) and n == 0: whole = True
        else:
            d = z3.simplify(zint(off) - zint(end))
            if z3.is_int_value(d): whole = d.as_long() >= 0
            elif ex.must(d >= 0): whole = True
            elif ex.must(d <= 0): whole = False
            else: whole = ex.branch(d >= 0)
        if whole:
            left.append(p)
            parts.pop(0)
            acc = end
            continue
        k = z3.simplify(zint(off) - zint(acc))
        parts.pop(0)
        if isinstance(p, (str, bytes)):
            if z3.is_int_value(k):
                left.append(p[:k.as_long()])
                parts.insert(0, p[k.as_long():])
                break
            p = zstr(p)
        left.append(extract(p, 0, k))
        nn = zlen(p)
        parts.insert(0, extract(p, k, z3.simplify(zint(nn) - k)))
        break
    return mktext(cls, merge_pieces(left)), mktext(cls, merge_pieces(parts))


def clamp(ex, i, n, default):
    """Python slice bound -> offset in [0, n] (int or z3)."""
    if i is None: return default
    if isinstance(i, bool): i = int(i)
    if isinstance(i, SInt): i = i.z
    nz = n.z if isinstance(n, SInt) else n
    if isinstance(i, int) and isinstance(nz, int):
        if i < 0: i = max(0, i + nz)
        return min(i, nz)
    if isinstance(i, int) and i == 0: return 0
    if isinstance(i, int) and i < 0: i = z3.simplify(zint(nz) + i); neg = True
    else: neg = False
    iz = zint(i)
    if not neg and not isinstance(i, int):
        if not ex.must(iz >= 0):
            if ex.branch(iz < 0): iz = z3.simplify(iz + zint(nz))
    if neg or not isinstance(i, int):
        if not ex.must(iz >= 0):
            if ex.branch(iz < 0): return 0
    if not ex.must(iz <= zint(nz)):
        if ex.branch(iz > zint(nz)): return nz
    return i if isinstance(i, int) else (iz.as_long() if z3.is_int_value(iz) else iz)


def slice_text(ex, v, lo, hi, step=None):
    cls = cls_of_text(v)
    if step not in (None, 1): raise Unsupported('slice step')
    n = tlen(v)
    nz = n.z if isinstance(n, SInt) else n
    a = clamp(ex, lo, n, 0)
    b = clamp(ex, hi, n, nz)
    if not same(a, 0) and not same(b, nz) or not isinstance(a, int) or a:
        if not (isinstance(a, int) and isinstance(b, int)):
            if not same(b, nz) and not ex.must(zint(a) <= zint(b)):
                if ex.branch(zint(a) > zint(b)): return cls.conc()
        elif a >= b: return cls.conc()
    l = v
    if not same(b, nz): l, _ = split_at(ex, v, b)
    if isinstance(a, int) and a == 0: return l
    _, r = split_at(ex, l, a)
    return r


def eq_term(a, b):
    """z3 Bool (or bool) for equality of two texts of one class."""
    p, q = merge_pieces(text_parts(a)), merge_pieces(text_parts(b))
    p = [x for x in p if not (isinstance(x, (str, bytes)) and not x)]
    q = [x for x in q if not (isinstance(x, (str, bytes)) and not x)]
    conj = []

    def norm(x): return x.decode('latin-1') if isinstance(x, bytes) else x
    p, q = [norm(x) for x in p], [norm(x) for x in q]
    for rev in (False, True):
        if rev: p.reverse(), q.reverse()
        while p and q:
            x, y = p[0], q[0]
            if isinstance(x, str) and isinstance(y, str):
                k = min(len(x), len(y))
                if rev:
                    if x[len(x) - k:] != y[len(y) - k:]: return False
                    x, y = x[:len(x) - k], y[:len(y) - k]
                else:
                    if x[:k] != y[:k]: return False
                    x, y = x[k:], y[k:]
                if x: p[0] = x
                else: p.pop(0)
                if y: q[0] = y
                else: q.pop(0)
                continue
            if not isinstance(x, str) and not isinstance(y, str):
                if x.eq(y):
                    p.pop(0), q.pop(0)
                    continue
                m, n = zlen(x), zlen(y)
                if isinstance(m, int) and isinstance(n, int) and m == n or same(m, n):
                    conj.append(x == y)
                    p.pop(0), q.pop(0)
                    continue
            elif isinstance(x, str) != isinstance(y, str):
                t, c, tl, cl = (y, x, q, p) if isinstance(x, str) else (x, y, p, q)
                m = zlen(t)
                if isinstance(m, int) and m <= len(c):
                    part = c[len(c) - m:] if rev else c[:m]
                    conj.append(t == zstr(part))
                    tl.pop(0)
                    rest = c[:len(c) - m] if rev else c[m:]
                    if rest: cl[0] = rest
                    else: cl.pop(0)
                    continue
            break
        if rev: p.reverse(), q.reverse()
    if not p and not q: pass
    elif not p or not q:
        rest = p or q
        for x in rest:
            if isinstance(x, str): return False
            n = zlen(x)
            if isinstance(n, int):
                if n > 0: return False
            else: conj.append(n == 0)
    else:
        # class clash: a piece over an alphabet cannot equal a constant outside it
        if len(p) == 1 and len(q) == 1:
            x, y = p[0], q[0]
            if isinstance(y, str): x, y = y, x
            if isinstance(x, str) and not isinstance(y, str):
                al = alphabet(y)
                if al is not None and not set(x) <= al: return False
        conj.append(mktext(SStr, p).z == mktext(SStr, q).z if not (len(p) == 1 and len(q) == 1) else
                    (zstr(p[0]) if isinstance(p[0], str) else p[0]) == (zstr(q[0]) if isinstance(q[0], str) else q[0]))
    if not conj: return True
    return z3.And(*conj) if len(conj) > 1 else conj[0]


def encode_piece(t):
    if isinstance(t, str): return t.encode('utf-8')
    if is_ascii_piece(t): return t
    if decl_name(t) == 'DECU': return t.arg(0)
    return ENC(t)


def enc_facts(ex, v):
    """UTF-8 takes one to four octets for a character."""
    for p in text_parts(v):
        if z3.is_expr(p) and decl_name(p) == 'ENC':
            t = p.arg(0)
            n, m = z3.Length(p), zint(zlen(t))
            ex.fact(z3.And(n >= m, n <= 4 * m, DECU(p) == t, ISUTF8(p)))
    return v


def encode_utf8(v):
    return mktext(SBytes, [encode_piece(p) for p in text_parts(v)])


def try_decode(ex, v, codec):
    """text of octets; None if they are not in that coding."""
    parts = text_parts(v)
    out, raw = [], []
    for i, p in enumerate(parts):
        if isinstance(p, bytes):
            try:
                out.append(p.decode('ascii'))
                continue
            except UnicodeDecodeError:
                pass
            raw.append(i)
            out.append(p)
        elif is_ascii_piece(p): out.append(p)
        elif decl_name(p) == 'ENC' and codec != 'ascii': out.append(p.arg(0))
        else:
            raw.append(i)
            out.append(p)
    if not raw: return mktext(SStr, out)
    pred = ISASCII if codec == 'ascii' else ISUTF8
    if len(raw) > 1 or isinstance(out[raw[0]], bytes):
        lo, hi = raw[0], raw[-1] + 1
        z = ztext(mktext(SBytes, parts[lo:hi]))
        out = list(out[:lo]) + [z] + list(out[hi:])
        raw = [lo]
    i = raw[0]
    z = out[i]
    if not ex.branch(pred(z)): return None
    if codec == 'ascii': pass
    else: z = DECU(z)
    out[i] = z
    return mktext(SStr, out)


def lower_piece(t, up=False):
    if isinstance(t, (str, bytes)): return t.upper() if up else t.lower()
    return (UPPER if up else LOWER)(t)
