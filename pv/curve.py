"""Points of the NIST curves as an abstract group, and the contracts of
jwkest.elliptic (C15) in its terms.

k times the point (x, y) is the triple (MULO, MULX, MULY) of uninterpreted
functions of k, x, y (MULO: it is the neutral element), the sum of two points
likewise.  Used group laws: the base point has the prime order n; (a G) + (b
(d G)) = ((a + b d) mod n) G.  INVMOD(a, n) is the inverse of a modulo n.
"""
import z3
from . import lemmas
from .core import *
from .values import *
from .interp import MISSING
from .lib import UF
from .models import model, is_intlike


def curve_of(a, q, p):
    from specs import ecref
    for v in (a, q, p):
        if isinstance(v, Sym): return None
    for c, d in ecref.P.items():
        if d['p'] == p and (a - 3) % p == 0 and (q + d['b']) % p == 0: return c
    return None


def nm(crv): return crv.replace('-', '')


def triple(crv, op, *args):
    s = [a.sort() for a in args]
    return (UF('%sO_%s' % (op, nm(crv)), *(s + [BS]))(*args), UF('%sX_%s' % (op, nm(crv)), *(s + [IS]))(*args), UF('%sY_%s' % (op, nm(crv)), *(s + [IS]))(*args))


def facts(ex, crv, t):
    from specs import ecref
    p = ecref.P[crv]['p']
    o, x, y = t
    ex.assume(z3.Implies(z3.Not(o), z3.And(x >= 0, x < p, y >= 0, y < p, UF('ONCURVE_' + nm(crv), IS, IS, BS)(x, y))))


def is_base(crv, x, y):
    from specs import ecref
    g = ecref.base(crv)
    return z3.is_int_value(x) and z3.is_int_value(y) and (x.as_long(), y.as_long()) == g


def private_of(crv, x, y):
    """The d with (x, y) = d G, where that is known."""
    if z3.is_app(x) and z3.is_app(y) and x.decl().name() == 'PUBX_' + nm(crv) and y.decl().name() == 'PUBY_' + nm(crv) and x.arg(0).eq(y.arg(0)): return x.arg(0)
    return None


def times(interp, crv, k, x, y):
    """(o, x, y) of k times the point (x, y)."""
    from specs import ecref
    ex = interp.ex
    n = ecref.P[crv]['n']
    d = private_of(crv, x, y)
    if d is not None:
        x, y = map(z3.IntVal, ecref.base(crv))
        k = zint(interp.binop('Mult', mkint(k), mkint(d))) % n
    t = triple(crv, 'MUL', k, x, y)
    facts(ex, crv, t)
    if is_base(crv, x, y):
        ex.assume(t[0] == (k % n == 0))
        if not z3.is_int_value(k):
            l = list(ex.state.get('scalars', ()))
            if not any(c == crv and s.eq(k) for c, s in l): ex.state['scalars'] = l + [(crv, k)]
    return t


def scalar_of(crv, t):
    """u with t = u G, as a term, where that is known."""
    x = t[1]
    if not (z3.is_app(x) and x.decl().name() == 'MULX_' + nm(crv)): return None
    k, px, py = x.children()
    return k if is_base(crv, px, py) else None


def plus(interp, crv, a, b):
    """Sum of two points given as triples."""
    from specs import ecref
    ex = interp.ex
    n = z3.IntVal(ecref.P[crv]['n'])
    u, v = scalar_of(crv, a), scalar_of(crv, b)
    if u is not None and v is not None:
        w = (u + v) % n
        for c, k in ex.state.get('scalars', ()):
            if c == crv and ex.must(z3.And(k >= 0, k < n)) and lemmas.congruent(ex, w, k, n):
                ex.assume(w == k)
                break
        g = ecref.base(crv)
        return times(interp, crv, w, z3.IntVal(g[0]), z3.IntVal(g[1]))
    t = triple(crv, 'ADD', a[1], a[2], b[1], b[2])
    facts(ex, crv, t)
    return tuple(z3.If(a[0], y, z3.If(b[0], x, s)) for x, y, s in zip(a, b, t))


def give(interp, crv, t):
    ex = interp.ex
    if ex.branch(t[0]):
        u = scalar_of(crv, t)
        if u is not None: ex.state['neutral'] = list(ex.state.get('neutral', ())) + [(crv, u)]
        return None
    return (mkint(t[1]), mkint(t[2]))


def neutral(interp, crv, *points):
    """Two multiples of G are added of which one is (or both are) the neutral
    element: what their scalars are congruent to."""
    ex = interp.ex
    n = z3.IntVal(ecref_n(crv))
    zero = [u for c, u in ex.state.get('neutral', ()) if c == crv]
    known = [u for u in (scalar_of(crv, (None,) + tuple(map(zint, p))) for p in points if p is not None) if u is not None]
    pairs = [(u, v) for u in zero for v in known] + ([(u, v) for i, u in enumerate(zero) for v in zero[i + 1:]] if not known else [])
    for u, v in pairs:
        w = (u + v) % n
        for c, k in ex.state.get('scalars', ()):
            if c == crv and not k.eq(u) and not k.eq(v) and ex.must(z3.And(k >= 0, k < n)) and lemmas.congruent(ex, w, k, n):
                ex.assume(w == k)
                return


def ecref_n(crv):
    from specs import ecref
    return ecref.P[crv]['n']


def take(interp, crv, pt):
    """Coordinates of a point that is on the curve, or None."""
    from specs import ecref
    if not isinstance(pt, tuple) or len(pt) != 2 or not is_intlike(pt[0]) or not is_intlike(pt[1]): return None
    p = ecref.P[crv]['p']
    x, y = zint(pt[0]), zint(pt[1])
    if z3.is_int_value(x) and z3.is_int_value(y): return (x, y) if ecref.on_curve(crv, (x.as_long(), y.as_long())) else None
    if not interp.ex.must(z3.And(x >= 0, x < p, y >= 0, y < p, UF('ONCURVE_' + nm(crv), IS, IS, BS)(x, y))): return None
    return x, y


NO = z3.BoolVal(False)


def mulp(interp, p, q, n, p1, c):
    """C15.scalar_multiplication."""
    crv = curve_of(p, q, n)
    if crv is None or not is_intlike(c): return MISSING
    a = take(interp, crv, p1)
    if a is None or not interp.ex.must(zint(c) >= 0): return MISSING
    return give(interp, crv, times(interp, crv, zint(c), *a))


def muladdp(interp, p, q, n, p1, c1, p2, c2):
    """C15.double_scalar_sum."""
    crv = curve_of(p, q, n)
    if crv is None or not is_intlike(c1) or not is_intlike(c2): return MISSING
    a, b = take(interp, crv, p1), take(interp, crv, p2)
    if a is None or b is None or not interp.ex.must(z3.And(zint(c1) >= 0, zint(c2) >= 0)): return MISSING
    return give(interp, crv, plus(interp, crv, times(interp, crv, zint(c1), *a), times(interp, crv, zint(c2), *b)))


_PRIME = {}


def is_prime(n):
    if n not in _PRIME:
        import sympy
        _PRIME[n] = bool(sympy.isprime(n))
    return _PRIME[n]


def inverse(interp, a, n):
    """The inverse of a modulo the prime n; MISSING where a may be 0 modulo n."""
    if isinstance(n, Sym) or not is_intlike(a) or n < 2 or not is_prime(n): return MISSING
    ex = interp.ex
    x = zint(a)
    if not ex.must(z3.And(x > 0, x < n)) and not ex.must(x % n != 0) and not ('residues' in ex.state and lemmas.is_unit(ex, x, z3.IntVal(n))): return MISSING
    z = z3.IntVal(n)
    i = UF('INVMOD', IS, IS, IS)(x, z)
    ex.assume(z3.And(i > 0, i < z))
    lemmas.add_inverse(ex, x, i, z)
    return mkint(i)


def inv(interp, a, n):
    """C15.inversion."""
    return inverse(interp, a, n)


def bezout(interp, a, b):
    """C15.bezout."""
    if not is_intlike(a) or not is_intlike(b): return MISSING
    ex = interp.ex
    a, b = zint(a), zint(b)
    if not ex.must(b >= 1): return MISSING
    from .lib import m_gcd
    g = zint(m_gcd(interp, mkint(a), mkint(b)))
    if ex.must(g == 1): g = z3.IntVal(1)
    x, y = ex.fresh('x', IS), ex.fresh('y', IS)
    ex.assume(x * a + y * b == g)
    ex.assume(z3.Or(b == 1, z3.And(-b < x, x < b)))
    return (mkint(x), mkint(y), mkint(g))


def residue(ex, x, p): return x if ex.must(z3.And(x >= 0, x < p)) else x % p


def oncurve(interp, crv, x, y):
    from specs import ecref
    ex, p = interp.ex, ecref.P[crv]['p']
    x, y = zint(x), zint(y)
    if z3.is_int_value(x) and z3.is_int_value(y): return z3.BoolVal(ecref.on_curve(crv, (x.as_long() % p, y.as_long() % p)))
    return UF('ONCURVE_' + nm(crv), IS, IS, BS)(residue(ex, x, p), residue(ex, y, p))


def element(interp, point, p, q, n):
    """C15.curve_equation."""
    crv = curve_of(p, q, n)
    if crv is None or not isinstance(point, tuple) or len(point) != 2 or not is_intlike(point[0]) or not is_intlike(point[1]): return MISSING
    return mkbool(oncurve(interp, crv, *point))


def euclid():
    from .callees import table
    return dict(extra_contracts=table(('jwkest.elliptic:euclid', 'C15', bezout)))


def inversion():
    from .callees import table
    return dict(extra_contracts=table(('jwkest.elliptic:inv', 'C15', inv)))


def elliptic():
    from .callees import table
    return dict(extra_contracts=table(('jwkest.elliptic:element', 'C15', element), ('jwkest.elliptic:mulp', 'C15', mulp), ('jwkest.elliptic:muladdp', 'C15', muladdp), ('jwkest.elliptic:inv', 'C15', inv)))


def install():
    from specs import ecref

    @model(ecref.mul, pure=False)
    def m_mul(interp, crv, k, pt):
        if not isinstance(k, Sym) and (pt is None or not any(isinstance(x, Sym) for x in pt)): return interp.native(ecref.mul, [crv, k, pt])
        if pt is None: return None
        a = take(interp, crv, pt)
        if a is None: raise Unsupported('multiple of a point that is not known to be on the curve')
        return give(interp, crv, times(interp, crv, zint(k), *a))

    @model(ecref.on_curve, pure=False)
    def m_on_curve(interp, crv, pt):
        if not any(isinstance(x, Sym) for x in pt): return interp.native(ecref.on_curve, [crv, pt])
        p = ecref.P[crv]['p']
        x, y = map(zint, pt)
        return mkbool(z3.And(x >= 0, x < p, y >= 0, y < p, oncurve(interp, crv, *pt)))

    @model(ecref.add, pure=False)
    def m_add(interp, p, a, b):
        crv = [c for c, d in ecref.P.items() if d['p'] == p][0]
        if a is None or b is None:
            neutral(interp, crv, a, b)
            return b if a is None else a
        if not any(isinstance(x, Sym) for x in tuple(a) + tuple(b)): return interp.native(ecref.add, [p, a, b])
        return give(interp, crv, plus(interp, crv, (NO,) + tuple(map(zint, a)), (NO,) + tuple(map(zint, b))))
