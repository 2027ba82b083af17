"""Lists of signed binary digits, and points in Jacobian coordinates as linear
combinations of given points.

A Digits value stands for a list of unknown length whose elements are -1, 0 or
1; known are its length, its value as a number, and (most significant digit
first) the values of its prefixes, which obey Horner's rule.

An Elem value stands for a point in Jacobian coordinates (or None, the neutral
element), known as an integer combination of given points: what C15's contracts
of addf, doublef and neg say about their results.
"""
import z3
from . import curve
from .core import *
from .values import *
from .interp import Ext, MISSING, PList, View
from .lib import Method2, UF
from .models import model, is_intlike


class Digits(Ext):
    """low: least significant digit first."""

    def __init__(self, n, val, low): self.n, self.val, self.low, self.id = n, val, low, None

    def get(self, interp, name):
        if name in ('append',): return Method2(self, name)
        raise Unsupported('%s of a list of digits' % name)

    def call(self, interp, name, args, **kw):
        d = args[0]
        if not self.low or not is_intlike(d) or not interp.ex.must(z3.And(zint(d) >= -1, zint(d) <= 1)): raise Unsupported('append to a list of digits')
        self.val = self.val + zint(interp.models.product(interp, zint(d), zint(interp.models.pow2(interp, self.n))))
        self.n = z3.simplify(self.n + 1)
        return None

    def length(self, interp):
        interp.ex.assume(self.n >= 0)
        return mkint(self.n)

    def truth(self, interp): return self.n > 0

    def getitem(self, interp, k):
        if isinstance(k, slice) and k.start is None and k.stop is None and k.step == -1: return Digits(self.n, self.val, not self.low)
        raise Unsupported('element of a list of digits')

    def binop(self, interp, op, b): raise Unsupported('%s on a list of digits' % op)

    def rbinop(self, interp, op, a):
        if op == 'Add' and isinstance(a, View) and a.src[0] == 'rep' and a.val(z3.IntVal(0)) == 0 and not self.low: return Digits(z3.simplify(a.n + self.n), self.val, False)
        raise Unsupported('%s on a list of digits' % op)

    # most significant digit first
    def prefix(self, interp, i):
        """Value of the first i digits."""
        ex = interp.ex
        if self.id is None:
            self.id = ex.fresh('digits', IS)
            self.f = lambda t: UF('PREFIX', IS, IS, IS)(self.id, t)
            ex.assume(z3.And(self.f(z3.IntVal(0)) == 0, self.f(self.n) == self.val, self.n >= 0))
        return self.f(z3.simplify(zint(i)))

    def iterate(self, interp):
        if self.low: raise Unsupported('iteration over a list of digits, least significant first')
        self.prefix(interp, 0)
        seen = {}

        def at(i):
            i = z3.simplify(zint(i))
            if i.get_id() not in seen:
                d = interp.ex.choose(3, 'digit') - 1
                seen[i.get_id()] = (i, d)
                interp.ex.assume(self.prefix(interp, i + 1) == 2 * self.prefix(interp, i) + d)
            return seen[i.get_id()][1]
        return View(('digits', self.id.get_id(), self.id), self.n, at)


def digits_low(interp, name, old=None):
    """Shape of a loop variable."""
    ex = interp.ex
    n, v = ex.fresh(name + 'len', IS), ex.fresh(name + 'val', IS)
    ex.assume(n >= 0)
    return Digits(n, v, True)


class Elem(Ext):
    """coef: {key: (coefficient, x, y)}."""

    def __init__(self, crv, coef): self.crv, self.coef = crv, coef

    def get(self, interp, name): raise Unsupported('%s of a point' % name)

    def getitem(self, interp, k): raise Unsupported('coordinate of a point')

    def truth(self, interp): raise Unsupported('is a point the neutral element')

    def scale(self, k): return Elem(self.crv, {g: (z3.simplify(c * k), x, y) for g, (c, x, y) in self.coef.items()})

    def plus(self, o):
        r = dict(self.coef)
        for g, (c, x, y) in o.coef.items(): r[g] = (z3.simplify(r[g][0] + c), x, y) if g in r else (c, x, y)
        return Elem(self.crv, r)

    def of(self, g):
        """Coefficient of a given point."""
        return self.coef[g][0] if g in self.coef else z3.IntVal(0)


def elem(v, crv):
    if v is None: return Elem(crv, {})
    return v if isinstance(v, Elem) else None


def curve_args(p, q, n): return curve.curve_of(p, q, n)


def addf(interp, p, q, n, jp1, jp2):
    """C15.projective_sum."""
    crv = curve_args(p, q, n)
    if crv is None: return MISSING
    a, b = elem(jp1, crv), elem(jp2, crv)
    if a is None or b is None: return MISSING
    return a.plus(b)


def doublef(interp, p, q, n, jp):
    """C15.projective_double."""
    crv = curve_args(p, q, n)
    a = elem(jp, crv)
    return MISSING if crv is None or a is None else a.scale(2)


def neg(interp, p, n):
    """C15.projective_inverse."""
    if p is None: return None
    return p.scale(-1) if isinstance(p, Elem) else MISSING


def key(x, y): return (x.get_id(), y.get_id())


def to_projective(interp, p):
    """C15.to_affine."""
    if p is None: return None
    from specs import ecref
    for crv in ecref.CURVES:
        t = curve.take(interp, crv, p)
        if t is not None:
            x, y = t
            l = interp.ex.state.get('generators', ())
            interp.ex.state['generators'] = tuple(l) + ((crv, x, y),)
            return Elem(crv, {key(x, y): (z3.IntVal(1), x, y)})
    return MISSING


def from_projective(interp, jp, n):
    """C15.to_affine."""
    if jp is None: return None
    if not isinstance(jp, Elem): return MISSING
    ex = interp.ex
    ts = []
    for c, x, y in jp.coef.values():
        if not ex.must(c >= 0): raise Unsupported('negative multiple of a point')
        ts.append(curve.times(interp, jp.crv, c, x, y))
    if not ts: return None
    t = ts[0]
    for u in ts[1:]: t = curve.plus(interp, jp.crv, t, u)
    return curve.give(interp, jp.crv, t)


def point(interp, name, old=None):
    """Shape of a loop variable: a combination of the points met so far."""
    gs = interp.ex.state.get('generators', ())
    if not gs: raise Unsupported('no points')
    return Elem(gs[0][0], {key(x, y): (interp.ex.fresh(name, IS), x, y) for crv, x, y in gs})


def formulas():
    from .callees import table
    E = 'jwkest.elliptic:'
    return dict(extra_contracts=table((E + 'addf', 'C15', addf), (E + 'doublef', 'C15', doublef), (E + 'neg', 'C15', neg),
                                      (E + 'to_projective', 'C15', to_projective), (E + 'from_projective', 'C15', from_projective)))


def install():
    from specs import ecref

    @model(ecref.low_value, pure=False)
    def m_low(interp, r):
        if isinstance(r, Digits) and r.low: return mkint(r.val)
        if isinstance(r, (list, tuple)): return total(interp, r)
        raise Unsupported('value of a list')

    def total(interp, r):
        v = 0
        for i, d in enumerate(r): v = interp.binop('Add', v, interp.binop('Mult', d, 1 << i))
        return v

    @model(ecref.high_value, pure=False)
    def m_high(interp, s):
        if isinstance(s, Digits) and not s.low: return mkint(s.val)
        if isinstance(s, PList): return total(interp, list(s)[::-1])
        raise Unsupported('value of a list')

    @model(ecref.prefix_value, pure=False)
    def m_prefix(interp, s, i):
        if isinstance(s, Digits) and not s.low: return mkint(s.prefix(interp, zint(i)))
        raise Unsupported('value of a prefix')

    def combination(interp, p, j, pairs):
        crv = [c for c, d in ecref.P.items() if d['p'] == p][0]
        e = elem(j, crv)
        if e is None: raise Unsupported('not a point')
        want = Elem(crv, {})
        for k, a in pairs:
            a = elem(a, crv)
            if a is None: raise Unsupported('not a point')
            want = want.plus(a.scale(zint(k)))
        gs = set(e.coef) | set(want.coef)
        return mkbool(z3.And(*[e.of(g) == want.of(g) for g in sorted(gs)]))

    @model(ecref.is_multiple, pure=False)
    def m_is_multiple(interp, p, j, k, a): return combination(interp, p, j, [(k, a)])

    @model(ecref.is_sum, pure=False)
    def m_is_sum(interp, p, j, k, a, l, b): return combination(interp, p, j, [(k, a), (l, b)])
