"""C15: elliptic curve arithmetic is the group law."""
from jwkest import elliptic
from jwkest.curves import get_curve
from jwkest.ecc import NISTEllipticCurve
from math import gcd
from pv.api import *
from pv.invariants import invariant
from . import ecref, keys as K

COV = ['jwkest.elliptic:euclid', 'jwkest.elliptic:inv', 'jwkest.elliptic:add', 'jwkest.elliptic:addf', 'jwkest.elliptic:doublef', 'jwkest.elliptic:neg',
       'jwkest.elliptic:_gbd', 'jwkest.elliptic:_signed_bin', 'jwkest.elliptic:mul', 'jwkest.elliptic:mulf', 'jwkest.elliptic:muladdf',
       'jwkest.elliptic:mulp', 'jwkest.elliptic:muladdp', 'jwkest.elliptic:to_projective', 'jwkest.elliptic:from_projective',
       'jwkest.elliptic:element', 'jwkest.curves:get_curve', 'jwkest.ecc:NISTEllipticCurve.public_key_for', 'jwkest.ecc:NISTEllipticCurve.by_name']
E = lambda n: 'jwkest.elliptic:' + n
T = lambda n: target(E(n))
inv, euclid, add, neg, mul, mulp, muladdp = [T(n) for n in ('inv', 'euclid', 'add', 'neg', 'mul', 'mulp', 'muladdp')]
addf, doublef, to_projective, from_projective, signed_bin, element = [T(n) for n in ('addf', 'doublef', 'to_projective', 'from_projective', '_signed_bin', 'element')]
W = 'concrete values; for any values see projective_sum, projective_double, recoding, any_multiple, any_sum'


def same(pt, want, p):
    """Equal as points (coordinates modulo p, and in range)."""
    if want is None: return pt is None
    return pt is not None and tuple(pt) == tuple(want)


def rand_point(rng, crv):
    c = ecref.P[crv]
    k = rng.random()
    if k < .4: return ecref.base(crv)
    if k < .75: return ecref.public(crv, rng.choice(K.EC_D + [3, 5, 7, c['n'] - 1, c['n'] - 2]))
    x = rng.choice([0, 1, 2, 3, rng.getrandbits(100), rng.getrandbits(255)])
    while True:
        ps = ecref.points_with_x(crv, x % c['p'])
        if ps: return rng.choice(ps)
        x += 1


def rand_scalar(rng, crv):
    n = ecref.P[crv]['n']
    k = rng.random()
    if k < .3: return rng.randint(0, 40)
    if k < .5: return max(0, n + rng.choice([-3, -2, -1, 0, 1, 2, 3]))
    if k < .6: return max(0, (1 << rng.randint(1, 522)) + rng.choice([-1, 0, 1]))
    if k < .65: return 2 * n + rng.choice([-1, 0, 1])
    if k < .7: return int(rng.choice(['5', '6', '3', 'a', '7', 'b']) * rng.randint(1, 64), 16)
    return rng.getrandbits(rng.choice([8, 64, 250, ecref.P[crv]['bits']]))


def args(crv):
    c = ecref.P[crv]
    return 3, c['p'] - c['b'], c['p']


def gen_mul(rng, lits):
    crv = rng.choice(ecref.CURVES)
    return dict(crv=crv, pt=rand_point(rng, crv), k=rand_scalar(rng, crv))


@contract('C15', gen=gen_mul, need=[E('mulp')], covers=COV[6:16], cases=250, weight=3, sym=False, why=W)
def scalar_multiplication(crv, pt, k):
    a, q, p = args(crv)
    ensures('product', same(mulp(a, q, p, pt, k), ecref.mul(crv, k, pt), p))


@contract('C15', gen=lambda rng, lits: dict(gen_mul(rng, lits), k=rng.choice([rng.randint(0, 300), rng.getrandbits(40), ecref.P['P-256']['n']]), crv='P-256', pt=rand_point(rng, 'P-256')),
          need=[E('mul')], covers=[E('mul'), E('add')], cases=120, weight=2, sym=False, why=W)
def slow_multiplication(crv, pt, k):
    a, q, p = args(crv)
    ensures('product', same(mul(a, q, p, pt, k), ecref.mul(crv, k, pt), p))


def gen_sum(rng, lits):
    crv = rng.choice(ecref.CURVES)
    n, p = ecref.P[crv]['n'], ecref.P[crv]['p']
    a, b = rand_point(rng, crv), rand_point(rng, crv)
    k = rng.random()
    if k < .15: b = a
    elif k < .3: b = ecref.neg(p, a)
    elif k < .4: b = ecref.add(p, a, a)
    c1, c2 = rand_scalar(rng, crv), rand_scalar(rng, crv)
    k = rng.random()
    if k < .15: c2 = c1
    elif k < .3: c2 = max(0, n - c1)
    elif k < .4: c2 = c1 + 1
    elif k < .5: c1, c2 = rng.choice([(0, c2), (c1, 0), (0, 0), (1, c2), (c1, 1), (n, c2), (n - 1, 1), (2, n - 2)])
    return dict(crv=crv, a=a, b=b, c1=c1, c2=c2)


@contract('C15', gen=gen_sum, need=[E('muladdp')], covers=COV[6:16], cases=250, weight=4, sym=False, why=W)
def double_scalar_sum(crv, a, b, c1, c2):
    aa, q, p = args(crv)
    want = ecref.add(p, ecref.mul(crv, c1, a), ecref.mul(crv, c2, b))
    ensures('sum', same(muladdp(aa, q, p, a, c1, b, c2), want, p))


def gen_add(rng, lits):
    crv = rng.choice(ecref.CURVES)
    p = ecref.P[crv]['p']
    a, b = rng.choice([None, rand_point(rng, crv)] + [rand_point(rng, crv)] * 6), rng.choice([None, rand_point(rng, crv)] + [rand_point(rng, crv)] * 6)
    k = rng.random()
    if k < .2: b = a
    elif k < .4: b = ecref.neg(p, a)
    return dict(crv=crv, a=a, b=b, za=rng.choice([1, 2, p - 1, rng.getrandbits(250) + 1]), zb=rng.choice([1, 3, p - 1, rng.getrandbits(250) + 1]))


@contract('C15', gen=gen_add, need=[E('add'), E('neg')], covers=[E('add'), E('neg')], cases=400, sym=False, why=W)
def addition(crv, a, b, za, zb):
    aa, q, p = args(crv)
    ensures('sum', same(add(aa, q, p, a, b), ecref.add(p, a, b), p))
    ensures('inverse', same(neg(a, p), ecref.neg(p, a), p))


jac, aff, consistent = ecref.jacobian, ecref.affine, ecref.consistent


@contract('C15', gen=gen_add, need=[E('addf'), E('doublef'), E('neg'), E('to_projective'), E('from_projective')],
          covers=[E('addf'), E('doublef'), E('neg'), E('to_projective'), E('from_projective')], cases=400, sym=False, why=W)
def projective_addition(crv, a, b, za, zb):
    aa, q, p = args(crv)
    ja, jb = jac(p, a, za), jac(p, b, zb)
    s = addf(aa, q, p, ja, jb)
    ensures('sum', same(aff(p, s), ecref.add(p, a, b), p) and consistent(p, s))
    d = doublef(aa, q, p, ja)
    ensures('double', same(aff(p, d), ecref.add(p, a, a), p) and consistent(p, d))
    m = neg(ja, p)
    ensures('inverse', same(aff(p, m), ecref.neg(p, a), p) and consistent(p, m))
    ensures('to', to_projective(a) == jac(p, a, 1))
    ensures('from', same(from_projective(ja, p), a, p))


def gen_inv(rng, lits):
    n = rng.choice([ecref.P[c][k] for c in ecref.CURVES for k in ('p', 'n')] + [2, 3, 7, 97, 1 << 64, rng.getrandbits(100) + 2])
    return dict(a=rng.choice([1, 2, n - 1, n - 2, n + 1, rng.getrandbits(64), rng.getrandbits(600), rng.randrange(n) + 0, -1, -5, 3 * n + 1, -rng.getrandbits(300)]), n=n)


@invariant(E('inv'), 0, i='int')
def inv_loop(a, n, i):
    """A representative of the inverse, at most one step below the range."""
    return (a * i % n == 1 % n, -n < i, i < n)


def euclid_contract():
    from pv import curve
    return curve.euclid()


def gen_formula(rng, lits):
    crv = rng.choice(ecref.CURVES)
    p = ecref.P[crv]['p']
    (x1, y1), (x2, y2) = rand_point(rng, crv), rand_point(rng, crv)
    k = rng.random()
    if k < .2: x2, y2 = x1, y1
    elif k < .4: x2, y2 = x1, p - y1
    z = lambda: rng.choice([1, 2, p - 1, rng.getrandbits(250) + 1])
    return dict(crv=crv, x1=x1, y1=y1, x2=x2, y2=y2, z1=z(), z2=z())


def field(interp):
    """Coordinates are residues of the prime p: products are left to polynomial arithmetic."""
    interp.opaque_products = True
    interp.ex.state['residues'] = True


def inversion_contract():
    from pv import curve
    return curve.inversion()


def in_field(p, *xs): return all(0 <= x < p for x in xs)


XY = dict(crv=OneOf(*ecref.CURVES), x1=Int(0), y1=Int(0), x2=Int(0), y2=Int(0), z1=Int(1), z2=Int(1))


@contract('C15', inputs=XY, gen=gen_formula, need=[E('addf')], covers=[E('addf'), E('doublef')], cases=200, uses=inversion_contract, setup=field, shard='crv')
def projective_sum(crv, x1, y1, x2, y2, z1, z2):
    """addf follows the chord and tangent rule (coordinates of any values that
    give one point or two of different x or opposite y)."""
    aa, q, p = args(crv)
    requires(in_field(p, x1, y1, x2, y2, z1, z2) and y1 > 0 and y2 > 0)
    a, b = (x1, y1), (x2, y2)
    requires(x1 != x2 or y1 == y2 or y1 + y2 == p)
    s = addf(aa, q, p, ecref.jacobian(p, a, z1), ecref.jacobian(p, b, z2))
    want = ecref.affine_sum(p, a, b)
    ensures('neutral', (s is None) == (want is None))
    if s is not None:
        ensures('representation', ecref.consistent(p, s))
        ensures('sum', ecref.affine(p, s) == want)


@contract('C15', inputs={k: v for k, v in XY.items() if k not in ('x2', 'y2', 'z2')}, gen=lambda rng, lits: {k: v for k, v in gen_formula(rng, lits).items() if k not in ('x2', 'y2', 'z2')},
          need=[E('doublef'), E('neg')], covers=[E('doublef'), E('neg'), E('to_projective'), E('from_projective')], cases=200, uses=inversion_contract, setup=field, shard='crv')
def projective_double(crv, x1, y1, z1):
    aa, q, p = args(crv)
    requires(in_field(p, x1, y1, z1) and y1 > 0)
    a = (x1, y1)
    j = ecref.jacobian(p, a, z1)
    s = doublef(aa, q, p, j)
    ensures('representation', ecref.consistent(p, s))
    ensures('double', ecref.affine(p, s) == ecref.affine_sum(p, a, a))
    m = neg(j, p)
    ensures('opposite', ecref.consistent(p, m) and ecref.affine(p, m) == (x1, (-y1) % p))
    ensures('to-affine', from_projective(j, p) == a)
    ensures('from-affine', to_projective(a) == (x1, y1, 1, 1, 1))
    ensures('neutral', doublef(aa, q, p, None) is None and neg(None, p) is None and from_projective(None, p) is None and to_projective(None) is None)
    ensures('neutral-left', addf(aa, q, p, None, j) == j)
    ensures('neutral-right', addf(aa, q, p, j, None) == j)
    ensures('neutral-both', addf(aa, q, p, None, None) is None)


@contract('C15', inputs={k: v for k, v in XY.items() if k not in ('z1', 'z2')}, gen=lambda rng, lits: {k: v for k, v in gen_formula(rng, lits).items() if k not in ('z1', 'z2')},
          need=[E('add')], covers=[E('add')], cases=200, uses=inversion_contract, setup=field, shard='crv')
def affine_sum(crv, x1, y1, x2, y2):
    aa, q, p = args(crv)
    requires(in_field(p, x1, y1, x2, y2) and y1 > 0 and y2 > 0)
    a, b = (x1, y1), (x2, y2)
    requires(x1 != x2 or y1 == y2 or y1 + y2 == p)
    s = add(aa, q, p, a, b)
    want = ecref.affine_sum(p, a, b)
    ensures('neutral', (s is None) == (want is None))
    if s is not None: ensures('sum', s[0] == want[0] and (s[1] - want[1]) % p == 0)


@contract('C15', inputs=dict(crv=OneOf(*ecref.CURVES), x=Int(0), y=Int(0)), gen=lambda rng, lits: (lambda g: dict(crv=g['crv'], x=g['pt'][0], y=g['pt'][1]))(gen_element(rng, lits)), need=[E('element')], covers=[E('element')],
          cases=100, setup=field, shard='crv')
def curve_equation(crv, x, y):
    a, q, p = args(crv)
    ensures('element', bool(element((x, y), a, q, p)) == ((y * y - (x * x * x - 3 * x + ecref.P[crv]['b'])) % p == 0))


@contract('C15', gen=gen_inv, inputs=dict(a=Int(), n=Int(2)), need=[E('inv')], covers=[E('inv'), E('euclid')], cases=500, uses=euclid_contract)
def inversion(a, n):
    requires(n >= 2 and gcd(a, n) == 1)
    i = inv(a, n)
    ensures('inverse', a * i % n == 1 % n)
    ensures('range', 0 <= i < n)


@contract('C15', inputs=dict(a=Int(0), b=Int(0)), need=[E('euclid')], covers=[E('euclid')], cases=400, sym=False, why='concrete values; for any values see bezout')
def extended_euclid(a, b):
    x, y, g = euclid(a, b)
    ensures('gcd', g == gcd(a, b))
    ensures('bezout', x * a + y * b == g)


@invariant(E('euclid'), 0, x='int', xx='int', y='int', yy='int', a='int', b='int')
def euclid_loop(a, b, x, xx, y, yy, a0, b0):
    """Bezout's identity for both remainders, the greatest common divisor, and
    the sizes of the cofactors (by the sign of x)."""
    ids = (b >= 0, xx * a0 + yy * b0 == a, x * a0 + y * b0 == b, gcd(a, b) == gcd(a0, b0))
    if b0 == 0: return ids + (b == 0 and a == a0 and xx == 1,)
    if x == 0: return ids + (xx == 1, a == a0, b == b0)
    if x > 0: return ids + (a > b, xx <= 0, x * a - xx * b == b0, xx > -b0)
    return ids + (a > b, xx > 0, x * a - xx * b == -b0, xx < b0)


def gen_bezout(rng, lits):
    n = rng.choice([1, 2, 3, 7, 96, 97, 1 << 64, rng.getrandbits(100) + 2] + [ecref.P[c][k] for c in ecref.CURVES for k in ('p', 'n')])
    return dict(a=rng.choice([0, 1, 2, n, n - 1, n - 2, n + 1, rng.getrandbits(64), rng.getrandbits(600), rng.randrange(n) + 0, -1, -5, 3 * n + 1, -rng.getrandbits(300)]), b=n)


@contract('C15', gen=gen_bezout, inputs=dict(a=Int(), b=Int(1)), need=[E('euclid')], covers=[E('euclid')], cases=300)
def bezout(a, b):
    requires(b >= 1)
    x, y, g = euclid(a, b)
    ensures('gcd', g == gcd(a, b))
    ensures('bezout', x * a + y * b == g)
    ensures('bound', b == 1 or -b < x < b)


def digits_low(*a):
    from pv import digits
    return digits.digits_low(*a)


def point(*a):
    from pv import digits
    return digits.point(*a)


@invariant(E('_gbd'), 0, i='int')
def gbd_loop(i): return (i >= 1,)


@invariant(E('_signed_bin'), 0, n='int', r=digits_low)
def signed_bin_loop(n, r, n0):
    """The digits so far and what is left of the number."""
    return (n >= 0, ecref.low_value(r) + n * 2 ** len(r) == n0)


def opaque_products(interp): interp.opaque_products = True


@contract('C15', inputs=dict(k=Int(0)), need=[E('_signed_bin')], covers=[E('_signed_bin'), E('_gbd')], cases=500)
def recoding(k):
    s = signed_bin(k)
    ensures('value', ecref.high_value(s) == k)
    ensures('digits', all(d in (-1, 0, 1) for d in s))
    ensures('length', len(s) >= 1)


def formulas():
    from pv import digits
    return digits.formulas()


@invariant(E('mulf'), 0, res=point)
def mulf_loop(i, n, res, sb, jp1): return (ecref.is_multiple(n, res, ecref.prefix_value(sb, i), jp1),)


@invariant(E('muladdf'), 0, res=point)
def muladdf_loop(i, n, res, s1, s2, jp1, jp2): return (ecref.is_sum(n, res, ecref.prefix_value(s1, i), jp1, ecref.prefix_value(s2, i), jp2),)


def gen_mul_any(rng, lits):
    crv = rng.choice(ecref.CURVES)
    return dict(crv=crv, d=rng.choice(K.EC_D + [3, 5, ecref.P[crv]['n'] - 1]), k=rand_scalar(rng, crv))


@contract('C15', inputs=dict(crv=OneOf(*ecref.CURVES), d=Int(1, 1 << 255), k=Int(0)), gen=gen_mul_any, need=[E('mulp')], covers=COV[6:16], cases=60, uses=formulas, setup=opaque_products, shard='crv')
def any_multiple(crv, d, k):
    """Any multiple of any point (which is d times the base point)."""
    a, q, p = args(crv)
    pt = ecref.public(crv, d)
    ensures('product', same(mulp(a, q, p, pt, k), ecref.mul(crv, k, pt), p))


def gen_sum_any(rng, lits):
    g = gen_mul_any(rng, lits)
    n = ecref.P[g['crv']]['n']
    l = rng.choice([0, 1, g['k'], n - 1, rand_scalar(rng, g['crv'])])
    return dict(g, e=rng.choice(K.EC_D + [1, 2, g['d'], n - g['d']]), l=l)


@contract('C15', inputs=dict(crv=OneOf(*ecref.CURVES), d=Int(1, 1 << 255), k=Int(0), e=Int(1, 1 << 255), l=Int(0)), gen=gen_sum_any, need=[E('muladdp')], covers=COV[6:16], cases=60,
          uses=formulas, setup=opaque_products, shard='crv')
def any_sum(crv, d, k, e, l):
    aa, q, p = args(crv)
    a, b = ecref.public(crv, d), ecref.public(crv, e)
    want = ecref.add(p, ecref.mul(crv, k, a), ecref.mul(crv, l, b))
    ensures('sum', same(muladdp(aa, q, p, a, k, b, l), want, p))


@contract('C15', gen=lambda rng, lits: dict(crv=rng.choice(ecref.CURVES), k=rng.choice([1, 2, 3, rng.getrandbits(250) + 1])), fixed=[dict(crv=c, k=1) for c in ecref.CURVES],
          covers=COV[-3:], cases=40, sym=False, why='constants')
def parameters(crv, k):
    c = ecref.P[crv]
    a = get_curve(c['bits'])
    ensures('curve', a[0] == c['bits'] and a[1] == c['p'] and a[2] == c['n'] and tuple(a[5]) == ecref.base(crv) and
            (a[3] - 3) % c['p'] == 0 and (a[4] + c['b']) % c['p'] == 0)
    e = NISTEllipticCurve.by_name(crv)
    ensures('object', e.bits == c['bits'] and e.p == c['p'] and e.N == c['n'] and tuple(e.G) == ecref.base(crv) and e.bytes == c['size'] and e.name() == crv)
    ensures('octet-name', NISTEllipticCurve.by_name(crv.encode()).bits == c['bits'])
    ensures('public', tuple(e.public_key_for(k)) == ecref.public(crv, k))
    d, q = e.key_pair()
    ensures('pair', 0 < d < c['n'] and tuple(q) == ecref.mul(crv, d, ecref.base(crv)))
    kind, v = outcome(NISTEllipticCurve.by_name, crv + 'x')
    ensures('unknown', kind == 'exc')


def gen_element(rng, lits):
    from .c11 import bad_point
    crv = rng.choice(ecref.CURVES)
    return dict(crv=crv, pt=rand_point(rng, crv) if rng.random() < .4 else bad_point(rng, crv))


@contract('C15', gen=gen_element, need=[E('element')], covers=[E('element')], cases=300, sym=False, why='concrete values; for any values see curve_equation')
def membership(crv, pt):
    a, q, p = args(crv)
    x, y = pt
    ensures('element', bool(element(pt, a, q, p)) == ((y * y - (x * x * x - 3 * x + ecref.P[crv]['b'])) % p == 0))
