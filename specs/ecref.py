"""Elliptic curves and ECDSA as FIPS 186-4 / SEC 1 state them.

y^2 = x^3 - 3x + b over GF(p); points are (x, y) with 0 <= x, y < p, the
neutral element is None.  Plain affine arithmetic, one formula per case.
"""
P = {
    'P-256': dict(
        p=2 ** 256 - 2 ** 224 + 2 ** 192 + 2 ** 96 - 1,
        n=0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551,
        b=0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b,
        gx=0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296,
        gy=0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5, size=32, bits=256),
    'P-384': dict(
        p=2 ** 384 - 2 ** 128 - 2 ** 96 + 2 ** 32 - 1,
        n=0xffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973,
        b=0xb3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef,
        gx=0xaa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7,
        gy=0x3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f,
        size=48, bits=384),
    'P-521': dict(
        p=2 ** 521 - 1,
        n=0x1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409,
        b=0x051953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00,
        gx=0xc6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66,
        gy=0x11839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650,
        size=66, bits=521),
}
CURVES = ('P-256', 'P-384', 'P-521')


def base(crv): return (P[crv]['gx'], P[crv]['gy'])


def on_curve(crv, pt):
    p = P[crv]['p']
    x, y = pt
    return 0 <= x < p and 0 <= y < p and (y * y - (x * x * x - 3 * x + P[crv]['b'])) % p == 0


def neg(p, pt):
    return None if pt is None else (pt[0], (-pt[1]) % p)


def add(p, a, b): return affine_sum(p, a, b)


def affine_sum(p, a, b):
    """The chord and tangent rule."""
    if a is None: return b
    if b is None: return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % p == 0: return None
        s = (3 * a[0] * a[0] - 3) * pow(2 * a[1], -1, p) % p
    else:
        s = (b[1] - a[1]) * pow(b[0] - a[0], -1, p) % p
    x = (s * s - a[0] - b[0]) % p
    return (x, (s * (a[0] - x) - a[1]) % p)


def mul(crv, k, pt):
    p = P[crv]['p']
    r = None
    for bit in bin(k)[2:] if k else '':
        r = add(p, r, r)
        if bit == '1': r = add(p, r, pt)
    return r


_PUB = {}


def public(crv, d):
    k = (crv, d)
    if k not in _PUB: _PUB[k] = mul(crv, d, base(crv))
    return _PUB[k]


def points_with_x(crv, x):
    """The points with this x coordinate (0, 1 or 2): every p here is 3 mod 4."""
    p = P[crv]['p']
    a = (x * x * x - 3 * x + P[crv]['b']) % p
    y = pow(a, (p + 1) // 4, p)
    if y * y % p != a: return []
    return [(x, y), (x, p - y)]


def truncated(crv, digest):
    """The integer e of FIPS 186-4 section 6.4 for a digest."""
    n = P[crv]['n']
    e = int.from_bytes(digest, 'big')
    return e >> max(0, 8 * len(digest) - n.bit_length())


def ecdsa_ok(crv, e, r, s, pub):
    """FIPS 186-4 section 6.4 / SEC 1 section 4.1.4 with the hash as integer e."""
    c = P[crv]
    n = c['n']
    if not (1 <= r < n and 1 <= s < n): return False
    w = pow(s, -1, n)
    if pub[0] >= c['p'] or pub[1] >= c['p']: pub = (pub[0] % c['p'], pub[1] % c['p'])
    pt = add(c['p'], mul(crv, e * w % n, base(crv)), mul(crv, r * w % n, pub))
    return pt is not None and pt[0] % n == r


def ecdsa_sign(crv, e, d, k):
    c = P[crv]
    n = c['n']
    r = mul(crv, k, base(crv))[0] % n
    s = pow(k, -1, n) * (e + r * d) % n
    return r, s


# Lists of digits -1, 0, 1 (or any integers), as numbers to base 2
def low_value(r):
    """The least significant digit first."""
    return sum(d << i for i, d in enumerate(r))


def prefix_value(s, i):
    """The first i digits, the most significant one first."""
    v = 0
    for d in s[:i]: v = 2 * v + d
    return v


def high_value(s): return prefix_value(s, len(s))


# Points in Jacobian coordinates: (X, Y, Z, Z^2, Z^3) for (X/Z^2, Y/Z^3)
def jacobian(p, pt, z): return None if pt is None else (pt[0] * z * z % p, pt[1] * z * z * z % p, z, z * z % p, z * z * z % p)


def affine(p, j):
    if j is None: return None
    i = pow(j[2], -1, p)
    return (j[0] * i * i % p, j[1] * i * i * i % p)


def consistent(p, j): return j is None or (j[2] * j[2] - j[3]) % p == 0 and (j[3] * j[2] - j[4]) % p == 0 and j[2] % p != 0


def is_multiple(p, j, k, a):
    """j = k a, both in Jacobian coordinates."""
    crv = [c for c in CURVES if P[c]['p'] == p][0]
    r = mul(crv, abs(k), affine(p, a))
    return affine(p, j) == (r if k >= 0 else neg(p, r))


def is_sum(p, j, k, a, l, b):
    """j = k a + l b, all points in Jacobian coordinates."""
    crv = [c for c in CURVES if P[c]['p'] == p][0]
    r, s = mul(crv, abs(k), affine(p, a)), mul(crv, abs(l), affine(p, b))
    return affine(p, j) == add(p, r if k >= 0 else neg(p, r), s if l >= 0 else neg(p, s))
