"""C26: ECDSA is FIPS 186: exactly the valid signatures are accepted."""
from jwkest.ecc import NISTEllipticCurve
from pv.api import *
from pv.invariants import invariant
from . import ecref, keys as K

COV = ['jwkest.ecc:NISTEllipticCurve.verify', 'jwkest.ecc:NISTEllipticCurve.sign', 'jwkest.ecc:NISTEllipticCurve._sign_loop',
       'jwkest.ecc:NISTEllipticCurve.int2bytes', 'jwkest.ecc:NISTEllipticCurve.bytes2int']
W = 'concrete curve arithmetic; any values: verification_any, signing_any'
HLEN = {'P-256': 32, 'P-384': 48, 'P-521': 64}


def rand_key_d(rng, crv):
    n = ecref.P[crv]['n']
    return rng.choice(K.EC_D + [3, n - 1, n - 2])


def rand_hash(rng, crv):
    """A hash as an integer: what the curve's own hash function, or a longer one, gives."""
    n = 8 * HLEN[crv]
    return rng.choice([0, 1, ecref.P[crv]['n'] % (1 << n), (ecref.P[crv]['n'] + 5) % (1 << n), (1 << n) - 1, 1 << (n - 1)] + [rng.getrandbits(n)] * 8)


def e_of(crv, h): return h >> max(0, h.bit_length() - ecref.P[crv]['n'].bit_length())


def octets(crv, r, s):
    z = ecref.P[crv]['size']
    if r < 0 or s < 0 or max(r, s) >> (8 * z): return None
    return r.to_bytes(z, 'big') + s.to_bytes(z, 'big')


def gen(rng, lits):
    crv = rng.choice(ecref.CURVES)
    c = ecref.P[crv]
    n, z = c['n'], c['size']
    d = rand_key_d(rng, crv)
    h = rand_hash(rng, crv)
    e = e_of(crv, h)
    r, s = ecref.ecdsa_sign(crv, e, d, rng.choice([1, 2, 3, n - 1, rng.getrandbits(200) + 1]))
    if s == 0: s = 1
    k = rng.random()
    h2 = h
    if k < .25: pass
    elif k < .35: s = n - s
    elif k < .6:
        r, s = rng.choice([(0, s), (r, 0), (0, 0), (n, s), (r, n), (r + n, s), (r, s + n), (1, 1), (n - 1, n - 1), (s, r), (r, s ^ 1), (r ^ 1, s), ((-r) % n, s), (r, (s + 1) % n),
                           (c['p'] % (1 << 8 * z), s), (r + 1, s)])
    elif k < .7: h2 = h ^ (1 << rng.randrange(8 * HLEN[crv]))
    elif k < .8: d = rng.choice([x for x in K.EC_D if x != d])
    elif k < .9:
        # made so that one scalar of the sum is 0 or 1, or the two products coincide
        x = ecref.public(crv, d)
        u1, u2 = rng.choice([(0, 1), (1, 1), (0, 2), (5, 1), (d, 1), (n - d + 1, 1), (d, n - 1), (2, 2), (1, n - 1), (n - 1, 1)])
        pt = ecref.add(c['p'], ecref.mul(crv, u1, ecref.base(crv)), ecref.mul(crv, u2, x))
        if pt is not None:
            r = pt[0] % n
            s = r * pow(u2, -1, n) % n
            ee = u1 * s % n
            if ee.bit_length() <= 8 * HLEN[crv]: h2 = ee
    sig = octets(crv, r, s)
    if sig is None: sig = b''
    k = rng.random()
    if k < .04: sig = sig[:-1]
    elif k < .08: sig = sig + b'\0'
    elif k < .1: sig = b'\0' + sig
    elif k < .12: sig = b''
    elif k < .14: sig = sig[:z]
    elif k < .16: sig = sig[1:z] + sig[z:]
    elif k < .18: sig = sig[:z].lstrip(b'\0') + sig[z:].lstrip(b'\0')
    return dict(crv=crv, d=d, h=h2, sig=sig)


@contract('C26', gen=gen, covers=COV, cases=600, weight=4, sym=False, why=W)
def verification(crv, d, h, sig):
    c = NISTEllipticCurve.by_name(crv)
    z = ecref.P[crv]['size']
    pub = ecref.public(crv, d)
    kind, v = outcome(c.verify, h, sig, pub)
    want = len(sig) == 2 * z and ecref.ecdsa_ok(crv, e_of(crv, h), int.from_bytes(sig[:z], 'big'), int.from_bytes(sig[z:], 'big'), pub)
    if want: ensures('accepts', kind == 'ok' and v is True)
    else: ensures('rejects', kind == 'exc' or not v)


def gen_sign(rng, lits):
    crv = rng.choice(ecref.CURVES)
    n = ecref.P[crv]['n']
    return dict(crv=crv, d=rand_key_d(rng, crv), h=rand_hash(rng, crv), k=rng.choice([None, None, 1, 2, n - 1, rng.getrandbits(250) + 1]))


@contract('C26', gen=gen_sign, covers=COV, cases=250, weight=3, sym=False, why=W)
def signing(crv, d, h, k):
    c = NISTEllipticCurve.by_name(crv)
    n, z = ecref.P[crv]['n'], ecref.P[crv]['size']
    e = e_of(crv, h)
    if k is None: sig = c.sign(h, d)
    else:
        requires(k < n and ecref.ecdsa_sign(crv, e, d, k)[1] != 0)
        sig = c.sign(h, d, k)
        ensures('with-nonce', sig == octets(crv, *ecref.ecdsa_sign(crv, e, d, k)))
    ensures('length', len(sig) == 2 * z)
    r, s = int.from_bytes(sig[:z], 'big'), int.from_bytes(sig[z:], 'big')
    ensures('valid', ecref.ecdsa_ok(crv, e, r, s, ecref.public(crv, d)))
    ensures('verifies', c.verify(h, sig, ecref.public(crv, d)) is True)
    t = (e + r * d) * pow(s, -1, n) % n
    ensures('nonce-range', 1 <= t < n and ecref.mul(crv, t, ecref.base(crv))[0] % n == r)


@contract('C26', gen=lambda rng, lits: dict(crv=rng.choice(ecref.CURVES), d=rng.choice(K.EC_D), h=rng.getrandbits(rng.choice([512, 521, 530, 640, 1024])) | 1 << 511), covers=COV[:3],
          cases=60, sym=False, why=W)
def long_hashes(crv, d, h):
    """Only the leading bits of a hash longer than the order count."""
    c = NISTEllipticCurve.by_name(crv)
    e = e_of(crv, h)
    sig = octets(crv, *ecref.ecdsa_sign(crv, e, d, 77))
    ensures('accepts', c.verify(h, sig, ecref.public(crv, d)) is True)
    sig = c.sign(h, d)
    z = ecref.P[crv]['size']
    ensures('signs', ecref.ecdsa_ok(crv, e, int.from_bytes(sig[:z], 'big'), int.from_bytes(sig[z:], 'big'), ecref.public(crv, d)))


def gen_point(rng, lits):
    """A public key made so that the sum of the two multiples is a chosen point R, whose x may well exceed the order."""
    crv = rng.choice(ecref.CURVES)
    c = ecref.P[crv]
    p, n = c['p'], c['n']
    x = rng.choice([n + rng.randint(1, 200), n + rng.getrandbits(60), p - rng.randint(1, 200), rng.randint(0, 300), rng.randrange(p)]) % p
    while True:
        y2 = (x ** 3 - 3 * x + c['b']) % p
        y = pow(y2, (p + 1) // 4, p)
        if y * y % p == y2 and x % n: break
        x = (x + 1) % p
    h = rng.getrandbits(8 * HLEN[crv])
    r, s = x % n, rng.randrange(1, n)
    u1, u2 = h * pow(s, -1, n) % n, r * pow(s, -1, n) % n
    q = ecref.mul(crv, pow(u2, -1, n), ecref.add(p, (x, y), ecref.mul(crv, (n - u1) % n, ecref.base(crv))))
    k = rng.random()
    if k < .2: r = (r + 1) % n
    elif k < .3 and x < c['p']: r = x
    elif k < .4: h ^= 1
    sig = octets(crv, r, s)
    return dict(crv=crv, q=q, h=h, sig=sig)


@contract('C26', gen=gen_point, covers=COV[:1], cases=60, weight=2, sym=False, why=W)
def rare_points(crv, q, h, sig):
    """The sum of the two multiples is taken modulo the order before it is compared."""
    requires(q is not None)
    z = ecref.P[crv]['size']
    kind, v = outcome(NISTEllipticCurve.by_name(crv).verify, h, sig, q)
    want = len(sig) == 2 * z and ecref.ecdsa_ok(crv, e_of(crv, h), int.from_bytes(sig[:z], 'big'), int.from_bytes(sig[z:], 'big'), q)
    if want: ensures('accepts', kind == 'ok' and v is True)
    else: ensures('rejects', kind == 'exc' or not v)


def opaque_products(interp): interp.opaque_products = True


def callees():
    from pv import curve
    return curve.elliptic()


@contract('C26', inputs=dict(crv=OneOf(*ecref.CURVES), d=Int(1, 1 << 255), h=Int(0), sig=Bytes()), gen=gen, covers=COV, cases=100, weight=3, uses=callees, setup=opaque_products, shard='crv')
def verification_any(crv, d, h, sig):
    """Any hash, any octets, any public key: accepted exactly where FIPS 186 accepts."""
    c = NISTEllipticCurve.by_name(crv)
    z = ecref.P[crv]['size']
    pub = ecref.public(crv, d)
    kind, v = outcome(c.verify, h, sig, pub)
    want = len(sig) == 2 * z and ecref.ecdsa_ok(crv, e_of(crv, h), int.from_bytes(sig[:z], 'big'), int.from_bytes(sig[z:], 'big'), pub)
    if want: ensures('accepts', kind == 'ok' and v is True)
    else: ensures('rejects', kind == 'exc' or not v)


@invariant('jwkest.ecc:NISTEllipticCurve._sign_loop', 0, k='int or None', r='nat', s='nat')
def sign_loop(self, r, s, h, k, priv):
    """The nonce is in range, and r and s are made of it (or still 0)."""
    n = self.N
    if k is not None and not 0 < k < n: return (False,)
    if r == 0 or s == 0: return (r < n, s < n)
    if k is None: return (False,)
    x = ecref.mul(self.name(), k, self.G)
    if x is None: return (False,)
    return (r == x[0] % n, s == pow(k, -1, n) * (h + r * priv) % n)


def gen_sign_any(rng, lits):
    crv = rng.choice(ecref.CURVES)
    return dict(crv=crv, d=rng.choice(K.EC_D + [3, 1 << 255]), h=rand_hash(rng, crv))


@contract('C26', inputs=dict(crv=OneOf(*ecref.CURVES), d=Int(1, 1 << 255), h=Int(0)), gen=gen_sign_any, covers=COV, cases=60, weight=3, uses=callees, setup=opaque_products, shard='crv')
def signing_any(crv, d, h):
    """Any hash, any private key: the signature is valid under the public point."""
    c = NISTEllipticCurve.by_name(crv)
    z = ecref.P[crv]['size']
    kind, sig = outcome(c.sign, h, d)
    ensures('signs', kind == 'ok')
    ensures('length', len(sig) == 2 * z)
    r, s = int.from_bytes(sig[:z], 'big'), int.from_bytes(sig[z:], 'big')
    ensures('valid', ecref.ecdsa_ok(crv, e_of(crv, h), r, s, ecref.public(crv, d)))
