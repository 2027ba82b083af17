"""C11: ECDH-ES derives the RFC 7518 key and rejects invalid points."""
import json
from jwkest.ecc import NISTEllipticCurve
from jwkest.extra import ecdh_derive_key
from jwkest.jwe import JWE
from pv.api import *
from . import ref, ecref, jweref, jwsref, keys as K

KDF = target('jwkest.extra:concat_sha256')
COV = ['jwkest.extra:ecdh_derive_key', 'jwkest.extra:concat_sha256', 'jwkest.ecc:NISTEllipticCurve.dh_z', 'jwkest.elliptic:element',
       'jwkest.jwe:JWE_EC.enc_setup', 'jwkest.jwe:JWE_EC.dec_setup']


@contract('C11', inputs=dict(z=Bytes(lo=1, hi=70), info=Bytes(), bits=Int(8, 4096)), need=['jwkest.extra:concat_sha256'], covers=COV[1:2], cases=300,
          sym=False, why='sizes that no algorithm has; the others: kdf')
def key_derivation(z, info, bits):
    requires(bits % 8 == 0)
    out = b''
    i = 1
    while len(out) * 8 < bits:
        out += ref.hash_('sha256', i.to_bytes(4, 'big') + z + info)
        i += 1
    ensures('kdf', KDF(z, bits, info) == out[:bits // 8])


def small_x(crv, rng):
    """A private key whose products have short x coordinates now and then."""
    return rng.choice([1, 2, 3, ecref.P[crv]['n'] - 1, ecref.P[crv]['n'] - 2, rng.getrandbits(200) + 1])


def short_x_points(crv):
    """Points whose x coordinate has leading zero octets."""
    out = []
    x = 0
    while len(out) < 4:
        out += ecref.points_with_x(crv, x)[:1]
        x += 1 if x < 6 else 0x1234567
    return out


SHORT = {c: short_x_points(c) for c in ecref.CURVES}


def gen(rng, lits):
    crv = rng.choice(ecref.CURVES)
    d = small_x(crv, rng)
    pt = rng.choice(SHORT[crv] + [ecref.public(crv, rng.choice(K.EC_D))] * 4)
    if rng.random() < .3: d = rng.choice([1, ecref.P[crv]['n'] - 1])
    alg = rng.choice(jweref.ENCS + jweref.EC_ALGS + ['x', ''])
    return dict(crv=crv, d=d, pt=pt, apu=Bytes(hi=40).rand(rng, lits), apv=Bytes(hi=40).rand(rng, lits), alg=alg.encode(), bits=rng.choice([128, 192, 256, 384, 512]))


def gen_kdf(rng, lits):
    return dict(z=Bytes(lo=1, hi=70).rand(rng, lits), info=Bytes().rand(rng, lits), bits=rng.choice(BITS))


BITS = [128, 192, 256, 384, 512]


@contract('C11', inputs=dict(z=Bytes(lo=1), info=Bytes(), bits=OneOf(*BITS)), gen=gen_kdf, need=['jwkest.extra:concat_sha256'], covers=COV[1:2], cases=200)
def kdf(z, info, bits):
    """The concatenation KDF for every size of key there is to derive."""
    out = b''
    i = 1
    while len(out) * 8 < bits:
        out += ref.hash_('sha256', i.to_bytes(4, 'big') + z + info)
        i += 1
    ensures('kdf', KDF(z, bits, info) == out[:bits // 8])


def callees():
    from pv import curve
    return curve.elliptic()


def opaque_products(interp): interp.opaque_products = True


def gen_any(rng, lits):
    g = gen(rng, lits)
    return dict(crv=g['crv'], d=rng.choice(K.EC_D + [1, 3, 1 << 255]), e=rng.choice(K.EC_D + [1, 2, 3]), apu=g['apu'], apv=g['apv'], alg=g['alg'], bits=rng.choice(BITS))


@contract('C11', inputs=dict(crv=OneOf(*ecref.CURVES), d=Int(1, 1 << 255), e=Int(1, 1 << 255), apu=Bytes(hi=1 << 31), apv=Bytes(hi=1 << 31), alg=Bytes(hi=1 << 31), bits=OneOf(*BITS)), gen=gen_any,
          covers=COV[:4], cases=60, weight=2, uses=callees, setup=opaque_products, shard='crv')
def derived_any(crv, d, e, apu, apv, alg, bits):
    """Any private key, any point of the curve, any party information."""
    c = NISTEllipticCurve.by_name(crv)
    pt = ecref.public(crv, e)
    r = ecref.mul(crv, d, pt)
    kind, k = outcome(ecdh_derive_key, c, d, pt, apu, apv, alg, bits)
    if r is None: return
    ensures('derives', kind == 'ok')
    if kind == 'ok': ensures('key', k == jweref.kdf(r[0].to_bytes(ecref.P[crv]['size'], 'big'), alg, apu, apv, bits))


@contract('C11', inputs=dict(crv=OneOf(*ecref.CURVES), d=Int(1, 1 << 255), x=Int(), y=Int(), apu=Bytes(hi=1 << 31), alg=Bytes(hi=1 << 31), bits=OneOf(*BITS)),
          gen=lambda rng, lits: (lambda g: dict(crv=g['crv'], d=g['d'], x=g['pt'][0], y=g['pt'][1], apu=b'', alg=b'x', bits=256))(gen_bad(rng, lits)),
          covers=COV[:4], cases=100, weight=2, uses=callees, setup=opaque_products, shard='crv')
def invalid_any(crv, d, x, y, apu, alg, bits):
    """Any pair of integers that is no point of the curve is refused."""
    requires(not ecref.on_curve(crv, (x, y)))
    kind, v = outcome(ecdh_derive_key, NISTEllipticCurve.by_name(crv), d, (x, y), apu, b'', alg, bits)
    ensures('refused', kind == 'exc')


@contract('C11', gen=gen, covers=COV[:4], cases=200, weight=2, sym=False, why='concrete points and tokens; any values: kdf, derived_any, invalid_any')
def derived_key(crv, d, pt, apu, apv, alg, bits):
    c = NISTEllipticCurve.by_name(crv)
    z = jweref.shared(crv, d, pt)
    ensures('key', ecdh_derive_key(c, d, pt, apu, apv, alg, bits) == jweref.concat_kdf(z, alg.decode(), apu, apv, bits))


def bad_point(rng, crv, curves=ecref.CURVES):
    """A pair of integers that is not a point of the curve."""
    p = ecref.P[crv]['p']
    x, y = ecref.public(crv, rng.choice(K.EC_D))
    for _ in range(50):
        k = rng.random()
        if k < .2: pt = (x ^ (1 << rng.randrange(200)), y)
        elif k < .4: pt = (x, y ^ (1 << rng.randrange(200)))
        elif k < .5: pt = (x, y + p)
        elif k < .6: pt = (x + p, y)
        elif k < .65: pt = rng.choice([(0, 0), (1, 1), (p, p), (x, 0), (0, y), (p - 1, 1)])
        elif k < .75: pt = (y, x)
        elif k < .85: pt = ecref.public(rng.choice([c for c in curves if c != crv]), 5)
        else:
            # on the curve with another b (the classical attack)
            pt = (rng.getrandbits(250), rng.getrandbits(250))
        if not ecref.on_curve(crv, pt): return pt
    return (x, (y + 1) % p)


def gen_bad(rng, lits):
    crv = rng.choice(ecref.CURVES)
    return dict(crv=crv, d=small_x(crv, rng), pt=bad_point(rng, crv), alg=rng.choice(jweref.EC_ALGS), enc=rng.choice(['A128CBC-HS256', 'A256CBC-HS512']),
                named=rng.choice([crv, crv, crv, rng.choice(ecref.CURVES)]), seed=rng.getrandbits(30))




@contract('C11', gen=gen_bad, covers=COV, cases=200, weight=2, sym=False, why='concrete points and tokens; any values: kdf, derived_any, invalid_any')
def invalid_points(crv, d, pt, alg, enc, named, seed):
    """A pair that is no point of the curve is refused, whatever the private key, and before it is used."""
    c = NISTEllipticCurve.by_name(crv)
    for d2 in (d, 1, 2):
        kind, v = outcome(ecdh_derive_key, c, d2, pt, b'', b'', b'x', 256)
        ensures('refused', kind == 'exc')
    # the same within a token: sealed with what a careless recipient would derive
    import random
    rng = random.Random(seed)
    desc = dict(t='EC', crv=crv, d=d)
    p = ecref.P[crv]['p']
    for z in careless(crv, d, pt):
        h = dict(alg=alg, enc=enc, epk=dict(kty='EC', crv=named, x=b64i(pt[0]), y=b64i(pt[1])))
        cek = bytes(rng.getrandbits(8) for _ in range(jweref.CEK[enc]))
        ek = b''
        if alg == 'ECDH-ES': cek = jweref.concat_kdf(z, enc, b'', b'', 8 * jweref.CEK[enc])
        else: ek = ref.key_wrap(jweref.concat_kdf(z, alg, b'', b'', 8 * jweref.KW[alg[8:]]), cek)
        hp = ref.b64u(json.dumps(h).encode())
        iv = bytes(16)
        ct, tag = jweref.seal(enc, cek, iv, hp, b'message')
        t = b'.'.join([hp] + [ref.b64u(o) for o in (ek, iv, ct, tag)])
        kind, m = outcome(JWE().decrypt, t, [K.build(desc)])
        ensures('token-refused', kind == 'exc')


def b64i(n): return ref.b64u(ref.minbe(n)).decode('ascii')


def careless(crv, d, pt):
    """What arithmetic without a check gives as x coordinate of d * pt."""
    p = ecref.P[crv]['p']
    out = []
    try:
        r = None
        q = (pt[0] % p, pt[1] % p)
        for bit in bin(d)[2:]:
            r = ecref.add(p, r, r)
            if bit == '1': r = ecref.add(p, r, q)
        if r is not None: out.append(r[0].to_bytes(ecref.P[crv]['size'], 'big'))
    except ValueError: pass
    return out


def gen_tokens(rng, lits):
    crv = rng.choice(ecref.CURVES)
    n = ecref.P[crv]['n']
    return dict(crv=crv, d=rng.choice([1, 2, n - 1, n - 2, rng.getrandbits(240) + 2]), alg=rng.choice(jweref.EC_ALGS), enc=rng.choice(['A128CBC-HS256', 'A192CBC-HS384', 'A256CBC-HS512']),
                msg=Bytes(hi=20).rand(rng, lits), eph=rng.choice([1, 2, 3, n - 1, rng.getrandbits(250) + 1]), party=rng.random() < .7, seed=rng.getrandbits(30),
                short=rng.random() < .3, kx=rng.randrange(4))


@contract('C11', gen=gen_tokens, covers=COV, cases=120, weight=3, sym=False, why='concrete points and tokens; any values: kdf, derived_any, invalid_any')
def both_sides(crv, d, alg, enc, msg, eph, party, seed, short, kx):
    """The library opens what the reference seals and the reference opens what the library seals."""
    import random
    rng = random.Random(seed)
    desc = dict(t='EC', crv=crv, d=d)
    t = b'.'.join(jweref.make(rng, alg, enc, desc, msg, eph=eph, party=party))
    kind, m = outcome(JWE().decrypt, t, [K.build(desc)])
    ensures('opens', kind == 'ok' and m == msg)
    t = JWE(msg, alg=alg, enc=enc).encrypt([K.build(dict(desc, priv=False))])
    ensures('seals', [v for _, v in jweref.plaintexts(t, [desc])] == [msg])
    if short:
        # an ephemeral point with a short x coordinate, against d = 1: the agreed x is the point's
        pt = SHORT[crv][kx]
        z = jweref.shared(crv, d, pt)
        h = dict(alg=alg, enc=enc, epk=dict(kty='EC', crv=crv, x=b64i(pt[0]), y=b64i(pt[1])))
        cek = bytes(rng.getrandbits(8) for _ in range(jweref.CEK[enc]))
        ek = b''
        if alg == 'ECDH-ES': cek = jweref.concat_kdf(z, enc, b'', b'', 8 * jweref.CEK[enc])
        else: ek = ref.key_wrap(jweref.concat_kdf(z, alg, b'', b'', 8 * jweref.KW[alg[8:]]), cek)
        hp = ref.b64u(json.dumps(h).encode())
        ct, tag = jweref.seal(enc, cek, bytes(16), hp, msg)
        t = b'.'.join([hp] + [ref.b64u(o) for o in (ek, bytes(16), ct, tag)])
        kind, m = outcome(JWE().decrypt, t, [K.build(desc)])
        ensures('opens-short', kind == 'ok' and m == msg)
