"""C10: secrets are fresh and come from a CSPRNG."""
import json
from jwkest.ecc import NISTEllipticCurve
from jwkest.jwe import JWE
from jwkest.jwk import ECKey
from jwkest.jws import JWS
from pv import rng as R
from pv.api import *
from . import ref, ecref, jweref, jwsref, sigref, keys as K
from .c08 import key_for

GEN = target('jwkest.jwe:JWe._generate_key_and_iv')
COV = ['jwkest.jwe:JWe._generate_key_and_iv', 'jwkest.jwe:JWE.encrypt', 'jwkest.jwe:JWE_EC.enc_setup', 'jwkest.ecc:NISTEllipticCurve.key_pair',
       'jwkest.ecc:NISTEllipticCurve.sign', 'jwkest.ecc:NISTEllipticCurve._sign_loop']


def secrets_of_token(t, d):
    """{name: octets} of what a token was made with."""
    ps = [ref.b64u_dec(p) for p in jwsref.split(t)]
    h = jwsref.header(ps[0])
    out = dict(iv=ps[2])
    if h['alg'] != 'ECDH-ES': out['cek'] = jweref.cek_of(h, d, ps[1])
    if 'epk' in h:
        out['epk'] = ref.b64u_dec(h['epk']['x'].encode())
    return out


def nonce(alg, d, msg, sig):
    """ECDSA nonce as octets, from a signature and the private key."""
    c = ecref.P[d['crv']]
    n, z = c['n'], c['size']
    r, s = int.from_bytes(sig[:z], 'big'), int.from_bytes(sig[z:], 'big')
    e = ecref.truncated(d['crv'], sigref.digest(sigref.HASH[alg[2:]], msg))
    return ((e + r * d['d']) * pow(s, -1, n) % n).to_bytes(z, 'big')


def operation(op):
    """Runs one randomized operation: {name of secret: octets}."""
    if op[0] == 'jwe':
        _, alg, enc, d = op
        t = JWE(b'message', alg=alg, enc=enc).encrypt([K.build(dict(d, priv=False))])
        return secrets_of_token(t, d)
    if op[0] == 'key':
        c = NISTEllipticCurve.by_name(op[1])
        if op[2] == 'pair': return dict(d=c.key_pair()[0].to_bytes(c.bytes, 'big'))
        k = ECKey().load_key(c)
        return dict(d=k.d.to_bytes(c.bytes, 'big'))
    _, alg, d = op
    t = JWS('message', alg=alg).sign_compact([K.build(d)])
    a, b, c = t.encode().split(b'.')
    return dict(nonce=nonce(alg, d, a + b'.' + b, ref.b64u_dec(c)))


def needed(op):
    """{name of secret: octets it must have}"""
    if op[0] == 'jwe':
        n = dict(iv=jweref.ivlen(op[2]))
        if op[1] != 'ECDH-ES': n['cek'] = jweref.CEK[op[2]]
        if op[1].startswith('ECDH'): n['epk'] = ecref.P[op[3]['crv']]['size']
        return n
    if op[0] == 'key': return dict(d=ecref.P[op[1]]['size'])
    return dict(nonce=ecref.P[op[2]['crv']]['size'])


def rand_op(rng, gcm=True):
    k = rng.random()
    if k < .5:
        alg = rng.choice(jweref.ALGS)
        enc = rng.choice(['A128CBC-HS256', 'A192CBC-HS384', 'A256CBC-HS512'])
        if gcm and rng.random() < .15: enc = rng.choice(['A128GCM', 'A192GCM', 'A256GCM'])
        return ('jwe', alg, enc, key_for(rng, alg))
    if k < .75: return ('key', rng.choice(ecref.CURVES), rng.choice(['pair', 'load']))
    alg = rng.choice(['ES256', 'ES384', 'ES512'])
    return ('sig', alg, dict(t='EC', crv=sigref.EC_OF[alg], d=rng.choice(K.EC_D)))


def pieces(o, n=8):
    return set(o[i:i + n] for i in range(len(o) - n + 1))


def gen(rng, lits): return dict(op=rand_op(rng), a=rng.getrandbits(30), b=rng.getrandbits(30))


@contract('C10', gen=gen, covers=COV, cases=60, weight=4, sym=False, why='the source of randomness is outside the program: see generated')
def from_the_csprng(op, a, b):
    """With everything else held still the secrets follow the generator, and use enough of it."""
    requires(a != b)
    with R.still():
        R.stream(a)
        s1 = operation(op)
        used = sum(len(x) for x in R.drawn())
        R.stream(b)
        s2 = operation(op)
    need = needed(op)
    ensures('kinds', set(s1) == set(need))
    for n in need:
        ensures('%s-length' % n, len(s1[n]) == need[n])
        ensures('%s-follows' % n, not (pieces(s1[n][1:]) & pieces(s2[n][1:])))
    ensures('enough', used >= sum(need.values()))


def gen_hist(rng, lits):
    ops = [rand_op(rng, False) for _ in range(rng.choice([1, 1, 2, 3]))]
    return dict(ops=ops, again=rng.choice([2, 3]))


@contract('C10', gen=gen_hist, covers=COV, cases=50, weight=4, sym=False, why='the source of randomness is outside the program: see generated')
def fresh_every_time(ops, again):
    """No random octets are used twice, within an operation or across operations."""
    R.real()
    seen = {}
    for i in range(again):
        for j, op in enumerate(ops):
            for n, o in operation(op).items():
                ps = pieces(o[1:])
                for other, qs in seen.items():
                    ensures('no-reuse', not (ps & qs))
                ensures('no-repetition', len(ps) == len(o) - 8)
                seen[(i, j, n)] = ps


def gen_obj(rng, lits):
    ops = []
    for _ in range(rng.choice([2, 3, 4])):
        op = rand_op(rng, False)
        while op[0] != 'jwe': op = rand_op(rng, False)
        ops.append(op)
    return dict(ops=ops)


@contract('C10', gen=gen_obj, covers=COV, cases=50, weight=4, sym=False, why='the source of randomness is outside the program: see generated')
def fresh_on_one_object(ops):
    """The same, for one object used for one operation after the other (encryption, then decryption)."""
    R.real()
    j = JWE(b'message', alg='x', enc='y')
    seen = []
    for _, alg, enc, d in ops:
        j['alg'], j['enc'] = alg, enc
        t = j.encrypt([K.build(dict(d, priv=False))])
        s = secrets_of_token(t, d)
        for n, k in needed(('jwe', alg, enc, d)).items(): ensures('%s-length' % n, len(s[n]) == k)
        for o in s.values():
            ps = pieces(o[1:])
            ensures('no-reuse', not any(ps & q for q in seen))
            seen.append(ps)
        m = j.decrypt(t, [K.build(d)])
        ensures('decrypts', m == b'message')


def rank(rows):
    """Rank over GF(2) of integers as bit vectors."""
    basis = {}
    for r in rows:
        while r:
            h = r.bit_length()
            if h not in basis:
                basis[h] = r
                break
            r ^= basis[h]
    return len(basis)


CBC = [('A128CBC-HS256', 32, 16), ('A192CBC-HS384', 48, 16), ('A256CBC-HS512', 64, 16)]


def gen_rank(rng, lits):
    return dict(enc=rng.choice(CBC))


@contract('C10', gen=gen_rank, fixed=[dict(enc=e) for e in CBC], covers=COV, cases=2, weight=5, sym=False, case_s=60,
          why='the source of randomness is outside the program: see generated')
def every_bit(enc):
    """Content keys and vectors span the whole space."""
    R.real()
    name, n, m = enc
    d = dict(t='oct', k=b'secret')
    key = K.build(d)
    ks, vs = [], []
    for _ in range(8 * n + 60):
        ps = [ref.b64u_dec(p) for p in jwsref.split(JWE(b'', alg='A128KW', enc=name).encrypt([key]))]
        vs.append(int.from_bytes(ps[2], 'big'))
        ks.append(int.from_bytes(jweref.cek_of(dict(alg='A128KW', enc=name), d, ps[1]), 'big'))
    one = 1 << (8 * n + 8)
    ensures('cek', rank([k | one for k in ks]) == 8 * n + 1)
    ensures('iv', rank([v | one for v in vs]) == 8 * m + 1)
    ensures('together', rank([(k << (8 * m)) | v for k, v in zip(ks[:8 * n], vs)]) >= 8 * n - 20)


GCM = [('A128GCM', 16, 12), ('A192GCM', 24, 12), ('A256GCM', 32, 12)]


@contract('C10', gen=lambda rng, lits: dict(enc=rng.choice(GCM + CBC)), fixed=[dict(enc=e) for e in GCM], covers=COV, cases=2, sym=False,
          need=['jwkest.jwe:JWe._generate_key_and_iv'], why='the source of randomness is outside the program: see generated')
def every_bit_generated(enc):
    R.real()
    name, n, m = enc
    r = [GEN(name) for _ in range(8 * n + 60)]
    one = 1 << (8 * n + 8)
    ensures('cek', rank([int.from_bytes(k, 'big') | one for k, v in r]) == 8 * n + 1 and all(len(k) == n for k, v in r))
    ensures('iv', rank([int.from_bytes(v, 'big') | one for k, v in r]) == 8 * m + 1 and all(len(v) == m for k, v in r))


@contract('C10', gen=lambda rng, lits: dict(crv=rng.choice(ecref.CURVES), n=40), fixed=[dict(crv='P-256', n=330)], covers=COV, cases=3, weight=3, sym=False,
          case_s=60, why='the source of randomness is outside the program: see generated')
def every_bit_of_ec_keys(crv, n):
    """Private keys and nonces reach all of the range of the curve's order."""
    R.real()
    c = NISTEllipticCurve.by_name(crv)
    order, bits = ecref.P[crv]['n'], ecref.P[crv]['bits']
    ds = [c.key_pair()[0] for _ in range(n)]
    ks = []
    d = 12345
    for i in range(n):
        sig = c.sign(i, d)
        z = ecref.P[crv]['size']
        r, s = int.from_bytes(sig[:z], 'big'), int.from_bytes(sig[z:], 'big')
        ks.append((i + r * d) * pow(s, -1, order) % order)
    for name, xs in (('key', ds), ('nonce', ks)):
        ensures(name + '-range', all(0 < x < order for x in xs))
        ensures(name + '-distinct', len(set(xs)) == n)
        full = rank([x | (1 << (bits + 1)) for x in xs])
        ensures(name + '-bits', full >= min(n, bits + 1) - 1)
        o = a = 0
        for x in xs: o |= x
        a = xs[0]
        for x in xs: a &= x
        ensures(name + '-all', o == (1 << bits) - 1 and a == 0)


def gen_given(rng, lits):
    alg = rng.choice(jweref.ALGS)
    enc = rng.choice(['A128CBC-HS256', 'A192CBC-HS384', 'A256CBC-HS512', 'A128CBC-HS256', 'A128GCM'])
    rb = lambda n: bytes(rng.getrandbits(8) for _ in range(n))
    k = rng.random()
    return dict(alg=alg, enc=enc, d=key_for(rng, alg), cek=rb(jweref.CEK[enc]) if k < .7 else None,
                iv=rb(jweref.ivlen(enc)) if k > .3 else None)


@contract('C10', gen=gen_given, covers=COV, cases=60, weight=3, sym=False, why='the source of randomness is outside the program: see generated')
def given_values_are_used(alg, enc, d, cek, iv):
    kw = {}
    if cek is not None: kw['cek'] = cek
    if iv is not None: kw['iv'] = iv
    t = JWE(b'message', alg=alg, enc=enc).encrypt([K.build(dict(d, priv=False))], **kw)
    ps = jwsref.split(t)
    o = [ref.b64u_dec(p) for p in ps]
    if iv is not None: ensures('iv', o[2] == iv)
    else: ensures('fresh-iv', len(o[2]) == jweref.ivlen(enc))
    if alg.startswith('RSA') and cek is not None:
        ensures('cek', jweref.open_(enc, cek, o[2], ps[0], o[3], o[4]) == b'message')
    elif alg != 'ECDH-ES':
        k = jweref.cek_of(jwsref.header(o[0]), d, o[1])
        if cek is not None: ensures('cek', k == cek)
        ensures('used', jweref.open_(enc, k, o[2], ps[0], o[3], o[4]) == b'message')
