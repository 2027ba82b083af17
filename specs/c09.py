"""C09: JWE encryption round-trips."""
import json
from jwkest.jwe import JWE
from pv.api import *
from . import ref, jweref, jwsref, keys as K
from .c08 import key_for, rand_enc, others

COV = ['jwkest.jwe:JWE.encrypt', 'jwkest.jwe:JWE_RSA.encrypt', 'jwkest.jwe:JWE_SYM.encrypt', 'jwkest.jwe:JWE_EC.enc_setup', 'jwkest.jwe:JWE_EC.encrypt',
       'jwkest.jwe:JWE.decrypt', 'jwkest.jwe:JWe.enc_setup', 'jwkest.jwe:JWe._decrypt', 'jwkest.jwt:JWT.pack']


def long_msg(rng, lits, n=None):
    """Long and compressible, or long and not."""
    n = n or rng.choice(BIG[-12:] + [70000, 200000, 300001] + [x + rng.choice([-1, 0, 1]) for x in lits.ints if 5000 < x < 1 << 20])
    return (bytes(rng.getrandbits(8) for _ in range(rng.choice([1, 7, 64]))) * n)[:n] if rng.random() < .8 else rng.getrandbits(8 * n).to_bytes(n, 'big')


def rand_msg(rng, lits):
    return rng.choice([Bytes(hi=300).rand(rng, lits), Bytes(hi=40).rand(rng, lits), Str(hi=80).rand(rng, lits), json.dumps(Json('dict').rand(rng, lits))])


def gen(rng, lits):
    alg, enc = lits.turn('alg', jweref.ALGS), rand_enc(rng)
    d = dict(key_for(rng, alg), **({'kid': rng.choice(['a', 'b'])} if rng.random() < .4 else {}))
    if rng.random() < .2: d['use'] = 'enc'
    ds = others(rng, d, alg)
    pos = rng.randint(0, len(ds))
    hdr = {}
    if rng.random() < .3: hdr['typ'] = rng.choice(['JWE', 'JWT'])
    if rng.random() < .3: hdr['cty'] = rng.choice(['JWT', 'text/plain'])
    if rng.random() < .2: hdr['zip'] = 'DEF'
    msg = rand_msg(rng, lits)
    if alg.startswith('ECDH') and rng.random() < .3: hdr['apu'] = ref.b64u(bytes(rng.getrandbits(8) for _ in range(rng.choice([1, 5])))) 
    return dict(alg=alg, enc=enc, d=d, ds=ds, pos=pos, hdr=hdr, msg=msg, decoys=rng.random() < .4)


@contract('C09', gen=gen, covers=COV, cases=300, weight=6, sym=False, why='needs the RSA and EC key material of every recipient: see content')
def round_trip(alg, enc, d, ds, pos, hdr, msg, decoys):
    pub = dict(d, priv=False)
    offered = [K.build(pub)]
    if decoys: offered += [K.build(x) for x in ds if x['t'] != d['t']]
    hdr = dict(hdr)
    kind, t = outcome(JWE(msg, alg=alg, enc=enc, **hdr).encrypt, offered)
    if 'apu' in hdr and not isinstance(hdr['apu'], str) and kind == 'exc': return
    ensures('encrypts', kind == 'ok')
    if kind != 'ok': return
    octets = msg if isinstance(msg, bytes) else msg.encode('utf-8')
    ps = jwsref.split(t)
    ensures('five-parts', len(ps) == 5)
    h = jwsref.header(ref.b64u_dec(ps[0]))
    ensures('names', h['alg'] == alg and h['enc'] == enc)
    ensures('kid', h.get('kid') == d['kid'] if d.get('kid') and alg.startswith('A') else True)
    ensures('no-secrets', not any(x in h for x in ('cek', 'key', 'd')) and not any(x in h.get('epk', {}) for x in ('d', 'k', 'p', 'q')))
    r = jweref.plaintexts(t, [d])
    ensures('reference', [v for _, v in r] == [octets])
    keys = [K.build(x) for x in ds]
    keys.insert(pos, K.build(d))
    for tok in (t, t.encode('ascii') if isinstance(t, str) else t):
        kind, m = outcome(JWE().decrypt, tok, keys)
        ensures('decrypts', kind == 'ok' and m == octets)


def gen_long(rng, lits):
    zip = lits.turn('zip', [True, True, False])
    alg = lits.turn('alg', jweref.ALGS)
    d = key_for(rng, alg)
    return dict(alg=alg, enc=rng.choice(['A128CBC-HS256', 'A192CBC-HS384', 'A256CBC-HS512']) if rng.random() < .8 else 'A128GCM', d=d, hdr={'zip': 'DEF'} if zip else {}, msg=long_msg(rng, lits, lits.turn('n', [65537, 200000, 8193, 65535, 300001, None, None])))


@contract('C09', gen=gen_long, covers=COV, cases=45, weight=5, sym=False, why='needs the RSA and EC key material of every recipient: see content')
def long_messages(alg, enc, d, hdr, msg):
    """Long messages, compressed or not."""
    t = JWE(msg, alg=alg, enc=enc, **hdr).encrypt([K.build(dict(d, priv=False))])
    ensures('reference', [v for _, v in jweref.plaintexts(t, [d])] == [msg])
    kind, m = outcome(JWE().decrypt, t, [K.build(d)])
    ensures('decrypts', kind == 'ok' and m == msg)


def gen_foreign(rng, lits):
    alg, enc = lits.turn('alg', jweref.ALGS), rand_enc(rng)
    d = key_for(rng, alg)
    ds = others(rng, d, alg)
    msg = Bytes(hi=200).rand(rng, lits)
    ps = jweref.make(rng, alg, enc, d, msg, {'kid': 'a'} if rng.random() < .2 else {}, eph=rng.choice([None, rng.getrandbits(200) + 1]))
    return dict(token=b'.'.join(ps), d=d, ds=ds, pos=rng.randint(0, len(ds)), msg=msg)


@contract('C09', gen=gen_foreign, covers=COV, cases=200, weight=5, sym=False, why='needs the RSA and EC key material of every recipient: see content')
def decrypts_reference_tokens(token, d, ds, pos, msg):
    """Tokens made by the reference implementation open, wherever the key stands."""
    keys = [K.build(x) for x in ds]
    keys.insert(pos, K.build(d))
    kind, m = outcome(JWE().decrypt, token, keys)
    ensures('decrypts', kind == 'ok' and m == msg)


def gen_again(rng, lits):
    ops = []
    for _ in range(rng.choice([2, 3])):
        alg = rng.choice(jweref.ALGS)
        ops.append((alg, rng.choice(['A128CBC-HS256', 'A192CBC-HS384', 'A256CBC-HS512', 'A128CBC-HS256', 'A128GCM']), key_for(rng, alg)))
    return dict(ops=ops, msg=rand_msg(rng, lits))


@contract('C09', gen=gen_again, covers=COV, cases=60, weight=5, sym=False, why='histories of operations on one object')
def repeated(ops, msg):
    """One object used for one operation after the other."""
    octets = msg if isinstance(msg, bytes) else msg.encode('utf-8')
    alg, enc, d = ops[0]
    j = JWE(msg, alg=alg, enc=enc)
    for _ in range(2):
        for alg, enc, d in ops:
            j['alg'], j['enc'] = alg, enc
            t = j.encrypt([K.build(dict(d, priv=False))])
            ensures('reference', [v for _, v in jweref.plaintexts(t, [d])] == [octets])
            kind, m = outcome(j.decrypt, t, [K.build(d)])
            ensures('decrypts', kind == 'ok' and m == octets)
