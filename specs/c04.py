"""C04: only matching keys are used, and all of them."""
from jwkest.jws import JWS
from jwkest.jwe import JWE
from jwkest.jwk import Key
from pv.api import *
from . import ref, sigref, keys as K
from .c07 import key_for

COV = ['jwkest.jws:JWx.pick_keys', 'jwkest.jws:alg2keytype', 'jwkest.jwe:alg2keytype', 'jwkest.jwe:JWe.alg2keytype', 'jwkest.jws:JWx.alg2keytype']
JWE_KTY = {'RSA1_5': 'RSA', 'RSA-OAEP': 'RSA', 'RSA-OAEP-256': 'RSA', 'A128KW': 'oct', 'A192KW': 'oct', 'A256KW': 'oct',
           'ECDH-ES': 'EC', 'ECDH-ES+A128KW': 'EC', 'ECDH-ES+A192KW': 'EC', 'ECDH-ES+A256KW': 'EC'}
JWS_KTY = dict((a, sigref.kty(a)) for a in sigref.ALGS)


def eligible(key, kty, kid, use, alg):
    """key: an object with kty, kid, use and alg (texts, '' for not stated)."""
    if key.kty != kty: return False
    if kid and key.kid != kid: return False
    if use and key.use and key.use != use: return False
    if alg and key.alg and key.alg != alg: return False
    return True


def rand_desc(rng, algs, asked=None):
    d = dict(kty=rng.choice(['RSA', 'EC', 'oct', 'RSA', 'EC', 'oct', 'foo', '']))
    if rng.random() < .6: d['kid'] = rng.choice(['a', 'b', 'A', 'ab', '1'])
    if rng.random() < .5: d['use'] = rng.choice(['sig', 'enc', 'other'])
    if rng.random() < .4: d['alg'] = rng.choice(algs) if asked is None or rng.random() < .6 else K.related(rng, asked)
    return d


def gen(rng, lits):
    jwe = rng.random() < .4
    kt = JWE_KTY if jwe else JWS_KTY
    alg = rng.choice(sorted(kt))
    algs = [alg, alg] + sorted(JWE_KTY) + sorted(JWS_KTY)
    ks = [rand_desc(rng, algs, alg) for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 20]))]
    ctor = {'alg': alg} if rng.random() < .6 else {}
    if rng.random() < .4:
        ctor['kid'] = rng.choice(['a', 'b', ''])
        ctor['alg'] = alg
    return dict(jwe=jwe, alg=alg, ks=ks, ctor=ctor, use=rng.choice(['', '', 'sig', 'enc']), explicit=rng.random() < .5)


@contract('C04', gen=gen, covers=COV, cases=1500, sym=False, why='key lists of any length: see selection')
def picked(jwe, alg, ks, ctor, use, explicit):
    keys = [Key(**d) for d in ks]
    j = (JWE if jwe else JWS)(**ctor)
    if explicit or not ctor: r = j.pick_keys(keys, use=use, alg=alg)
    else: r = j.pick_keys(keys, use=use)
    kty = (JWE_KTY if jwe else JWS_KTY)[alg]
    want = [k for k in keys if eligible(k, kty, ctor.get('kid'), use, alg)]
    ensures('exactly', len(r) == len(want) and all(a is b for a, b in zip(r, want)))


def gen_verify(rng, lits):
    """Tokens and key sets where which key is tried decides the outcome."""
    alg = rng.choice(['HS256', 'HS512', 'HS384', 'ES256', 'RS256', 'PS256'])
    d = dict(key_for(rng, alg), **K.rand_meta(rng, .8, alg, 'sig'))
    ds = [dict(key_for(rng, alg), **K.rand_meta(rng, .8, alg, 'sig')) for _ in range(rng.choice([0, 1, 2]))]
    ds += [K.rand_key(rng, p=.6) for _ in range(rng.choice([0, 1, 2]))]
    ds.insert(rng.randint(0, len(ds)), d)
    return dict(alg=alg, ds=ds, i=ds.index(d), hkid=rng.choice([None, None, d.get('kid'), 'a', 'b', 'zz']),
                ckid=rng.choice([None, None, None, d.get('kid'), 'a', 'zz']))


@contract('C04', gen=gen_verify, covers=COV, cases=300, weight=3, sym=False, why='key lists of any length: see selection')
def used_in_verification(alg, ds, i, hkid, ckid):
    import json
    hdr = {'alg': alg}
    if hkid is not None: hdr['kid'] = hkid
    inp = ref.b64u(json.dumps(hdr).encode()) + b'.' + ref.b64u(b'{"a":1}')
    sig = sigref.make(alg, ds[i], inp)
    keys = K.build_all(ds)
    ctor = {'alg': alg}
    if ckid is not None: ctor['kid'] = ckid
    kind, v = outcome(JWS(**ctor).verify_compact_verbose, inp + b'.' + ref.b64u(sig), keys)
    kid = ckid if ckid is not None else hkid
    kty = JWS_KTY[alg]
    el = [k for k in keys if eligible(k, kty, kid, '', alg)]
    good = [k for k, d in zip(keys, ds) if any(k is e for e in el) and sigref.valid(alg, d, inp, sig)]
    if good:
        ensures('all-tried', kind == 'ok')
        if kind == 'ok': ensures('first', v['key'] is good[0])
    else: ensures('only-eligible', kind == 'exc')


def gen_unknown(rng, lits):
    alg = rng.choice(['', 'XX', 'none', 'None', 'xs256', 'DES', Str(hi=6).rand(rng, lits)])
    return dict(alg=alg, ks=[rand_desc(rng, ['XX', alg]) for _ in range(4)], jwe=rng.random() < .5)


@contract('C04', gen=gen_unknown, covers=COV, cases=300, sym=False, why='key lists of any length: see selection')
def unknown_algorithms(alg, ks, jwe):
    """No key is eligible for an algorithm whose key type is unknown."""
    requires(alg[:1] not in ('H', 'R', 'P', 'E', 'A', ''))
    kind, r = outcome((JWE if jwe else JWS)(alg='x').pick_keys, [Key(**d) for d in ks], alg=alg)
    ensures('none', kind == 'exc' or len(r) == 0 or all(k.kty.lower() == 'none' for k in r))


SEL_ALG = OneOf(*sigref.ALGS)


def gen_sel(rng, lits, algs=sigref.ALGS):
    alg = rng.choice(algs)
    if algs is sigref.ALGS: fit = lambda: key_for(rng, alg)
    else: fit = lambda: K.rand_key(rng, t=JWE_KTY[alg], p=0)
    ds = [dict(fit(), **K.rand_meta(rng, .6, alg, 'sig')) for _ in range(rng.choice([0, 1, 2, 3]))]
    ds += [K.rand_key(rng, p=.6) for _ in range(rng.choice([0, 1, 2]))]
    if ds and rng.random() < .3: ds[0] = dict(t=ds[0]['t'], alg=K.related(rng, alg), **dict((k, v) for k, v in ds[0].items() if k not in ('t', 'alg', 'kid', 'use')))
    rng.shuffle(ds)
    return dict(ds=ds, alg=alg, kid=rng.choice(['', '', 'a', 'b', Str(hi=4).rand(rng, lits)]), use=rng.choice(['', 'sig', 'enc']))


@contract('C04', inputs=dict(ds=Keys(), alg=SEL_ALG, kid=Str(), use=OneOf('', 'sig', 'enc')), gen=gen_sel, covers=COV, cases=200, weight=5, shard='alg')
def selection(ds, alg, kid, use):
    """Any list of keys, any metadata, any key id asked for by the caller."""
    keys = K.build_all(ds)
    j = JWS(alg=alg, kid=kid) if kid else JWS(alg=alg)
    r = j.pick_keys(keys, use=use, alg=alg)
    want = [k for k in keys if eligible(k, JWS_KTY[alg], kid, use, alg)]
    ensures('exactly', same_objects(r, want))


JWE_ALG = OneOf(*sorted(JWE_KTY))


@contract('C04', inputs=dict(ds=Keys(), alg=JWE_ALG, kid=Str(), use=OneOf('', 'sig', 'enc')), covers=COV, cases=200, weight=5, shard='alg',
          gen=lambda rng, lits: gen_sel(rng, lits, sorted(JWE_KTY)))
def selection_for_encryption(ds, alg, kid, use):
    keys = K.build_all(ds)
    j = JWE(alg=alg, kid=kid) if kid else JWE(alg=alg)
    r = j.pick_keys(keys, use=use, alg=alg)
    want = [k for k in keys if eligible(k, JWE_KTY[alg], kid, use, alg)]
    ensures('exactly', same_objects(r, want))
