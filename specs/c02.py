"""C02: unsecured tokens need an explicit opt-in."""
import json
from jwkest.jws import JWS
from pv.api import *
from . import ref, sigref, jwsref, keys as K
from .c01 import spelled, rand_payload, callees

COV = ['jwkest.jws:JWS.verify_compact', 'jwkest.jws:JWS.verify_compact_verbose', 'jwkest.jws:JWS.verify_json', 'jwkest.jws:alg2keytype',
       'jwkest.jws:JWx.pick_keys']
NAMES = ['none', 'None', 'NONE', 'nOnE', 'nonE', 'NonE', 'NOne', 'noNE']


def gen(rng, lits):
    hdr = {}
    k = rng.random()
    if k < .65: hdr['alg'] = rng.choice(NAMES + [''])
    elif k < .8: hdr['alg'] = None
    if rng.random() < .4: hdr['typ'] = 'JWT'
    if rng.random() < .2: hdr['kid'] = rng.choice(['a', 'b'])
    if rng.random() < .1: hdr['cty'] = rng.choice(['JWT', 'text'])
    if rng.random() < .1: hdr['jwk'] = K.build(dict(K.rand_key(rng), priv=False)).serialize()
    ds = [K.rand_key(rng, p=.3) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
    h, p = ref.b64u(spelled(rng, hdr).encode()), ref.b64u(rand_payload(rng, lits))
    sig = rng.choice([b'', b'', b'x', ref.hmac_('sha256', b'secret', h + b'.' + p), ref.hmac_('sha256', b'', h + b'.' + p)])
    return dict(h=h.decode(), p=p.decode(), s=ref.b64u(sig).decode(), ds=ds, none_keys=rng.random() < .5,
                sigalg=rng.choice([None, None, '', 'none', 'HS256', 'RS256', rng.choice(sigref.ALGS)]),
                ctor=rng.choice([{}, {}, {'alg': 'HS256'}, {'alg': 'none'}, {'kid': 'a'}, {'typ': 'JWT'}, {'jwk': 1}]))


def verifier(ctor):
    if 'jwk' in ctor: return JWS(jwk=K.build(dict(t='oct', k=b'secret')))
    return JWS(**ctor)


@contract('C02', gen=gen, covers=COV, cases=1200, weight=3, sym=False, why='concrete keys of all kinds; the general case is unsecured_any')
def not_without_opt_in(h, p, s, ds, none_keys, sigalg, ctor):
    keys = K.build_all(ds)
    if not keys and none_keys: keys = None
    token = '.'.join([h, p, s])
    kind, v = outcome(verifier(ctor).verify_compact, token, keys, sigalg=sigalg)
    ensures('compact', kind == 'exc')
    kind, v = outcome(verifier(ctor).verify_compact_verbose, token.encode(), keys, False, sigalg)
    ensures('verbose', kind == 'exc')
    for j in (dict(payload=p, protected=h, signature=s), dict(payload=p, signatures=[dict(protected=h, signature=s)])):
        kind, v = outcome(verifier(ctor).verify_json, json.dumps(j), keys, sigalg=sigalg)
        ensures('json', kind == 'exc')


@contract('C02', gen=gen, covers=COV, cases=1200, weight=3, sym=False, why='concrete keys of all kinds; the general case is unsecured_any')
def not_when_an_algorithm_is_expected(h, p, s, ds, none_keys, sigalg, ctor):
    requires(sigalg and sigalg != 'none')
    keys = K.build_all(ds)
    if not keys and none_keys: keys = None
    token = '.'.join([h, p, s])
    kind, v = outcome(verifier(ctor).verify_compact, token, keys, allow_none=True, sigalg=sigalg)
    ensures('compact', kind == 'exc')
    for j in (dict(payload=p, protected=h, signature=s), dict(payload=p, signatures=[dict(protected=h, signature=s)])):
        kind, v = outcome(verifier(ctor).verify_json, json.dumps(j), keys, allow_none=True, sigalg=sigalg)
        ensures('json', kind == 'exc')


def gen_mixed(rng, lits):
    d = gen(rng, lits)
    alg = rng.choice(['HS256', 'HS512'])
    return dict(h=d['h'], p=d['p'], s=d['s'], alg=alg, k=rng.choice(K.OCTS), first=rng.random() < .5)


@contract('C02', gen=gen_mixed, covers=COV, cases=400, sym=False, why='concrete keys; the general case is unsecured_any')
def not_hidden_behind_a_signed_one(h, p, s, alg, k, first):
    """An unsecured signature entry beside a valid one, and an algorithm named only in the unprotected header."""
    h2 = ref.b64u(json.dumps({'alg': alg}).encode())
    good = dict(protected=h2.decode(), signature=ref.b64u(ref.hmac_('sha' + alg[2:], k, h2 + b'.' + p.encode())).decode())
    bad = dict(protected=h, signature=s)
    key = K.build(dict(t='oct', k=k))
    kind, v = outcome(JWS().verify_json, json.dumps(dict(payload=p, signatures=[good, bad] if first else [bad, good])), [key])
    ensures('mixed', kind == 'exc')
    kind, v = outcome(JWS().verify_json, json.dumps(dict(payload=p, signatures=[dict(bad, header={'alg': alg})])), [key])
    ensures('unprotected', kind == 'exc')
    kind, v = outcome(JWS().verify_json, json.dumps(dict(payload=p, signatures=[dict(signature=s, header={'alg': 'none'})])), [key])
    ensures('no-protected', kind == 'exc')


def unsecured(h):
    """Does the header part h name no algorithm, null or none (in any case)?"""
    o = jwsref.decode_part(h)
    if o is None: return False
    hd = jwsref.header(o)
    if not isinstance(hd, dict): return False
    a = hd.get('alg')
    return a is None or isinstance(a, str) and (a == '' or a.lower() == 'none')


def gen_any(rng, lits):
    d = gen(rng, lits)
    return dict(h=d['h'].encode(), p=d['p'].encode(), s=d['s'].encode(), ds=d['ds'], ctor=rng.choice([{}, {'alg': 'HS256'}, {'alg': 'none'}, {'kid': 'a'}]),
                sigalg=rng.choice([None, '', 'none', 'HS256', rng.choice(sigref.ALGS), Str(hi=8).rand(rng, lits)]))


CTOR = OneOf({}, {'alg': 'HS256'}, {'alg': 'none'}, {'kid': 'a'}, {'typ': 'JWT', 'alg': 'RS256'})


@contract('C02', inputs=dict(h=Bytes(), p=Bytes(), s=Bytes(), ds=Keys(), ctor=CTOR, sigalg=Union(OneOf(None), Str())), gen=gen_any, covers=COV, cases=400,
          weight=5, uses=callees)
def unsecured_any(h, p, s, ds, ctor, sigalg):
    """Any unsecured token, any list of keys, any options: never accepted without the opt-in."""
    requires(h.count(b'.') == 0 and p.count(b'.') == 0 and s.count(b'.') == 0)
    requires(unsecured(h))
    kind, v = outcome(JWS(**ctor).verify_compact_verbose, h + b'.' + p + b'.' + s, K.build_all(ds), sigalg=sigalg)
    ensures('rejects', kind == 'exc')


@contract('C02', inputs=dict(h=Bytes(), p=Bytes(), s=Bytes(), ds=Keys(), ctor=CTOR, sigalg=Str(lo=1)), gen=gen_any, covers=COV, cases=400,
          weight=5, uses=callees)
def unsecured_any_expected(h, p, s, ds, ctor, sigalg):
    """Nor with the opt-in where a real algorithm is expected."""
    requires(h.count(b'.') == 0 and p.count(b'.') == 0 and s.count(b'.') == 0)
    requires(unsecured(h))
    requires(sigalg and sigalg.lower() != 'none')
    kind, v = outcome(JWS(**ctor).verify_compact_verbose, h + b'.' + p + b'.' + s, K.build_all(ds), allow_none=True, sigalg=sigalg)
    ensures('rejects', kind == 'exc')


def gen_history(rng, lits):
    d = gen(rng, lits)
    alg = rng.choice(['HS256', 'HS512', 'ES256'])
    key = dict(t='EC', crv='P-256', d=2) if alg == 'ES256' else dict(t='oct', k=rng.choice(K.OCTS))
    h2 = ref.b64u(json.dumps({'alg': alg}).encode())
    p = d['p'].encode()
    good = h2 + b'.' + p + b'.' + ref.b64u(sigref.make(alg, key, h2 + b'.' + p))
    steps = []
    for _ in range(rng.choice([1, 2, 3])): steps.append(rng.choice(['good', 'good', 'opt-in', 'json', 'expected', 'bad']))
    return dict(h=d['h'], p=d['p'], s=d['s'], good=good.decode(), key=key, steps=steps, ctor=rng.choice([{}, {}, {'alg': alg}, {'alg': 'none'}]))


@contract('C02', gen=gen_history, covers=COV, cases=500, weight=2, sym=False, why='one verifier object used again; single calls: see unsecured_any')
def history(h, p, s, good, key, steps, ctor):
    """No earlier call is an opt-in for a later one."""
    keys = [K.build(key)]
    v = JWS(**ctor)
    bad = '.'.join([h, p, s])
    for what in steps:
        if what == 'good': outcome(v.verify_compact, good, keys)
        elif what == 'opt-in': outcome(v.verify_compact, bad, keys, True)
        elif what == 'expected': outcome(v.verify_compact, good, keys, True, 'HS256')
        elif what == 'json':
            a, b, c = good.split('.')
            outcome(v.verify_json, json.dumps(dict(payload=b, protected=a, signature=c)), keys, True)
        else: ensures('rejects', outcome(v.verify_compact, bad, keys)[0] == 'exc')
    ensures('rejects', outcome(v.verify_compact, bad, keys)[0] == 'exc')
    ensures('rejects-json', outcome(v.verify_json, json.dumps(dict(payload=p, protected=h, signature=s)), keys)[0] == 'exc')
    ensures('other-object', outcome(JWS().verify_compact, bad, keys)[0] == 'exc')
