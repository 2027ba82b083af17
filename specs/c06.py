"""C06: JSON-serialized JWS: every signature must verify."""
import json
from jwkest.jws import JWS
from pv.api import *
from . import ref, sigref, jwsref, keys as K
from .c01 import rand_payload
from .c07 import key_for, rand_sig, flip

COV = ['jwkest.jws:JWS.verify_json', 'jwkest.jws:JWS.sign_json', 'jwkest.jws:JWS.verify_compact', 'jwkest.jws:JWS.sign_compact']


def entry(rng, alg, d, p, hdr=None):
    h = ref.b64u(json.dumps(dict({'alg': alg}, **(hdr or {}))).encode())
    e = dict(protected=h.decode(), signature=ref.b64u(sigref.make(alg, d, h + b'.' + p)).decode())
    if rng.random() < .3: e['header'] = rng.choice([{}, {'x': 1}, {'typ': 'JWT'}, {'alg': 'HS256'}, {'alg': 'none'}])
    return e


def gen(rng, lits):
    n = rng.choice([1, 1, 2, 2, 3, 4])
    p = ref.b64u(rand_payload(rng, lits))
    ds, es, algs = [], [], []
    for _ in range(n):
        alg = rng.choice(['HS256', 'HS256', 'HS384', 'HS512', 'ES256', 'RS256', 'PS256'])
        d = dict(key_for(rng, alg), priv=True)
        if d['t'] == 'EC': d['d'] = rng.choice([1, 2])
        ds.append(d)
        algs.append(alg)
        es.append(entry(rng, alg, d, p))
    k = rng.random()
    i = rng.randrange(n)
    if k < .55:
        # one entry is off
        e = dict(es[i])
        m = rng.random()
        sig = ref.b64u_dec(e['signature'].encode())
        if m < .3: e['signature'] = ref.b64u(flip(rng, sig)).decode()
        elif m < .4: e['signature'] = ''
        elif m < .5: e['signature'] = es[rng.randrange(n)]['signature']
        elif m < .6: e['protected'] = ref.b64u(json.dumps({'alg': algs[i], 'x': 2}).encode()).decode()
        elif m < .7: e['protected'] = ref.b64u(json.dumps({'alg': 'none'}).encode()).decode()
        elif m < .75: e.pop('protected'); e['header'] = {'alg': algs[i]}
        elif m < .85: e = entry(rng, algs[i], key_for(rng, algs[i]), p)
        elif m < .92: e = entry(rng, 'HS256', dict(t='oct', k=b''.join([b'other'])), p)
        else: e = entry(rng, algs[i], ds[i], ref.b64u(b'another payload'))
        es[i] = e
    elif k < .65: p = ref.b64u(flip(rng, ref.b64u_dec(p)))
    elif k < .7: ds.pop(i)
    dup = [d for j, d in enumerate(ds) if d not in ds[:j]]
    rng.shuffle(dup)
    return dict(p=p.decode(), es=es, ds=dup, flat=n == 1 and rng.random() < .5)


@contract('C06', gen=gen, covers=COV, cases=500, weight=4, sym=False, why='key material of all three kinds: see all_verified')
def every_signature(p, es, ds, flat):
    keys = K.build_all([dict(d, priv=False) for d in ds])
    requires(keys)
    j = dict(payload=p)
    if flat: j.update(es[0])
    else: j['signatures'] = es
    kind, v = outcome(JWS().verify_json, json.dumps(j), keys)
    rs = [jwsref.accepted('.'.join([e.get('protected', ''), p, e['signature']]), ds) for e in es]
    if any(r is None for r in rs): ensures('rejects', kind == 'exc')
    elif kind == 'ok':
        ensures('payload', jwsref.same(v, rs[0][1]))


def gen_good(rng, lits):
    while True:
        d = gen(rng, lits)
        if d['ds'] and all(jwsref.accepted('.'.join([e.get('protected', ''), d['p'], e['signature']]), d['ds']) for e in d['es']):
            return d


@contract('C06', gen=gen_good, covers=COV, cases=200, weight=3, sym=False, why='key material of all three kinds: see all_verified')
def valid_ones_pass(p, es, ds, flat):
    keys = K.build_all([dict(d, priv=False) for d in ds])
    j = dict(payload=p)
    es = [dict((k, v) for k, v in e.items() if k != 'header') for e in es]
    if flat: j.update(es[0])
    else: j['signatures'] = es
    kind, v = outcome(JWS().verify_json, json.dumps(j), keys)
    ensures('accepts', kind == 'ok' and jwsref.same(v, jwsref.accepted('.'.join([es[0]['protected'], p, es[0]['signature']]), ds)[1]))


def gen_sign(rng, lits):
    n = rng.choice([1, 1, 2, 3])
    hs, ds = [], []
    for _ in range(n):
        alg = rng.choice(['HS256', 'HS384', 'HS512', 'ES256', 'RS256', 'PS256', 'ES512'])
        d = dict(key_for(rng, alg), priv=True)
        if not any(x['t'] == d['t'] for x in ds): ds.append(d)
        prot = dict(alg=alg)
        if rng.random() < .3: prot['typ'] = 'JWT'
        if rng.random() < .2: prot['x'] = 1
        hs.append((prot, rng.choice([None, None, {'x': 'u'}, {'kid': 'unp'}, {'a': [1], 'b': 'c'}])))
    for prot, _ in hs:
        if prot['alg'][0] == 'E': prot['alg'] = [a for a, c in sigref.EC_OF.items() for d in ds if d.get('crv') == c][0]
    return dict(msg=rng.choice([Str(hi=60).rand(rng, lits), json.dumps(Json(kind='dict', depth=1).rand(rng, lits))]),
                hs=hs, ds=ds, flat=rng.random() < .4, default=rng.random() < .2)


@contract('C06', gen=gen_sign, covers=COV, cases=200, weight=4, sym=False, why='key material of all three kinds: see all_verified')
def signing(msg, hs, ds, flat, default):
    keys = K.build_all(ds)
    if default: hs = [({'alg': hs[0][0]['alg']}, None)]
    given = None if default else [(dict(a), dict(b) if b is not None else None) for a, b in hs]
    t = JWS(msg, alg=hs[0][0]['alg']).sign_json(keys, headers=given, flatten=flat)
    j = json.loads(t)
    ensures('payload', ref.b64u_dec(j['payload'].encode()) == msg.encode('utf-8'))
    if flat and len(hs) == 1:
        ensures('flattened', 'signatures' not in j)
        es = [dict((k, v) for k, v in j.items() if k != 'payload')]
    else:
        ensures('general', set(j) == set(['payload', 'signatures']))
        es = j['signatures']
    ensures('one-per-header', len(es) == len(hs))
    for (prot, unp), e in zip(hs, es):
        h = jwsref.header(ref.b64u_dec(e['protected'].encode()))
        ensures('alg', h['alg'] == prot['alg'])
        ensures('protected', all(jwsref.same(h.get(k), v) for k, v in prot.items()))
        ensures('unprotected', e.get('header') == unp if unp else 'header' not in e or not e['header'])
        d = [x for x in ds if x['t'] == sigref.kty(prot['alg'])][0]
        ensures('signature', sigref.valid(prot['alg'], d, (e['protected'] + '.' + j['payload']).encode(), ref.b64u_dec(e['signature'].encode())))
    kind, v = outcome(JWS().verify_json, t, K.build_all([dict(d, priv=False) for d in ds]))
    if not any(u and 'kid' in u for _, u in hs): ensures('verifies', kind == 'ok')


def callees():
    from pv import callees
    return callees.tokens()


def text_entry(e):
    return isinstance(e, dict) and isinstance(e.get('protected', ''), str) and isinstance(e.get('signature'), str)


def gen_any(rng, lits):
    d = gen(rng, lits)
    j = dict(payload=d['p'])
    if d['flat']: j.update(d['es'][0])
    else: j['signatures'] = d['es']
    if rng.random() < .2: j[rng.choice(['payload', 'signatures', 'signature', 'header', 'x'])] = rng.choice([None, '', 1, 'a', [], {}, [{}]])
    s = json.dumps(j)
    if rng.random() < .1: s = s[:rng.randrange(len(s))]
    return dict(jws=s, ds=d['ds'])


@contract('C06', inputs=dict(jws=Str(), ds=Keys()), gen=gen_any, covers=COV, cases=300, weight=8, uses=callees)
def all_verified(jws, ds):
    """Any text, any keys: where a payload is returned, every entry's signature verifies."""
    requires(len(ds) > 0)
    keys = K.build_all(ds)
    kind, v = outcome(JWS().verify_json, jws, keys)
    if kind == 'ok':
        j = json.loads(jws)
        p = j['payload']
        es = j['signatures'] if 'signatures' in j else [j]
        ensures('signed', all(jwsref.accepted(e.get('protected', '') + '.' + p + '.' + e['signature'], ds) is not None for e in es))
        if len(es) > 0:
            ensures('payload', any(jwsref.same(v, jwsref.accepted(e.get('protected', '') + '.' + p + '.' + e['signature'], ds)[1]) for e in es))


def gen_history(rng, lits):
    a = gen_good(rng, lits)
    jsons = [(a['p'], a['es'])]
    for _ in range(rng.choice([1, 2, 3])):
        k = rng.random()
        p, es = rng.choice(jsons)
        es = [dict(e) for e in es]
        if k < .3: p = ref.b64u(rng.choice([b'{"admin": true}', b'x'])).decode()
        elif k < .6:
            i = rng.randrange(len(es))
            es[i]['signature'] = ref.b64u(flip(rng, ref.b64u_dec(es[i]['signature'].encode()))).decode()
        elif k < .8:
            b = gen(rng, lits)
            es = es + b['es'] if rng.random() < .5 else b['es'] + es
        jsons.append((p, es))
    return dict(jsons=jsons, ds=a['ds'])


@contract('C06', gen=gen_history, covers=COV, cases=150, weight=3, sym=False, why='one verifier object used again; single calls: see all_verified')
def history(jsons, ds):
    """One verifier object used again: what it verified before vouches for nothing."""
    keys = K.build_all([dict(d, priv=False) for d in ds])
    v = JWS()
    for p, es in jsons:
        kind, r = outcome(v.verify_json, json.dumps(dict(payload=p, signatures=es)), keys)
        rs = [jwsref.accepted('.'.join([e.get('protected', ''), p, e['signature']]), ds) for e in es]
        if any(x is None for x in rs): ensures('rejects', kind == 'exc')
        elif kind == 'ok': ensures('payload', jwsref.same(r, rs[0][1]))
