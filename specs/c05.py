"""C05: signing emits the right header, payload and signature."""
import json
from jwkest.jws import JWS
from pv.api import *
from . import ref, sigref, jwsref, keys as K
from .c04 import eligible, JWS_KTY
from .c07 import key_for

COV = ['jwkest.jws:JWS.sign_compact', 'jwkest.jws:JWS.alg_keys', 'jwkest.jws:JWx._pick_alg', 'jwkest.jws:JWx.pick_keys', 'jwkest.jwt:JWT.pack',
       'jwkest.jwt:b64encode_item', 'jwkest.jwt:b2s_conv']


def rand_msg(rng, lits):
    k = rng.random()
    if k < .35: return Json(kind='dict', depth=2).rand(rng, lits)
    if k < .45: return Json(kind='list', depth=1).rand(rng, lits)
    if k < .75: return Str(hi=60).rand(rng, lits)
    return Bytes(hi=60).rand(rng, lits)


def octets_of(msg):
    """What a message stands for on the wire; None: any JSON text of it."""
    if isinstance(msg, bytes): return msg
    if isinstance(msg, str): return msg.encode('utf-8')
    return None


def carries(octets, msg):
    o = octets_of(msg)
    if o is not None: return octets == o
    try: return jwsref.same(json.loads(octets.decode('utf-8')), msg)
    except ValueError: return False


def gen(rng, lits):
    alg = rng.choice(sigref.ALGS)
    ds = [dict(key_for(rng, alg), **K.rand_meta(rng, .5, alg, 'sig')) for _ in range(rng.choice([1, 1, 1, 2]))]
    ds += [K.rand_key(rng, p=.4) for _ in range(rng.choice([0, 0, 1, 2]))]
    rng.shuffle(ds)
    hdr = {}
    if rng.random() < .3: hdr['typ'] = rng.choice(['JWT', 'JWS', 'x'])
    if rng.random() < .25: hdr['kid'] = rng.choice(['a', 'b', 'zz'])
    prot = None
    if rng.random() < .4:
        prot = {}
        if rng.random() < .4: prot['cty'] = rng.choice(['JWT', 'text/plain'])
        if rng.random() < .4: prot['x'] = rng.choice([1, 'a', [1, 2], {'b': None}, True])
        if rng.random() < .3: prot['typ'] = 'T'
        if rng.random() < .3: prot['kid'] = 'p'
        if rng.random() < .3: prot['alg'] = rng.choice(sigref.ALGS + ['none'])
        if rng.random() < .2: prot['crit'] = ['exp']
    k = rng.random()
    if k < .75: hdr['alg'] = alg
    elif k < .85: ds = [dict(ds[0], alg=alg, use='')]
    return dict(msg=rand_msg(rng, lits), hdr=hdr, ds=ds, prot=prot, pool=rng.choice(['arg', 'arg', 'arg', 'ctor']))


@contract('C05', gen=gen, covers=COV, cases=500, weight=4, sym=False, why='key material of all three kinds: see header_and_payload')
def signed_token(msg, hdr, ds, prot, pool):
    keys = K.build_all(ds)
    if pool == 'ctor':
        requires('alg' in hdr)
        ds, keys = ds[:1], keys[:1]
        j = JWS(msg, jwk=keys[0], **hdr)
        kind, t = outcome(j.sign_compact, None, dict(prot) if prot is not None else None)
    else:
        kind, t = outcome(JWS(msg, **hdr).sign_compact, keys, dict(prot) if prot is not None else None)
    alg = hdr.get('alg')
    if alg is None: alg = ds[0].get('alg', '') if len(ds) == 1 and not hdr else ''
    if alg not in sigref.ALGS:
        return
    el = [i for i, k in enumerate(keys) if eligible(k, JWS_KTY[alg], hdr.get('kid'), 'sig', alg)]
    if not el:
        ensures('no-key', kind == 'exc')
        return
    d = ds[el[0]]
    able = d['t'] == 'oct' or d.get('priv', True)
    if d['t'] == 'EC' and d['crv'] != sigref.EC_OF[alg]: return
    if not able: ensures('no-private-key', kind == 'exc')
    elif kind == 'exc': ensures('signs', False)
    else:
        ps = t.encode('utf-8').split(b'.')
        ensures('three-parts', isinstance(t, str) and len(ps) == 3)
        h = jwsref.header(ref.b64u_dec(ps[0]))
        o = ref.b64u_dec(ps[1])
        ensures('unpadded', all(chr(c) in ref.ALPHABET for p in ps for c in p))
        ensures('alg', h.get('alg') == alg)
        ensures('kid', h.get('kid') == d['kid'] if d.get('kid') else True)
        if prot: ensures('protected', all(jwsref.same(h.get(k), v) for k, v in prot.items() if k not in ('alg', 'kid', 'typ')))
        ensures('typ', h.get('typ') == hdr['typ'] if 'typ' in hdr else True)
        ensures('no-more', set(h) <= set(['alg', 'kid', 'typ']) | set(prot or {}))
        ensures('payload', carries(o, msg))
        ensures('signature', sigref.valid(alg, d, ps[0] + b'.' + ps[1], ref.b64u_dec(ps[2])))
        if h.get('kid', d.get('kid')) == d.get('kid'):
            kind, v = outcome(JWS().verify_compact, t, [K.build(dict(d, priv=False))])
            ensures('round-trip', kind == 'ok' and jwsref.same(v, jwsref.payload(h, o)))


def gen_none(rng, lits):
    d = gen(rng, lits)
    k = rng.random()
    if k < .4: d['hdr'] = rng.choice([{'alg': 'none'}, {}, {'alg': 'none', 'typ': 'JWT'}])
    if k < .2: d['ds'] = []
    d['alg2'] = rng.choice(['HS257', 'XX256', 'RS1', 'ES', 'hs256', 'rs256', 'A128KW', 'ECDH-ES', 'HS256 ', 'None256', 'NONE ', 'nonee', Str(hi=5).rand(rng, lits)])
    return d


@contract('C05', gen=gen_none, covers=COV, cases=500, weight=2, sym=False, why='key material of all three kinds: see header_and_payload')
def unsigned_only_on_request(msg, hdr, ds, prot, pool, alg2):
    keys = K.build_all(ds)
    kind, t = outcome(JWS(msg, **hdr).sign_compact, keys, dict(prot) if prot is not None else None)
    if kind == 'ok':
        ps = t.encode('utf-8').split(b'.')
        if ps[2] == b'':
            stated = hdr.get('alg')
            if stated is None and not hdr and len(ds) == 1: stated = ds[0].get('alg')
            ensures('unsigned', not stated or stated == 'none')
            h = jwsref.header(ref.b64u_dec(ps[0]))
            ensures('says-so', h.get('alg') in ('none', None))
            ensures('payload', carries(ref.b64u_dec(ps[1]), msg))
    if alg2 and alg2 not in sigref.ALGS and alg2.lower() != 'none':
        kind, t = outcome(JWS(msg, alg=alg2).sign_compact, keys)
        ensures('unknown-raises', kind == 'exc')
    for alg in ('HS256', 'RS256', 'ES256', 'PS512'):
        kind, t = outcome(JWS(msg, alg=alg).sign_compact, [])
        ensures('no-keys', kind == 'exc')
        kind, t = outcome(JWS(msg, alg=alg).sign_compact, [k for k in keys if k.kty != JWS_KTY[alg]])
        ensures('no-key-of-type', kind == 'exc')


def callees():
    from pv import callees
    return callees.jws()


def gen_any(rng, lits):
    alg = rng.choice(sigref.ALGS)
    ds = [dict(key_for(rng, alg), **K.rand_meta(rng, .5, alg, 'sig')) for _ in range(rng.choice([0, 1, 1, 1, 2]))]
    ds += [K.rand_key(rng, p=.4) for _ in range(rng.choice([0, 0, 1, 2]))]
    rng.shuffle(ds)
    return dict(alg=alg, msg=rng.choice([Str(hi=60), Bytes(hi=60)]).rand(rng, lits), ds=ds, kid=rng.choice(['', '', 'a', 'b', Str(hi=3).rand(rng, lits)]))


@contract('C05', inputs=dict(alg=OneOf(*sigref.ALGS), msg=Union(Bytes(), Str()), ds=Keys(), kid=Str()), gen=gen_any, covers=COV, cases=200, weight=8,
          uses=callees, shard='alg')
def header_and_payload(alg, msg, ds, kid):
    """Any message, any list of keys: the first eligible key signs exactly what is emitted."""
    requires(len(ds) > 0)
    keys = K.build_all(ds)
    j = JWS(msg, alg=alg, kid=kid) if kid else JWS(msg, alg=alg)
    el = [d for d, k in zip(ds, keys) if eligible(k, JWS_KTY[alg], kid, 'sig', alg)]
    requires(not el or el[0]['t'] != 'EC' or el[0]['crv'] == sigref.EC_OF[alg])
    kind, t = outcome(j.sign_compact, keys)
    if not el:
        ensures('no-key', kind == 'exc')
        return
    d = el[0]
    able = d['t'] == 'oct' or d.get('priv', True)
    if not able:
        ensures('no-private-key', kind == 'exc')
        return
    ensures('signs', kind == 'ok')
    if kind == 'ok':
        ps = t.encode('utf-8').split(b'.')
        ensures('three-parts', len(ps) == 3)
        h = jwsref.header(ref.b64u_dec(ps[0]))
        want = {'alg': alg}
        if d.get('kid'): want['kid'] = d['kid']
        ensures('header', jwsref.same(h, want))
        ensures('payload', ps[1] == ref.b64u(octets_of(msg)))
        ensures('signature', sigref.valid(alg, d, ps[0] + b'.' + ps[1], ref.b64u_dec(ps[2])))


def gen_unsigned(rng, lits):
    d = gen_any(rng, lits)
    ds = d['ds'][:rng.choice([0, 1, 1, 2])]
    if ds and rng.random() < .7: ds[0] = dict((k, v) for k, v in ds[0].items() if k != 'alg') if rng.random() < .5 else dict(ds[0], alg=rng.choice(['none', 'None', 'HS25', 'A128KW', 'foo']))
    return dict(alg=rng.choice([None, None, '', 'none', 'None', 'HS257', 'hs256', Str(hi=6).rand(rng, lits)]), msg=d['msg'], ds=ds)


@contract('C05', inputs=dict(alg=Union(OneOf(None), Str()), msg=Union(Bytes(), Str()), ds=Keys()), gen=gen_unsigned, covers=COV, cases=300, weight=4,
          uses=callees)
def unsigned_any(alg, msg, ds):
    """No algorithm, none or an unknown one, any message and keys."""
    keys = K.build_all(ds)
    stated = alg
    if alg is None and len(ds) == 1: stated = ds[0].get('alg')
    requires(stated not in sigref.ALGS)
    j = JWS(msg, alg=alg) if alg is not None else JWS(msg)
    kind, t = outcome(j.sign_compact, keys)
    if kind == 'ok':
        ps = t.encode('utf-8').split(b'.')
        ensures('unsigned', not stated or stated == 'none')
        ensures('three-parts', len(ps) == 3 and ps[2] == b'')
        h = jwsref.header(ref.b64u_dec(ps[0]))
        ensures('says-so', h.get('alg') in ('none', None))
        ensures('payload', ps[1] == ref.b64u(octets_of(msg)))
    else: ensures('emits', stated and stated != 'none')


@contract('C05', inputs=dict(alg=OneOf(*sigref.ALGS), msg=Union(Bytes(), Str()), kid=Str()), covers=COV, cases=100, weight=2, uses=callees)
def no_keys(alg, msg, kid):
    j = JWS(msg, alg=alg, kid=kid) if kid else JWS(msg, alg=alg)
    for keys in (None, []):
        kind, t = outcome(j.sign_compact, keys)
        ensures('raises', kind == 'exc')


def gen_rt(rng, lits):
    alg = rng.choice(sigref.ALGS)
    return dict(alg=alg, msg=rng.choice([Str(hi=60), Bytes(hi=60)]).rand(rng, lits), d=dict(key_for(rng, alg), **K.rand_meta(rng, .5)), text=rng.random() < .5)


@contract('C05', inputs=dict(alg=OneOf(*sigref.ALGS), msg=Union(Bytes(), Str()), d=KeyOf(private=True), text=Bool()), gen=gen_rt, covers=COV, cases=100, weight=6,
          uses=callees, shard='alg')
def round_trip_any(alg, msg, d, text):
    """What is signed with a key verifies with its public half and gives the message back."""
    requires(d['t'] == JWS_KTY[alg])
    requires(d['t'] != 'EC' or d['crv'] == sigref.EC_OF[alg])
    requires(not d.get('use') or d['use'] == 'sig')
    requires(not d.get('alg') or d['alg'] == alg)
    t = JWS(msg, alg=alg).sign_compact([K.build(d)])
    kind, v = outcome(JWS().verify_compact, t if text else t.encode('utf-8'), [K.build(dict(d, priv=False))])
    ensures('verifies', kind == 'ok')
    hdr = {'alg': alg}
    if d.get('kid'): hdr['kid'] = d['kid']
    if kind == 'ok': ensures('message', jwsref.same(v, jwsref.payload(hdr, octets_of(msg))))


def gen_history(rng, lits):
    alg = rng.choice(['HS256', 'HS512', 'ES256', 'RS256'])
    ds = [dict(key_for(rng, alg), **({'kid': c} if rng.random() < .6 else {})) for c in rng.sample('abc', rng.choice([2, 3]))]
    steps = []
    for _ in range(rng.choice([2, 3])):
        steps.append((rand_msg(rng, lits), rng.randrange(len(ds)), rng.choice([None, None, {}, {'x': 1}, {'cty': 'JWT'}])))
    return dict(alg=alg, ds=ds, steps=steps, one=rng.random() < .7)


@contract('C05', gen=gen_history, covers=COV, cases=200, weight=3, sym=False, why='one object signing several times; single calls: see header_and_payload')
def history(alg, ds, steps, one):
    """One object that signs again, with another message, key or header."""
    keys = K.build_all(ds)
    j = JWS(steps[0][0], alg=alg)
    for msg, i, prot in steps:
        j.msg = msg
        kind, t = outcome((j if one else JWS(msg, alg=alg)).sign_compact, [keys[i]], dict(prot) if prot is not None else None)
        ensures('signs', kind == 'ok')
        ps = t.encode('utf-8').split(b'.')
        h = jwsref.header(ref.b64u_dec(ps[0]))
        ensures('alg', h.get('alg') == alg)
        if ds[i].get('kid'): ensures('kid', h.get('kid') == ds[i]['kid'])
        else: ensures('no-kid', 'kid' not in h)
        ensures('protected', all(jwsref.same(h.get(k), v) for k, v in (prot or {}).items()))
        ensures('no-more', set(h) <= set(['alg', 'kid']) | set(prot or {}))
        ensures('payload', carries(ref.b64u_dec(ps[1]), msg))
        ensures('signature', sigref.valid(alg, ds[i], ps[0] + b'.' + ps[1], ref.b64u_dec(ps[2])))
