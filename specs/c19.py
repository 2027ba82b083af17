"""C19: JWK import and export are inverse."""
import json
from jwkest.jwk import RSAKey, ECKey, SYMKey, KEYS, keyrep, key_from_jwk_dict, load_jwks
from jwkest.jwk import ECKey as _EC
from jwkest.ecc import NISTEllipticCurve
from pv.api import *
from . import ref, ecref, jwkref, jwsref, keys as K

COV = ['jwkest.jwk:RSAKey.serialize', 'jwkest.jwk:RSAKey.deserialize', 'jwkest.jwk:RSAKey._split', 'jwkest.jwk:RSAKey.__init__', 'jwkest.jwk:ECKey.serialize',
       'jwkest.jwk:ECKey.deserialize', 'jwkest.jwk:ECKey.load_key', 'jwkest.jwk:ECKey.__init__', 'jwkest.jwk:SYMKey.serialize', 'jwkest.jwk:SYMKey.__init__',
       'jwkest.jwk:Key.__init__', 'jwkest.jwk:Key.common', 'jwkest.jwk:Key.verify', 'jwkest.jwk:keyrep', 'jwkest.jwk:KEYS.load_dict', 'jwkest.jwk:key_from_jwk_dict',
       'jwkest.jwk:deser']
CLS = {'RSA': RSAKey, 'EC': ECKey, 'oct': SYMKey}


def rand_d(rng, crv):
    """Private keys, among them short ones and ones whose public coordinates are short."""
    n = ecref.P[crv]['n']
    return rng.choice([1, 2, 3, n - 1, 0xdeadbeef, rng.getrandbits(180) + 1] + SHORTD.get(crv, [1]))


# private keys whose x or y coordinate starts with a zero octet (found by search)
SHORTD = {}


def _find():
    for crv in ecref.CURVES:
        c = ecref.P[crv]
        pt, out = ecref.base(crv), []
        for d in range(1, 1500):
            if (min(pt) >> (8 * (c['size'] - 1) if crv != 'P-521' else 8 * (c['size'] - 1))) == 0:
                out.append(d)
                if len(out) == 3: break
            pt = ecref.add(c['p'], pt, ecref.base(crv))
        SHORTD[crv] = out or [1]


_find()


def rand_meta(rng, lits):
    d = {}
    if rng.random() < .6: d['kid'] = rng.choice(['a', 'key-1', '\u20ac', '1', ' ', Str(lo=1, hi=20).rand(rng, lits) or 'x'])
    if rng.random() < .5: d['use'] = rng.choice(['sig', 'enc', 'x'])
    if rng.random() < .5: d['alg'] = rng.choice(['RS256', 'ES256', 'A128KW', 'foo'])
    return d


def rand_desc(rng, lits):
    t = rng.choice(['RSA', 'EC', 'EC', 'oct'])
    if t == 'RSA': d = dict(t='RSA', i=rng.randrange(4), priv=rng.random() < .7)
    elif t == 'EC':
        crv = rng.choice(ecref.CURVES)
        d = dict(t='EC', crv=crv, d=rand_d(rng, crv), priv=rng.random() < .7)
    else: d = dict(t='oct', k=Bytes(lo=1, hi=80).rand(rng, lits))
    return dict(d, **rand_meta(rng, lits))


def gen(rng, lits): return dict(d=rand_desc(rng, lits), private=rng.random() < .6)


@contract('C19', gen=gen, covers=COV, cases=400, weight=2, sym=False, why='key material of all three kinds: see coordinates, secrets')
def export(d, private):
    """The JWK of a key made from its material."""
    k = K.build(d)
    j = k.serialize(private)
    want = jwkref.jwk(d, private)
    got = dict((m, v) for m, v in j.items() if m not in ('dp', 'dq', 'qi', 'di') or not private)
    ensures('members', set(got) == set(want))
    ensures('values', jwsref.same(got, want))


WAYS = ['constructor', 'keyrep', 'load_dict', 'load_jwks', 'add', 'dict']


def imported(how, j, private=True):
    j = dict(j)
    if how == 'constructor': return CLS[j['kty']](**j)
    if how == 'octets': return CLS[j['kty']](**dict((k, v.encode('utf-8')) for k, v in j.items()))
    if how == 'keyrep': return keyrep(j)
    if how == 'dict': return key_from_jwk_dict(j, private)
    s = KEYS()
    if how == 'load_dict': s.load_dict(dict(keys=[j]))
    elif how == 'load_jwks': s.load_jwks(json.dumps(dict(keys=[j])))
    else: s.add(j)
    ks = list(s)
    ensures('one-key', len(ks) == 1)
    return ks[0]


def gen_import(rng, lits):
    return dict(d=rand_desc(rng, lits), private=rng.random() < .7, how=rng.choice(WAYS), form=rng.randrange(3), extra=rng.random() < .2)


@contract('C19', gen=gen_import, covers=COV, cases=400, weight=3, sym=False, why='key material of all three kinds: see coordinates, secrets')
def import_export(d, private, how, form, extra):
    """Import of a JWK gives the key it describes; export of that gives the JWK again."""
    j = jwkref.jwk(d, private, factors=form < 2, full=form == 1)
    has = private and d.get('priv', True)
    if how == 'dict':
        j.setdefault('kid', 'k')
        d = dict(d, kid=j['kid'])
        if has and d['t'] == 'RSA': requires(form < 2)
    if extra and how != 'dict': j['ext'] = 'something'
    k = imported(how, j, has)
    j.pop('ext', None)
    ensures('type', type(k) is CLS[j['kty']])
    ensures('material', jwkref.material(k) == jwkref.described(d, private))
    ensures('metadata', jwkref.meta(k) == jwkref.meta_of(d))
    out = k.serialize(True)
    if how == 'dict': j = dict((m, v) for m, v in j.items() if m not in ('dp', 'dq', 'qi'))
    if form == 2 and d['t'] == 'RSA': out = dict((m, v) for m, v in out.items() if m in j)
    ensures('private-again', jwsref.same(out, j))
    ensures('public-again', jwsref.same(k.serialize(False), jwkref.jwk(d, False)))
    ensures('default-public', jwsref.same(k.serialize(), jwkref.jwk(d, False)))


def gen_rt(rng, lits): return dict(d=rand_desc(rng, lits), private=rng.random() < .7, how=rng.choice(WAYS))


@contract('C19', gen=gen_rt, covers=COV, cases=300, weight=3, sym=False, why='key material of all three kinds: see coordinates, secrets')
def round_trip(d, private, how):
    k = K.build(d)
    has = private and d.get('priv', True)
    if how == 'dict': requires(d.get('kid'))
    k2 = imported(how, json.loads(json.dumps(k.serialize(private))), has)
    ensures('same', jwkref.same_key(k2, d, private))
    ensures('fixpoint', jwsref.same(k2.serialize(private), k.serialize(private)))


@contract('C19', gen=lambda rng, lits: dict(crv=rng.choice(ecref.CURVES), **{'m': rand_meta(rng, lits)}), covers=COV, cases=60, sym=False, why='key material of all three kinds')
def generated(crv, m):
    """Keys generated on a curve export and import too."""
    for k in (ECKey(**m).load_key(NISTEllipticCurve.by_name(crv)), ECKey(key=NISTEllipticCurve.by_name(crv), **m)):
        d = dict(m, t='EC', crv=crv, d=k.d, priv=True)
        ensures('consistent', (k.x, k.y) == ecref.mul(crv, k.d, ecref.base(crv)))
        ensures('exports', jwsref.same(k.serialize(True), jwkref.jwk(d, True)))
        ensures('imports', jwkref.same_key(keyrep(k.serialize(True)), d))
