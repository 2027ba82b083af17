"""Keys for the concrete cases: a key is described by a literal dictionary.

{'t': 'RSA', 'i': index of KEYS, 'priv': bool, 'kid', 'use', 'alg'}
{'t': 'EC', 'crv': name, 'd': int, 'priv': bool, ...}
{'t': 'oct', 'k': octets, ...}
"""
from Cryptodome.PublicKey import RSA
from jwkest.jwk import RSAKey, ECKey, SYMKey
from jwkest.ecc import NISTEllipticCurve
from . import ecref
from .rsakeys import KEYS as RSAS

_RSA = {}


def rsa_obj(i, priv):
    k = (i, priv)
    if k not in _RSA:
        n, e, d, p, q = RSAS[i]
        _RSA[k] = RSA.construct((n, e, d, p, q) if priv else (n, e), consistency_check=False)
    return _RSA[k]


def meta(d): return dict((k, d[k]) for k in ('kid', 'use', 'alg') if d.get(k))


def build(d):
    if d['t'] == 'RSA': return RSAKey(key=rsa_obj(d['i'], d.get('priv', True)), **meta(d))
    if d['t'] == 'oct': return SYMKey(key=d['k'], **meta(d))
    x, y = ecref.public(d['crv'], d['d'])
    kw = dict(d=d['d']) if d.get('priv', True) else {}
    return ECKey(crv=d['crv'], x=x, y=y, **dict(kw, **meta(d)))


def build_all(ds): return [build(d) for d in ds]


def public(d): return dict(d, priv=False)


OCTS = [b'secret', b'0123456789abcdef', bytes(range(32)), b'\0' * 16, bytes(range(100, 124)), bytes(range(64)),
        b'0123456789abcdef0123456789abcdeg']
EC_D = [1, 2, 0xdeadbeef, 0x6d5fb41e6f1a7f3dd0c92a84bd31f5a13e5bc0fa3b5b10ae5adf9ac1a2c3d4e5]


def related(rng, alg):
    """A name that is not alg but looks like it."""
    names = ['HS256', 'HS384', 'HS512', 'RS256', 'RS384', 'RS512', 'ES256', 'ES384', 'ES512', 'PS256', 'PS384', 'PS512', 'A128KW', 'A192KW', 'A256KW', 'RSA1_5', 'RSA-OAEP',
             'RSA-OAEP-256', 'ECDH-ES', 'ECDH-ES+A128KW', 'ECDH-ES+A192KW', 'ECDH-ES+A256KW']
    near = [x for x in names if x != alg and (x.startswith(alg) or alg.startswith(x) or x[:2] == alg[:2] or x[-3:] == alg[-3:])]
    if rng.random() < .4: return rng.choice([alg[:-1], alg + '0', alg[0], alg.lower(), alg[1:], alg[:2]])
    return rng.choice(near)


def rand_meta(rng, p=.4, alg=None, use=None):
    d = {}
    if rng.random() < p: d['kid'] = rng.choice(['a', 'b', 'key-1'])
    if rng.random() < p / 2: d['use'] = use if use and rng.random() < .7 else rng.choice(['sig', 'enc'])
    if rng.random() < p / 2: d['alg'] = alg if alg and rng.random() < .7 else rng.choice(['RS256', 'HS256', 'ES256', 'A128KW', 'RSA-OAEP'])
    if alg and 'alg' in d and rng.random() < .25: d['alg'] = related(rng, alg)
    m = rng.random()
    if m < .06 and 'alg' in d: d['alg'] = d['alg'].lower()
    elif m < .1 and 'kid' in d: d['kid'] = d['kid'].upper()
    elif m < .13 and 'use' in d: d['use'] = d['use'].upper()
    return d


def rand_key(rng, t=None, crv=None, k=None, p=.4, alg=None, use=None):
    t = t or rng.choice(['RSA', 'oct', 'EC'])
    m = rand_meta(rng, p, alg, use)
    if t == 'RSA': return dict(m, t='RSA', i=rng.choice([0, 0, 1, 3]), priv=rng.random() < .7)
    if t == 'oct': return dict(m, t='oct', k=k if k is not None else rng.choice(OCTS))
    return dict(m, t='EC', crv=crv or rng.choice(ecref.CURVES), d=rng.choice(EC_D), priv=rng.random() < .7)
