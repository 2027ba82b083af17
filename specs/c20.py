"""C20: public export never contains private key material."""
import json
from jwkest.jwk import RSAKey, ECKey, KEYS, keyrep, key_from_jwk_dict, make_public_copy
from jwkest.ecc import NISTEllipticCurve
from jwkest.jwe import JWE
from jwkest.jws import JWS
from pv.api import *
from . import ref, ecref, jwkref, jwsref, keys as K
from .c19 import rand_desc, imported
from .rsakeys import KEYS as RSAS

COV = ['jwkest.jwk:RSAKey.serialize', 'jwkest.jwk:ECKey.serialize', 'jwkest.jwk:KEYS.dump_jwks', 'jwkest.jwk:make_public_copy', 'jwkest.jwk:Key.common', 'jwkest.jws:JWx.headers']
EXTRA = ['oth', 'k', 'd', 'p', 'q', 'dp', 'dq', 'qi', 'priv', 'x5t', 'secret', 'key_ops', 'ext', 'x']


def with_extra(rng, d):
    """Further members of the JWK: some no key of this kind has, some that repeat the private value."""
    if d['t'] == 'RSA': n, own = RSAS[d['i']][2], jwkref.PRIVATE + ('n', 'e')
    else: n, own = d['d'], ('d', 'crv', 'x', 'y')
    v = ref.b64u(ref.minbe(n)).decode()
    out = {}
    for m in EXTRA:
        if rng.random() < .25 and m not in own: out[m] = rng.choice([v, [v], [{'r': v, 'd': v, 't': v}], {'d': v}])
    if d['t'] == 'RSA' and rng.random() < .4: out['oth'] = [{'r': v, 'd': v, 't': v}]
    if d['t'] == 'EC' and rng.random() < .3: out['k'] = v
    return out


WAYS = ['object', 'constructor', 'keyrep', 'load_dict', 'add', 'dict', 'load_key', 'used']


def gen(rng, lits):
    d = rand_desc(rng, lits)
    while d['t'] == 'oct': d = rand_desc(rng, lits)
    return dict(d=dict(d, priv=True), how=rng.choice(WAYS), full=rng.random() < .5)


def make(d, how, full=False):
    """A private key made in one of many ways."""
    j = jwkref.jwk(d, True, full=full)
    if how == 'object': return K.build(d)
    if how == 'dict': return key_from_jwk_dict(dict(j, kid=j.get('kid', 'k')), True)
    if how == 'load_key':
        if d['t'] == 'RSA': return RSAKey(**K.meta(d)).load_key(K.rsa_obj(d['i'], True))
        return ECKey(**K.meta(d)).load_key(NISTEllipticCurve.by_name(d['crv']))
    if how == 'used':
        k = imported('keyrep', j)
        k.get_key(private=True)
        k.encryption_key(alg='x', private=True)
        k.serialize(private=True)
        k.to_dict()
        str(k)
        return k
    return imported(how, j)


def hidden(k, d):
    """The private integers of the key."""
    if d['t'] == 'RSA':
        n, e, x, p, q = RSAS[d['i']]
        return [x, p, q, x % (p - 1), x % (q - 1), pow(q, -1, p)]
    return [k.d]


def forms(n):
    """Ways a number could be written down."""
    o = ref.minbe(n)
    import base64
    out = [ref.b64u(o).decode(), base64.b64encode(o).decode().rstrip('='), o.hex(), str(n), hex(n)[2:]]
    return [x for x in out if len(x) > 8]


def clean(text, k, d):
    return not any(f in text for n in hidden(k, d) if n > 1 << 80 for f in forms(n))


@contract('C20', gen=gen, covers=COV, cases=400, weight=2, sym=False, why='key material of both kinds: see nothing_private')
def exports(d, how, full):
    k = make(d, how, full)
    pub = None
    if how != 'load_key' or d['t'] == 'RSA':
        pub = K.build(dict(d, priv=False, **({'kid': d.get('kid', 'k')} if how == 'dict' else {})))
    s = KEYS()
    s.append(k)
    for name, j in (('serialize', k.serialize()), ('serialize-false', k.serialize(private=False)), ('dump', json.loads(s.dump_jwks())['keys'][0]),
                    ('repr', json.loads(repr(s))['keys'][0]), ('str', json.loads(str(s))['keys'][0])):
        ensures(name + '-members', not any(m in j for m in jwkref.PRIVATE))
        ensures(name + '-text', clean(json.dumps(j), k, d))
        if pub is not None: ensures(name + '-same-as-public', jwsref.same(j, pub.serialize()))
    ensures('dump-whole', set(json.loads(s.dump_jwks())) == set(['keys']))


@contract('C20', gen=lambda rng, lits: (lambda d: dict(d=d, how=rng.choice(['constructor', 'octets', 'keyrep', 'load_dict', 'load_jwks', 'add', 'dict']), extra=with_extra(rng, d)))(gen(rng, lits)['d']),
          covers=COV, cases=400, weight=2, sym=False, why='key material of both kinds: see nothing_private')
def unknown_members(d, how, extra):
    """A key read from a JWK with members of other kinds of keys, or unknown ones."""
    j = dict(jwkref.jwk(fit_id(d, how), True), **extra)
    kind, k = outcome(imported, how, j)
    if kind != 'ok': return
    s = KEYS()
    s.append(k)
    for name, v in (('serialize', k.serialize()), ('dump', json.loads(s.dump_jwks())['keys'][0])):
        ensures(name + '-members', not any(m in v for m in jwkref.PRIVATE + ('k',)))
        ensures(name + '-text', clean(json.dumps(v), k, d))
    ensures('set-text', clean(s.dump_jwks() + repr(s) + str(s), k, d))


def fit_id(d, how): return d if how != 'dict' or d.get('kid') else dict(d, kid='k')


def reachable(o, depth=4):
    """Everything an object holds."""
    out = [o]
    if depth == 0: return out
    vs = []
    if isinstance(o, dict): vs = list(o.values())
    elif isinstance(o, (list, tuple, set)): vs = list(o)
    elif hasattr(o, '__dict__'): vs = list(vars(o).values())
    for v in vs: out += reachable(v, depth - 1)
    return out


@contract('C20', gen=gen, covers=COV, cases=300, weight=2, sym=False, why='key material of both kinds: see nothing_private')
def copies(d, how, full):
    k = make(d, how, full)
    before = json.dumps(k.serialize(True), sort_keys=True)
    c = make_public_copy(k)
    sec = set(n for n in hidden(k, d) if n > 1 << 32)
    for o in reachable(c):
        if isinstance(o, int) and not isinstance(o, bool): ensures('no-number', o not in sec)
        if isinstance(o, (str, bytes)):
            t = o if isinstance(o, str) else o.decode('latin-1')
            ensures('no-text', clean(t, k, d))
        ensures('no-private-object', not (hasattr(o, 'has_private') and o.has_private()))
        ensures('not-the-key', o is not k)
    ensures('kind', type(c) is type(k))
    if d['t'] == 'RSA': ensures('public', (c.n, c.e) == RSAS[d['i']][:2])
    else: ensures('public', (c.crv, c.x, c.y) == (k.crv, k.x, k.y))
    ensures('metadata', jwkref.meta(c) == jwkref.meta(k))
    ensures('original', json.dumps(k.serialize(True), sort_keys=True) == before)


def gen_set(rng, lits):
    ds = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        d = rand_desc(rng, lits)
        if d['t'] != 'oct': d['priv'] = True
        ds.append(d)
    return dict(ds=ds, ways=[rng.choice(WAYS[:5]) for _ in ds])


@contract('C20', gen=gen_set, covers=COV, cases=150, weight=2, sym=False, why='key material of both kinds: see nothing_private')
def sets(ds, ways):
    """A set that holds such keys among others."""
    s = KEYS()
    for d, w in zip(ds, ways):
        if d['t'] == 'oct': s.append(K.build(d))
        else: s.append(make(d, w))
    t = s.dump_jwks()
    out = json.loads(t)['keys']
    ensures('all', len(out) == len(ds))
    for k, d, j in zip(s, ds, out):
        if d['t'] != 'oct':
            ensures('members', not any(m in j for m in jwkref.PRIVATE))
            ensures('text', clean(t, k, d))
            ensures('same', jwsref.same(j, jwkref.jwk(dict(d, kid=k.kid), False)))


@contract('C20', gen=lambda rng, lits: dict(gen(rng, lits), payload='x'), covers=COV, cases=80, weight=2, sym=False, why='key material of both kinds: see nothing_private')
def headers(d, how, full, payload):
    """Tokens that carry the key in their header, or an ephemeral key, carry the public part only."""
    k = make(d, how, full)
    if d['t'] == 'RSA': alg, enc = 'RS256', 'RSA-OAEP'
    else: alg, enc = {'P-256': 'ES256', 'P-384': 'ES384', 'P-521': 'ES512'}[d['crv']], 'ECDH-ES'
    k.use = k.alg = ''
    t = JWS(payload, alg=alg, jwk=k).sign_compact([k])
    h = jwsref.header(ref.b64u_dec(t.split('.')[0].encode()))
    ensures('signed', clean(json.dumps(h), k, d) and not any(m in h.get('jwk', {}) for m in jwkref.PRIVATE))
    kind, t = outcome(JWE(payload, alg=enc, enc='A128CBC-HS256').encrypt, [k])
    if kind == 'ok':
        h = jwsref.header(ref.b64u_dec(t.split('.')[0].encode()))
        ensures('sealed', clean(json.dumps(h), k, d) and not any(m in h.get(x, {}) for m in jwkref.PRIVATE for x in ('jwk', 'epk')))
