"""C21: key equality, thumbprint and derived key id identify the key."""
import hashlib
from jwkest.jwk import RSAKey, ECKey, SYMKey
from pv.api import *
from . import ref, ecref, jwkref, jwsref, keys as K
from .c19 import rand_desc, rand_d, imported, SHORTD
from .rsakeys import KEYS as RSAS

COV = ['jwkest.jwk:Key.__eq__', 'jwkest.jwk:Key.thumbprint', 'jwkest.jwk:Key.add_kid', 'jwkest.jwk:Key.get_hash', 'jwkest.jwk:Key.__hash__',
       'jwkest.jwk:RSAKey.serialize', 'jwkest.jwk:ECKey.serialize', 'jwkest.jwk:SYMKey.serialize', 'jwkest.jwk:Key.common', 'jwkest.jwk:sha256_digest',
       'jwkest.jwk:sha384_digest', 'jwkest.jwk:sha512_digest']
WAYS = ['object', 'constructor', 'octets', 'keyrep', 'load_dict', 'load_jwks', 'add', 'dict']
HASHES = {'SHA-256': 'sha256', 'SHA-384': 'sha384', 'SHA-512': 'sha512'}


def make(d, how):
    if how == 'object': return K.build(d)
    return imported(how, jwkref.jwk(d, True), d['t'] != 'oct' and d.get('priv', True))


def near(rng, d, lits):
    """A description that differs a little from d, or not at all."""
    r = rng.random()
    if r < .2: return dict(d)
    if r < .45:
        m = rng.choice(['kid', 'use', 'alg'])
        if rng.random() < .4: return dict((k, v) for k, v in d.items() if k != m)
        return dict(d, **{m: rng.choice(['a', 'A', 'sig', 'enc', 'RS256', 'x', d.get(m, '') + ' ', d.get('kid', 'k'), d.get('use', 'k')])})
    if r < .55:
        a, b = rng.sample(['kid', 'use', 'alg'], 2)
        e = dict((k, v) for k, v in d.items() if k not in (a, b))
        if b in d: e[a] = d[b]
        if a in d: e[b] = d[a]
        return e
    if d['t'] == 'RSA': return dict(d, i=rng.randrange(len(RSAS)))
    if d['t'] == 'EC':
        n = ecref.P[d['crv']]['n']
        return dict(d, d=rng.choice([n - d['d'], (d['d'] % (n - 1)) + 1, 1, 2]))
    k = d['k']
    return dict(d, k=rng.choice([k + b'\0', b'\0' + k, k[:-1] or b'x', k[::-1], k[:-1] + bytes([k[-1] ^ 1]), k + k]))


def full(d): return jwkref.described(d)[:2] + (d.get('k'), jwkref.meta_of(d))


def gen_eq(rng, lits):
    d = rand_desc(rng, lits)
    e = rand_desc(rng, lits) if rng.random() < .1 else near(rng, d, lits)
    if e['t'] != 'oct' and rng.random() < .3: e = dict(e, priv=not e.get('priv', True))
    return dict(d=d, e=e, how=rng.choice(WAYS), how2=rng.choice(WAYS))


def fit(d, how):
    if how != 'dict' or d.get('kid'): return d
    return dict(d, kid='k')


@contract('C21', gen=gen_eq, covers=COV, cases=500, weight=2, sym=False, why='equality of keys of all kinds: see eq_any')
def equality(d, e, how, how2):
    """Equal only if kind, public material (or secret) and metadata are; equal if the description is."""
    d, e = fit(d, how), fit(e, how2)
    a, b = make(d, how), make(e, how2)
    same = full(d) == full(e)
    ensures('only-if', same or not (a == b))
    ensures('only-if-symmetric', same or not (b == a))
    ensures('not-equal', same or a != b)
    ensures('same-description', d != e or (a == b and b == a and not (a != b)))
    ensures('itself', a == a)
    ensures('hash', not (a == b) or hash(a) == hash(b))
    ensures('nothing-else', not (a == d) and not (a == None) and not (a == 'x'))


def gen_many(rng, lits):
    d = rand_desc(rng, lits)
    return dict(ds=[d] + [near(rng, d, lits) for _ in range(rng.randint(0, 5))])


@contract('C21', gen=gen_many, covers=COV, cases=150, weight=2, sym=False, why='key lists: see eq_any')
def membership(ds):
    """`in`, list.index and list.count use the equality."""
    ks = [K.build(d) for d in ds]
    k = K.build(ds[0])
    ensures('in', k in ks)
    ensures('index', ks.index(k) == 0)
    ensures('count', len([d for d in ds if d == ds[0]]) <= ks.count(k) <= len([d for d in ds if full(d) == full(ds[0])]))
    ensures('not-in', (k in ks[1:]) <= (full(ds[0]) in [full(d) for d in ds[1:]]))


def right(d, h, got):
    """Is got the RFC 7638 thumbprint?  For an EC key the value of finding K1 passes here; contract ec_members reports it."""
    return got == jwkref.thumbprint(d, h) or d['t'] == 'EC' and got == jwkref.thumbprint(d, h, kty=False)


def gen_tp(rng, lits): return dict(d=rand_desc(rng, lits), how=rng.choice(WAYS), h=rng.choice(sorted(HASHES)))


@contract('C21', gen=gen_tp, covers=COV, cases=500, weight=2, sym=False, why='key material of all kinds: see thumbprint_any')
def thumbprint(d, how, h):
    """The RFC 7638 hash of the required members, whatever else the key holds and however it was made."""
    d = fit(d, how)
    k = make(d, how)
    ensures('value', right(d, HASHES[h], k.thumbprint(h)))
    ensures('again', right(d, HASHES[h], k.thumbprint(h)))
    bare = dict((m, v) for m, v in d.items() if m not in ('kid', 'use', 'alg'))
    if d['t'] != 'oct': bare['priv'] = False
    ensures('bare', k.thumbprint(h) == K.build(bare).thumbprint(h))
    ensures('metadata', jwkref.meta(k) == jwkref.meta_of(d))
    ms = {'RSA': ['n', 'kty', 'e'], 'oct': ['kty', 'k'], 'EC': ['y', 'kty', 'x', 'crv']}[d['t']]
    ensures('any-order', k.thumbprint(h, members=ms) == k.thumbprint(h, members=ms[::-1]) == jwkref.thumbprint(d, HASHES[h]))
    ensures('as-number', right(d, HASHES[h], k.get_hash(h).to_bytes(len(k.thumbprint(h)), 'big')))
    ensures('as-number-default', right(d, 'sha256', k.get_hash().to_bytes(32, 'big')))


@contract('C21', gen=lambda rng, lits: dict(d=rand_desc(rng, lits), how=rng.choice(WAYS), first=rng.random() < .5), covers=COV, cases=300, weight=2, sym=False,
          why='key material of all kinds: see thumbprint_any')
def key_id(d, how, first):
    """add_kid derives the key id from the SHA-256 thumbprint; hashing a key without id does the same and keeps any other id."""
    d = fit(d, how)
    k = make(d, how)
    if first: k.thumbprint('SHA-512')
    hash(k)
    if d.get('kid'): ensures('kept', k.kid == d['kid'])
    else: ensures('derived', right(d, 'sha256', ref.b64u_dec(k.kid.encode('ascii'))))
    hash(k)
    if d.get('kid'): ensures('still-kept', k.kid == d['kid'])
    k2 = make(d, how)
    k2.add_kid()
    ensures('value', type(k2.kid) is str and any(k2.kid.encode() == ref.b64u(jwkref.thumbprint(d, 'sha256', kty=t)) for t in ((True, False) if d['t'] == 'EC' else (True,))))
    ensures('rest', (k2.use or '', k2.alg or '') == jwkref.meta_of(d)[1:])
    ensures('exported', k2.serialize()['kid'] == k2.kid)
    k2.add_kid()
    ensures('stable', right(d, 'sha256', ref.b64u_dec(k2.kid.encode('ascii'))))


def gen_pair(rng, lits):
    d = rand_desc(rng, lits)
    return dict(d=d, e=near(rng, d, lits), h=rng.choice(sorted(HASHES)))


@contract('C21', gen=gen_pair, covers=COV, cases=300, weight=2, sym=False, why='key material of all kinds: see thumbprint_any')
def different(d, e, h):
    """Keys of different material have different thumbprints, keys of the same material the same."""
    a, b = K.build(d).thumbprint(h), K.build(e).thumbprint(h)
    ensures('iff', (a == b) == (full(d)[:3] == full(e)[:3]))


@contract('C21', gen=lambda rng, lits: dict(crv=(c := rng.choice(ecref.CURVES)), x=rand_d(rng, c), h=rng.choice(sorted(HASHES))), covers=COV, cases=30, sym=False,
          why='the finding K1 is concrete')
def ec_members(crv, x, h):
    """The hashed members of an EC key are crv, kty, x and y."""
    d = dict(t='EC', crv=crv, d=x)
    got = K.build(d).thumbprint(h)
    if got == jwkref.thumbprint(d, HASHES[h], kty=False): ensures('kty-hashed', False)
    else: ensures('value', got == jwkref.thumbprint(d, HASHES[h]))


def gen_history(rng, lits):
    t = rng.choice(['RSA', 'EC', 'oct'])
    ds = []
    for _ in range(rng.choice([2, 2, 3])):
        while True:
            d = rand_desc(rng, lits)
            if d['t'] == t and (t != 'EC' or not ds or d['crv'] == ds[0]['crv']): break
        ds.append(dict(d, priv=d.get('priv', True)) if t != 'oct' else d)
    uses = [rng.sample(['kid', 'hash', 'thumbprint', 'get_hash', 'eq', 'serialize'], rng.randint(1, 3)) for _ in ds]
    return dict(ds=ds, uses=uses, h=rng.choice(sorted(HASHES)))


def replace(k, d):
    """Give the key object other material."""
    if d['t'] == 'RSA': k.load_key(K.rsa_obj(d['i'], d['priv']))
    elif d['t'] == 'oct': k.key, k.k = d['k'], type(k.k)(ref.b64u(d['k'])) if isinstance(k.k, bytes) else ref.b64u(d['k']).decode()
    else:
        k.x, k.y = ecref.public(d['crv'], d['d'])
        k.d = d['d'] if d['priv'] else ''


@contract('C21', gen=gen_history, covers=COV, cases=300, weight=2, sym=False, why='one object given other material; single objects: see thumbprint_any')
def history(ds, uses, h):
    """One key object whose material is replaced: thumbprint, derived id and equality follow."""
    k = K.build(ds[0])
    for d, us in zip(ds, uses):
        replace(k, d)
        for u in us:
            if u == 'kid':
                k.add_kid()
                ensures('kid', right(d, 'sha256', ref.b64u_dec(k.kid.encode('ascii'))))
            elif u == 'hash': hash(k)
            elif u == 'thumbprint': ensures('thumbprint', right(d, HASHES[h], k.thumbprint(h)))
            elif u == 'get_hash': ensures('as-number', right(d, HASHES[h], k.get_hash(h).to_bytes(len(k.thumbprint(h)), 'big')))
            elif u == 'serialize': k.serialize()
            else:
                o = K.build(dict(d, kid=k.kid, use=k.use, alg=k.alg))
                ensures('equal', k == o and o == k)
                for e in ds:
                    if full(e)[:3] != full(d)[:3]: ensures('not-equal', not (k == K.build(dict(e, kid=k.kid, use=k.use, alg=k.alg))))
