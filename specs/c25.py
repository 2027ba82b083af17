"""C25: a certificate thumbprint must match the certificate."""
import hashlib
from jwkest.jwk import RSAKey, keyrep, KEYS, der2rsa
from jwkest.jwk import DeSerializationNotPossible
from pv.api import *
from . import ref, jwkref, keys as K
from .rsakeys import KEYS as RSAS

COV = ['jwkest.jwk:RSAKey.deserialize', 'jwkest.jwk:RSAKey.__init__', 'jwkest.jwk:RSAKey._split', 'jwkest.jwk:der2rsa', 'jwkest:b64d', 'jwkest:as_bytes']


def rand_cert(rng):
    return dict(i=rng.randrange(len(RSAS)), serial=rng.randint(1, 127), name=bytes(rng.getrandbits(7) | 32 for _ in range(rng.choice([1, 5, 40, 120]))),
                extra=bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 0, 10, 300]))))


def der(c): return jwkref.cert(c['i'], c['serial'], c['name'], jwkref.seq_octets(c['extra']) if c['extra'] else b'')


WRONG = ['flip', 'other', 'sha256', 'empty-digest', 'short', 'long', 'hex', 'std', 'second', 'prefix', 'padded', 'zeros', 'swap']


def wrong(how, cs, bit):
    """Thumbprints that are not the one of the first certificate (as octets; base64url coded later)."""
    right = hashlib.sha1(der(cs[0])).digest()
    if how == 'flip':
        b = bytearray(right)
        b[bit // 8] ^= 1 << (bit % 8)
        return bytes(b)
    if how == 'other': return hashlib.sha1(b'other').digest()
    if how == 'sha256': return hashlib.sha256(der(cs[0])).digest()
    if how == 'empty-digest': return hashlib.sha1(b'').digest()
    if how == 'short': return right[:-1 - bit % 19]
    if how == 'long': return right + right[:1 + bit % 20]
    if how == 'second': return hashlib.sha1(der(cs[-1])).digest()
    if how == 'prefix': return right[:1 + bit % 19]
    if how == 'zeros': return bytes(20)
    if how == 'swap': return right[::-1]
    return None


def gen(rng, lits):
    cs = [rand_cert(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    return dict(cs=cs, how=rng.choice(['none', 'right', 'right'] + WRONG), bit=rng.randrange(160), form=rng.choice(['str', 'bytes']), way=rng.choice(['constructor', 'keyrep', 'add', 'load_dict']),
                meta=dict(kid='k', use='sig') if rng.random() < .3 else {}, junk=rng.random() < .2)


def make(way, kw):
    if way == 'constructor': return RSAKey(**kw)
    if way == 'keyrep': return keyrep(dict(kw, kty='RSA'))
    s = KEYS()
    if way == 'add': s.add(dict(kw, kty='RSA'))
    else: s.load_dict(dict(keys=[dict(kw, kty='RSA')]))
    return list(s)[0]


@contract('C25', gen=gen, covers=COV, cases=600, weight=3, sym=False, why='certificates are concrete: see any_certificate')
def chain(cs, how, bit, form, way, meta, junk):
    requires(len(cs) > 0 and len(cs[0]['name']) > 0)
    x5c = [jwkref.pem64(der(c)) for c in cs]
    if junk: x5c = x5c[:1] + ['this is no certificate']
    right = hashlib.sha1(der(cs[0])).digest()
    kw = dict(x5c=x5c, **meta)
    t = None
    if how == 'right': t = ref.b64u(right)
    elif how == 'hex': t = right.hex().encode()
    elif how == 'std':
        import base64
        t = base64.b64encode(right)
        requires(b'+' in t or b'/' in t)
    elif how == 'padded': t = ref.b64u(right) + b'\n'
    elif how != 'none':
        w = wrong(how, cs, bit)
        requires(w != right)
        t = ref.b64u(w)
    if t is not None: kw['x5t'] = t if form == 'bytes' else t.decode('ascii')
    r = outcome(make, way, kw)
    if how in ('none', 'right'):
        ensures('imports', r[0] == 'ok')
        k = r[1]
        n, e = RSAS[cs[0]['i']][:2]
        ensures('first-certificate', (k.get_key().n, k.get_key().e, k.n, k.e) == (n, e, n, e))
        ensures('public-only', not k.d and not k.get_key().has_private())
        ensures('metadata', jwkref.meta(k) == (meta.get('kid', ''), meta.get('use', ''), ''))
    else:
        ensures('refused', r[0] == 'exc')


def gen_late(rng, lits):
    return dict(a=rand_cert(rng), b=rand_cert(rng), right=rng.random() < .4, form=rng.choice(['str', 'bytes']))


@contract('C25', gen=gen_late, covers=COV, cases=150, sym=False, why='certificates are concrete: see any_certificate')
def later(a, b, right, form):
    """The same when the parts of the certificate are set on the key object and it is deserialized then."""
    requires(der(a) != der(b))
    t = ref.b64u(hashlib.sha1(der(a if right else b)).digest())
    k = RSAKey()
    k.x5c = [jwkref.pem64(der(a))]
    k.x5t = t if form == 'bytes' else t.decode('ascii')
    r = outcome(k.deserialize)
    ensures('only-the-right-one', (r[0] == 'ok') == right)
    if right: ensures('key', (k.key.n, k.key.e) == RSAS[a['i']][:2])
    else:
        ensures('no-key', not k.key and not k.n and not k.e)
        ensures('still-refused', outcome(k.deserialize)[0] == 'exc' and outcome(k.encryption_key)[0] == 'exc' and outcome(k.serialize)[0] == 'exc')


@contract('C25', gen=lambda rng, lits: dict(c=rand_cert(rng), cut=rng.randint(0, 400), at=rng.randint(0, 60), byte=rng.randrange(256), kind=rng.choice(['cut', 'set', 'der'])), covers=COV, cases=200,
          sym=False, why='certificates are concrete: see any_certificate')
def damaged(c, cut, at, byte, kind):
    """A certificate changed after its thumbprint was taken is refused, whatever is left of it."""
    o = der(c)
    t = ref.b64u(hashlib.sha1(o).digest()).decode()
    if kind == 'cut': o2 = o[:cut]
    elif kind == 'set': o2 = o[:at] + bytes([byte]) + o[at + 1:]
    else: o2 = o + bytes([byte])
    requires(o2 != o)
    ensures('refused', outcome(RSAKey, x5c=[jwkref.pem64(o2)], x5t=t)[0] == 'exc')
    k = der2rsa(o)
    ensures('key-of-der', (k.n, k.e) == RSAS[c['i']][:2])
