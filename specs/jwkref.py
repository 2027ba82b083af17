"""JSON Web Keys as RFC 7517/7518/7638 state them, for the key descriptions of keys.py."""
import base64
import hashlib
import json
from Cryptodome.Util.asn1 import DerSequence
from . import ref, ecref, keys as K
from .rsakeys import KEYS as RSAS

PRIVATE = ('d', 'p', 'q', 'dp', 'dq', 'di', 'qi', 'oth')


def i64(n): return ref.b64u(ref.minbe(n)).decode('ascii')


def jwk(d, private, factors=True, full=False):
    """The JWK of the key described by d."""
    r = dict((k, d[k]) for k in ('kid', 'use', 'alg') if d.get(k))
    if d['t'] == 'RSA':
        n, e, x, p, q = RSAS[d['i']]
        r.update(kty='RSA', n=i64(n), e=i64(e))
        if private and d.get('priv', True):
            r['d'] = i64(x)
            if factors: r.update(p=i64(p), q=i64(q))
            if full: r.update(dp=i64(x % (p - 1)), dq=i64(x % (q - 1)), qi=i64(pow(q, -1, p)))
    elif d['t'] == 'EC':
        x, y = ecref.public(d['crv'], d['d'])
        z = ecref.P[d['crv']]['size']
        c = lambda v: ref.b64u(v.to_bytes(z, 'big')).decode('ascii')
        r.update(kty='EC', crv=d['crv'], x=c(x), y=c(y))
        if private and d.get('priv', True): r['d'] = c(d['d'])
    else: r.update(kty='oct', k=ref.b64u(d['k']).decode('ascii'))
    return r


def thumbprint(d, h, kty=True):
    """RFC 7638 (kty=False: what is left when that member is forgotten)."""
    j = jwk(d, False)
    ms = {'RSA': ['e', 'kty', 'n'], 'EC': ['crv', 'kty', 'x', 'y'], 'oct': ['k', 'kty']}[d['t']]
    if not kty: ms = [m for m in ms if m != 'kty']
    return hashlib.new(h, json.dumps(dict((m, j[m]) for m in ms), separators=(',', ':')).encode()).digest()


def material(k):
    """(kty, public material, private exponent or secret) of a library key, from its attributes."""
    if k.kty == 'RSA':
        o = k.get_key()
        return 'RSA', (o.n, o.e), o.d if o.has_private() else None
    if k.kty == 'EC': return 'EC', (k.crv, k.x, k.y), k.d or None
    return k.kty, None, bytes(k.key)


def described(d, private=True):
    """The same for a description."""
    priv = private and d.get('priv', True)
    if d['t'] == 'RSA': return 'RSA', RSAS[d['i']][:2], RSAS[d['i']][2] if priv else None
    if d['t'] == 'EC': return 'EC', (d['crv'],) + ecref.public(d['crv'], d['d']), d['d'] if priv else None
    return 'oct', None, d['k']


def meta(k): return k.kid or '', k.use or '', k.alg or ''


def meta_of(d): return d.get('kid') or '', d.get('use') or '', d.get('alg') or ''


def same_key(k, d, private=True):
    """Is k the key described by d?"""
    return material(k) == described(d, private) and meta(k) == meta_of(d)


def cert(i, serial=1, name=b'x', extra=b''):
    """A certificate-shaped DER structure that holds the public key of RSA key i."""
    der = lambda tag, body: bytes([tag]) + length(len(body)) + body
    seq = lambda *xs: der(0x30, b''.join(xs))
    oid = der(6, bytes.fromhex('2a864886f70d01010b'))
    alg = seq(oid, der(5, b''))
    dn = seq(der(0x31, seq(der(6, bytes.fromhex('550403')), der(0x0c, name))))
    valid = seq(der(0x17, b'200101000000Z'), der(0x17, b'400101000000Z'))
    spki = K.rsa_obj(i, False).export_key('DER')
    tbs = seq(der(0xa0, der(2, b'\2')), der(2, bytes([serial])), alg, dn, valid, dn, spki, *([der(0xa3, seq(extra))] if extra else []))
    return seq(tbs, alg, der(3, b'\0' + bytes(256)))


def length(n):
    if n < 128: return bytes([n])
    o = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return bytes([128 + len(o)]) + o


def pem64(der): return base64.b64encode(der).decode('ascii')


def seq_octets(o):
    """A DER octet string, to fill an extension."""
    return bytes([4]) + length(len(o)) + o
