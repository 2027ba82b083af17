"""The JWS algorithms of RFC 7518 section 3, from the standards they cite."""
import hashlib
import hmac
import os
from . import ecref, ref
from .rsakeys import KEYS as RSAS

HASH = {'256': 'sha256', '384': 'sha384', '512': 'sha512'}
EC_OF = {'ES256': 'P-256', 'ES384': 'P-384', 'ES512': 'P-521'}
PREFIX = {'sha256': '3031300d060960864801650304020105000420', 'sha384': '3041300d060960864801650304020205000430',
          'sha512': '3051300d060960864801650304020305000440'}
ALGS = ['HS256', 'HS384', 'HS512', 'RS256', 'RS384', 'RS512', 'ES256', 'ES384', 'ES512', 'PS256', 'PS384', 'PS512']
KTY = {'HS': 'oct', 'RS': 'RSA', 'PS': 'RSA', 'ES': 'EC'}


def digest(h, m): return hashlib.new(h, m).digest()


def emsa_pkcs1(h, msg, k):
    t = bytes.fromhex(PREFIX[h]) + digest(h, msg)
    if k < len(t) + 11: return None
    return b'\0\1' + b'\xff' * (k - len(t) - 3) + b'\0' + t


def mgf1(h, seed, n):
    out = b''
    i = 0
    while len(out) < n:
        out += digest(h, seed + i.to_bytes(4, 'big'))
        i += 1
    return out[:n]


def pss_ok(h, msg, em, embits):
    hl = hashlib.new(h).digest_size
    if len(em) < 2 * hl + 2 or em[-1] != 0xbc: return False
    mdb, hh = em[:len(em) - hl - 1], em[-hl - 1:-1]
    z = 8 * len(em) - embits
    if mdb[0] >> (8 - z): return False
    db = bytes(a ^ b for a, b in zip(mdb, mgf1(h, hh, len(mdb))))
    db = bytes([db[0] & (0xff >> z)]) + db[1:]
    if any(db[:len(em) - 2 * hl - 2]) or db[len(em) - 2 * hl - 2] != 1: return False
    return digest(h, b'\0' * 8 + digest(h, msg) + db[-hl:]) == hh


def pss_encode(h, msg, embits, salt):
    hl = hashlib.new(h).digest_size
    n = (embits + 7) // 8
    hh = digest(h, b'\0' * 8 + digest(h, msg) + salt)
    db = b'\0' * (n - 2 * hl - 2) + b'\1' + salt
    mdb = bytes(a ^ b for a, b in zip(db, mgf1(h, hh, len(db))))
    z = 8 * n - embits
    return bytes([mdb[0] & (0xff >> z)]) + mdb[1:] + hh + b'\xbc'


def kty(alg): return KTY.get(alg[:2]) if alg in ALGS else None


def ecdsa_valid(crv, h, sig, pub):
    """ECDSA of FIPS 186-4 over the curve: h is the hash as an integer of no more bits than the order,
    sig the two integers in the octets of the field each, pub the point."""
    n = ecref.P[crv]['size']
    if len(sig) != 2 * n: return False
    return ecref.ecdsa_ok(crv, h, int.from_bytes(sig[:n], 'big'), int.from_bytes(sig[n:], 'big'), pub)


def rsa_valid(kind, h, i, msg, sig):
    """RSASSA-PKCS1-v1_5 ('RS') or RSASSA-PSS ('PS') of RFC 8017 under the key KEYS[i]."""
    n, e = RSAS[i][:2]
    k = (n.bit_length() + 7) // 8
    if len(sig) != k: return False
    s = int.from_bytes(sig, 'big')
    if s >= n: return False
    m = pow(s, e, n)
    if kind == 'RS': return m.to_bytes(k, 'big') == emsa_pkcs1(h, msg, k)
    eb = n.bit_length() - 1
    el = (eb + 7) // 8
    if m >> (8 * el): return False
    return pss_ok(h, msg, m.to_bytes(el, 'big'), eb)


def valid(alg, d, msg, sig):
    """Does the RFC 7518 primitive alg accept sig for msg under the key described by d?"""
    return by_kind(alg, d, msg, sig)


def by_kind(alg, d, msg, sig):
    for a in ALGS:
        if alg == a:
            h = HASH[a[2:]]
            if d['t'] != KTY[a[:2]]: return False
            if a[0] == 'H': return ref.hmac_(h, d['k'], msg) == sig
            if a[0] == 'E':
                # a key of another curve: its coordinates go into the equation of this one (and fail it)
                return ecdsa_valid(EC_OF[a], ref.os2ip(ref.hash_(h, msg)), sig, ecref.public(d['crv'], d['d']))
            return rsa_valid(a[:2], h, d['i'], msg, sig)
    return False


def make(alg, d, msg, salt=None, nonce=None):
    """A signature of msg (salt, nonce: octets for PSS, integer for ECDSA)."""
    h = HASH[alg[2:]]
    if alg[0] == 'H': return hmac.new(d['k'], msg, h).digest()
    if alg[0] == 'E':
        crv = EC_OF[alg]
        n = ecref.P[crv]['size']
        r, s = ecref.ecdsa_sign(crv, ecref.truncated(crv, digest(h, msg)), d['d'], nonce or 0x1234567)
        return r.to_bytes(n, 'big') + s.to_bytes(n, 'big')
    n, e, dd = RSAS[d['i']][:3]
    k = (n.bit_length() + 7) // 8
    if alg[0] == 'R': em = emsa_pkcs1(h, msg, k)
    else: em = pss_encode(h, msg, n.bit_length() - 1, salt if salt is not None else b's' * hashlib.new(h).digest_size)
    return pow(int.from_bytes(em, 'big'), dd, n).to_bytes(k, 'big')
