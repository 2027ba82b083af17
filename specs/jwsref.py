"""Compact and JSON JWS as RFC 7515 states them (with this library's payload
convention: UTF-8 text, decoded as JSON where it is JSON and cty does not say otherwise)."""
import json
from . import ref, sigref


def decode_part(p):
    """Octets of a token part (octets), or None; padding at the end is tolerated."""
    b = p.rstrip(b'=')
    if len(b) % 4 == 1 or not ref.is_ascii(b) or not ref.is_b64u_alphabet(b.decode('ascii')): return None
    return ref.b64u_dec(b)


def split(token):
    t = token.encode('utf-8') if isinstance(token, str) else token
    return t.split(b'.')


def header(octets):
    """JSON value of a header part, or None."""
    try:
        return json.loads(octets.decode('utf-8'))
    except ValueError:
        return None


def payload(hdr, octets):
    return payload_value(hdr, octets)


def payload_value(hdr, octets):
    try:
        m = octets.decode('utf-8')
    except UnicodeDecodeError:
        m = octets
    if isinstance(hdr, dict) and 'cty' in hdr and str(hdr['cty']).lower() != 'jwt': return m
    try:
        return json.loads(m)
    except ValueError:
        return m


def accepted(token, ds):
    """(header, payload, [indexes of keys that validate]) if some key described in ds validates the token, else None."""
    ps = split(token)
    if len(ps) != 3: return None
    o = [decode_part(p) for p in ps]
    if any(x is None for x in o): return None
    h = header(o[0])
    if not isinstance(h, dict): return None
    alg = h.get('alg')
    if not isinstance(alg, str) or alg not in sigref.ALGS: return None
    good = [i for i, d in enumerate(ds) if sigref.valid(alg, d, ps[0] + b'.' + ps[1], o[2])]
    if not good: return None
    return h, payload(h, o[1]), good


def same(a, b):
    """Equality that tells 1 from True and 1.0 (payloads are JSON values, text or octets)."""
    if type(a) is not type(b): return False
    if isinstance(a, dict): return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b or (a != a and b != b)
