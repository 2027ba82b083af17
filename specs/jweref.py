"""Compact JWE as RFC 7516 and RFC 7518 state it, for the supported algorithms.

CBC-HMAC and key wrap are those of ref.py, GCM and the RSA schemes are
Cryptodome's, the curves are those of ecref.py.
"""
import hashlib
import json
import zlib
from Cryptodome.Cipher import AES, PKCS1_OAEP, PKCS1_v1_5
from Cryptodome.Hash import SHA256
from . import ref, ecref, jwsref, keys as K

RSA_ALGS = ['RSA1_5', 'RSA-OAEP', 'RSA-OAEP-256']
KW_ALGS = ['A128KW', 'A192KW', 'A256KW']
EC_ALGS = ['ECDH-ES', 'ECDH-ES+A128KW', 'ECDH-ES+A192KW', 'ECDH-ES+A256KW']
ALGS = RSA_ALGS + KW_ALGS + EC_ALGS
CEK = {'A128GCM': 16, 'A192GCM': 24, 'A256GCM': 32, 'A128CBC-HS256': 32, 'A192CBC-HS384': 48, 'A256CBC-HS512': 64}
ENCS = list(CEK)
KW = {'A128KW': 16, 'A192KW': 24, 'A256KW': 32}


def kty(alg):
    return 'RSA' if alg in RSA_ALGS else 'oct' if alg in KW_ALGS else 'EC' if alg in EC_ALGS else None


def ivlen(enc): return 12 if enc.endswith('GCM') else 16


def sym_kek(alg, secret): return hashlib.sha256(secret).digest()[:KW[alg]]


def concat_kdf(z, alg, apu, apv, bits): return kdf(z, alg.encode(), apu, apv, bits)


def kdf(z, alg, apu, apv, bits):
    """NIST SP 800-56A section 5.8.1 with SHA-256 as RFC 7518 section 4.6.2 uses it."""
    info = b''
    for x in (alg, apu, apv): info += len(x).to_bytes(4, 'big') + x
    info += bits.to_bytes(4, 'big')
    out = b''
    i = 0
    while len(out) * 8 < bits:
        i += 1
        out += ref.hash_('sha256', i.to_bytes(4, 'big') + z + info)
    return out[:bits // 8]


def shared(crv, d, pt):
    """x coordinate of d * pt at full length, or None if there is none to agree on."""
    if not ecref.on_curve(crv, pt): return None
    r = ecref.mul(crv, d, pt)
    return None if r is None else r[0].to_bytes(ecref.P[crv]['size'], 'big')


def seal(enc, cek, iv, aad, msg):
    if enc.endswith('GCM'):
        c = AES.new(cek, AES.MODE_GCM, nonce=iv, mac_len=16)
        c.update(aad)
        return c.encrypt_and_digest(msg)
    return ref.cbc_hmac_encrypt(cek, iv, aad, msg)


def open_(enc, cek, iv, aad, ct, tag):
    """Plaintext, or None."""
    if enc not in CEK or len(cek) != CEK[enc] or len(iv) != ivlen(enc): return None
    if enc.endswith('GCM'):
        if len(tag) != 16: return None
        c = AES.new(cek, AES.MODE_GCM, nonce=iv, mac_len=16)
        c.update(aad)
        try: return c.decrypt_and_verify(ct, tag)
        except ValueError: return None
    h = {32: 'sha256', 48: 'sha384', 64: 'sha512'}[len(cek)]
    n = len(cek) // 2
    import hmac
    t = hmac.new(cek[:n], aad + iv + ct + (8 * len(aad)).to_bytes(8, 'big'), h).digest()[:n]
    if t != tag or len(ct) % 16 or not ct: return None
    p = AES.new(cek[n:], AES.MODE_CBC, iv).decrypt(ct)
    if not 1 <= p[-1] <= 16 or p[-p[-1]:] != bytes([p[-1]]) * p[-1]: return False    # valid tag, bad padding
    return p[:-p[-1]]


def unwrap(kek, w):
    if len(w) % 8 or len(w) < 24: return None
    r, a = ref.key_unwrap(kek, w)
    return r if a == b'\xa6' * 8 else None


def b64(v):
    """Octets of a base64url text in a header (padding tolerated), or None."""
    if not isinstance(v, str): return None
    return jwsref.decode_part(v.encode('utf-8'))


def number(v):
    """A coordinate: base64url text (or, tolerated, a JSON number); None if it is neither."""
    if isinstance(v, int): return v
    o = b64(v)
    return int.from_bytes(o, 'big') if o else None


def cek_of(h, d, ek):
    """The content key the key described by d recovers, or None."""
    return content_key(h, h['alg'], h['enc'], d, ek)


def content_key(h, alg, e, d, ek):
    if alg in RSA_ALGS:
        k = K.rsa_obj(d['i'], True)
        try:
            if alg == 'RSA1_5':
                r = PKCS1_v1_5.new(k).decrypt(ek, None)
                return r if isinstance(r, bytes) else None
            return PKCS1_OAEP.new(k, SHA256 if alg.endswith('256') else None).decrypt(ek)
        except (ValueError, TypeError): return None
    if alg in KW_ALGS: return unwrap(sym_kek(alg, d['k']), ek)
    epk = h.get('epk')
    if not isinstance(epk, dict) or epk.get('crv') != d['crv']: return None
    x, y = number(epk.get('x')), number(epk.get('y'))
    apu, apv = b64(h.get('apu', '')), b64(h.get('apv', ''))
    if x is None or y is None or apu is None or apv is None: return None
    if alg == 'ECDH-ES':
        enc = next((v for v in ENCS if v == e), None)
        return None if enc is None else agreed(d['crv'], d['d'], (x, y), enc.encode(), apu, apv, 8 * CEK[enc])
    for a in KW:
        if alg == 'ECDH-ES+' + a:
            kek = agreed(d['crv'], d['d'], (x, y), ('ECDH-ES+' + a).encode(), apu, apv, 8 * KW[a])
            return None if kek is None else unwrap(kek, ek)


def agreed(crv, d, pt, alg, apu, apv, bits):
    """The key derived from the secret agreed on, or None if pt is no point of the curve."""
    z = shared(crv, d, pt)
    return None if z is None else kdf(z, alg, apu, apv, bits)


def opening(e, cek, iv, aad, ct, tag):
    """open_ for whatever the header names as content encryption."""
    enc = next((v for v in ENCS if v == e), None)
    return None if enc is None else open_(enc, cek, iv, aad, ct, tag)


def plaintexts(token, ds):
    """[(index of key, plaintext)] for each key described in ds that opens the token (private parts assumed)."""
    ps = jwsref.split(token)
    if len(ps) != 5: return []
    o = [jwsref.decode_part(p) for p in ps]
    if any(x is None for x in o): return []
    h = jwsref.header(o[0])
    if not isinstance(h, dict) or h.get('alg') not in ALGS or h.get('enc') not in ENCS: return []
    out = []
    for i, d in enumerate(ds):
        if d['t'] != kty(h['alg']) or not d.get('priv', True): continue
        cek = cek_of(h, d, o[1])
        if cek is None: continue
        m = open_(h['enc'], cek, o[2], ps[0], o[3], o[4])
        if m is None: continue
        if m is False: continue
        if h.get('zip') == 'DEF': m = inflate(m)
        if m is not None: out.append((i, m))
    return out


def opens(token, d, m):
    """Does the key described by d open the token to the octets m?"""
    ps = jwsref.split(token)
    if len(ps) != 5: return False
    o = [jwsref.decode_part(p) for p in ps]
    if any(x is None for x in o): return False
    h = jwsref.header(o[0])
    if not isinstance(h, dict): return False
    return opens_parts(h, ps[0], o, d, m)


def opened(token, ds, m):
    """Does some key described in ds?"""
    ps = jwsref.split(token)
    if len(ps) != 5: return False
    o = [jwsref.decode_part(p) for p in ps]
    if any(x is None for x in o): return False
    h = jwsref.header(o[0])
    if not isinstance(h, dict): return False
    return any(opens_parts(h, ps[0], o, d, m) for d in ds)


def opens_parts(h, part, o, d, m):
    alg = h.get('alg')
    if d['t'] != kty(alg) or not d.get('priv', True): return False
    e = h.get('enc')
    cek = content_key(h, alg, e, d, o[1])
    if cek is None: return False
    r = opening(e, cek, o[2], part, o[3], o[4])
    if r is None: return False
    if r is False: return True       # the tag is right; what is left of bad padding is not prescribed
    if h.get('zip') == 'DEF': return m == inflate(r)
    return m == r


def inflate(m):
    try: return zlib.decompress(m)
    except zlib.error: return None


def make(rng, alg, enc, d, msg, extra=None, cek=None, iv=None, eph=None, hdr_text=None, party=True):
    """A token for the key described by d: list of five octet strings, the header part first."""
    h = dict({'alg': alg, 'enc': enc}, **(extra or {}))
    rb = lambda n: bytes(rng.getrandbits(8) for _ in range(n))
    cek = cek if cek is not None else rb(CEK[enc])
    iv = iv if iv is not None else rb(ivlen(enc))
    ek = b''
    if alg in EC_ALGS:
        crv = d['crv']
        e = eph or rng.choice([1, 2, 3, 0xabcdef0123456789])
        x, y = ecref.public(crv, e)
        n = ecref.P[crv]['size']
        h['epk'] = dict(kty='EC', crv=crv, x=ref.b64u(x.to_bytes(n, 'big')).decode(), y=ref.b64u(y.to_bytes(n, 'big')).decode())
        apu, apv = (rb(rng.choice([0, 1, 16])), rb(rng.choice([0, 3, 16]))) if party else (b'', b'')
        if apu or rng.random() < .5: h['apu'] = ref.b64u(apu).decode()
        if apv or rng.random() < .5: h['apv'] = ref.b64u(apv).decode()
        z = shared(crv, e, ecref.public(crv, d['d']))
        if alg == 'ECDH-ES': cek = concat_kdf(z, enc, apu, apv, 8 * CEK[enc])
        else: ek = ref.key_wrap(concat_kdf(z, alg, apu, apv, 8 * KW[alg[8:]]), cek)
    elif alg in KW_ALGS: ek = ref.key_wrap(sym_kek(alg, d['k']), cek)
    elif alg == 'RSA1_5': ek = PKCS1_v1_5.new(K.rsa_obj(d['i'], False)).encrypt(cek)
    else: ek = PKCS1_OAEP.new(K.rsa_obj(d['i'], False), SHA256 if alg.endswith('256') else None).encrypt(cek)
    if h.get('zip') == 'DEF': msg = zlib.compress(msg)
    hp = ref.b64u(json.dumps(h).encode() if hdr_text is None else hdr_text(h).encode())
    ct, tag = seal(enc, cek, iv, hp, msg)
    return [hp, ref.b64u(ek), ref.b64u(iv), ref.b64u(ct), ref.b64u(tag)]
