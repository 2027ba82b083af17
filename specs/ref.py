"""Specification functions: what the standards say, independent of the code.

Each has a native meaning (below, from the standards and the libraries) and,
for primitives, a symbolic meaning in pv/specs_models.py.  Functions without a
symbolic meaning are interpreted like any other code.
"""
import base64
import hashlib
import hmac


def b64u(octets):
    """BASE64URL(octets) of RFC 7515 section 2, as octets."""
    return base64.urlsafe_b64encode(octets).rstrip(b'=')


ALPHABET = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'


def is_b64u_alphabet(text):
    """Only characters of the base64url alphabet (text is str)."""
    return all(c in ALPHABET for c in text)


def is_utf8(octets):
    try:
        octets.decode('utf-8')
        return True
    except UnicodeDecodeError:
        return False


def is_ascii(octets):
    return all(x < 128 for x in octets)


def b64u_dec(text):
    """Octets of an unpadded base64url text (octets) of possible length."""
    return base64.urlsafe_b64decode(text + b'=' * (-len(text) % 4))


# ------------------------------------------------------------- primitives
def hash_(name, data): return hashlib.new(name, data).digest()


def hmac_(name, key, data): return hmac.new(key, data, name).digest()


def aes_ecb(key, block):
    from Cryptodome.Cipher import AES
    return AES.new(key, AES.MODE_ECB).encrypt(block)


def aes_ecb_dec(key, block):
    from Cryptodome.Cipher import AES
    return AES.new(key, AES.MODE_ECB).decrypt(block)


def aes_cbc(key, iv, data):
    from Cryptodome.Cipher import AES
    return AES.new(key, AES.MODE_CBC, iv).encrypt(data)


def aes_cbc_dec(key, iv, data):
    from Cryptodome.Cipher import AES
    return AES.new(key, AES.MODE_CBC, iv).decrypt(data)


def i2osp(x, n):
    """x in n octets, big-endian (0 <= x < 256**n)."""
    return x.to_bytes(n, 'big')


def os2ip(octets): return int.from_bytes(octets, 'big')


def xor64(octets, t):
    """64-bit block xor the integer t."""
    return (int.from_bytes(octets, 'big') ^ t).to_bytes(8, 'big')


# ------------------------------------------------------- RFC 7518 section 5.2
CBC_HMAC = {32: 'sha256', 48: 'sha384', 64: 'sha512'}


def pkcs7(data):
    n = 16 - len(data) % 16
    return data + bytes([n]) * n


def cbc_hmac_tag(key, iv, aad, ct):
    n = len(key) // 2
    return hmac_(CBC_HMAC[len(key)], key[:n], aad + iv + ct + i2osp(8 * len(aad), 8))[:n]


def cbc_hmac_encrypt(key, iv, aad, pt):
    n = len(key) // 2
    ct = aes_cbc(key[n:], iv, pkcs7(pt))
    return ct, cbc_hmac_tag(key, iv, aad, ct)


# ------------------------------------------------------------------ RFC 3394
def key_wrap(kek, key, iv=b'\xa6' * 8):
    """Section 2.2.1, index based."""
    n = len(key) // 8
    a = iv
    r = [key[8 * i:8 * i + 8] for i in range(n)]
    for j in range(6):
        for i in range(n):
            b = aes_ecb(kek, a + r[i])
            a = xor64(b[:8], n * j + i + 1)
            r[i] = b[8:]
    out = a
    for x in r: out = out + x
    return out


def key_unwrap(kek, wrapped):
    """(key data, recovered integrity value), section 2.2.2."""
    n = len(wrapped) // 8 - 1
    a = wrapped[:8]
    r = [wrapped[8 * i + 8:8 * i + 16] for i in range(n)]
    for j in (5, 4, 3, 2, 1, 0):
        for i in reversed(range(n)):
            b = aes_ecb_dec(kek, xor64(a, n * j + i + 1) + r[i])
            a = b[:8]
            r[i] = b[8:]
    out = b''
    for x in r: out = out + x
    return out, a


def octets_of(n):
    """Big-endian digits of n >= 0 in base 256, no leading zero (none for 0)."""
    return n.to_bytes((n.bit_length() + 7) // 8, 'big')


def list_octets(l): return bytes(l)


def minbe(n):
    """Minimal big-endian coding of n >= 0 (one zero octet for 0)."""
    return n.to_bytes(max(1, (n.bit_length() + 7) // 8), 'big')
