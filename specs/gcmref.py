"""GCM as NIST SP 800-38D states it, block by block (AES from ref.py)."""
from . import ref

R = 0xe1 << 120


def gmul(x, y):
    """Product in GF(2^128), blocks as integers, first bit of the block most significant (section 6.3)."""
    z = 0
    v = y
    for i in range(128):
        if (x >> (127 - i)) & 1: z ^= v
        v = (v >> 1) ^ R if v & 1 else v >> 1
    return z


def ghash(h, data):
    """Section 6.4; data: whole blocks."""
    y = 0
    for i in range(0, len(data), 16): y = gmul(y ^ int.from_bytes(data[i:i + 16], 'big'), h)
    return y


def pad(o): return o + b'\0' * (-len(o) % 16)


def xor(a, b): return bytes(x ^ y for x, y in zip(a, b))


def crypt(key, iv, text):
    """CTR from block 2 on (section 6.5, 12 octet IV)."""
    out = b''
    for i in range(0, len(text), 16):
        out += xor(text[i:i + 16], ref.aes_ecb(key, iv + (i // 16 + 2).to_bytes(4, 'big')))
    return out


def tag(key, iv, aad, ct):
    """Section 7.1, 128-bit tag as an integer."""
    h = int.from_bytes(ref.aes_ecb(key, b'\0' * 16), 'big')
    s = ghash(h, pad(aad) + pad(ct) + (8 * len(aad)).to_bytes(8, 'big') + (8 * len(ct)).to_bytes(8, 'big'))
    return s ^ int.from_bytes(ref.aes_ecb(key, iv + b'\0\0\0\1'), 'big')
