"""C12: AES-CBC-HMAC is RFC 7518 section 5.2."""
from jwkest.extra import aes_cbc_hmac_encrypt, aes_cbc_hmac_decrypt
from pv.api import *
from . import ref

KEY = Union(Bytes(32), Bytes(48), Bytes(64))
COV = ['jwkest.extra:aes_cbc_hmac_encrypt', 'jwkest.extra:aes_cbc_hmac_decrypt', 'jwkest.extra:get_keys_seclen_dgst',
       'jwkest.extra:pkcs5pad', 'jwkest.extra:pkcs5trim']


@contract('C12', inputs=dict(key=KEY, iv=Bytes(16), aad=Bytes(), pt=Bytes()), covers=COV, cases=300)
def encryption(key, iv, aad, pt):
    ct, tag = aes_cbc_hmac_encrypt(key, iv, aad, pt)
    rct, rtag = ref.cbc_hmac_encrypt(key, iv, aad, pt)
    ensures('ciphertext', ct == rct)
    ensures('tag', tag == rtag)


@contract('C12', inputs=dict(key=KEY, iv=Bytes(16), aad=Bytes(), pt=Bytes()), covers=COV, cases=300)
def decryption_inverts(key, iv, aad, pt):
    ct, tag = ref.cbc_hmac_encrypt(key, iv, aad, pt)
    ensures('inverts', aes_cbc_hmac_decrypt(key, iv, aad, ct, tag) == pt)


def gen_tag(rng, lits):
    key, iv, aad, pt = KEY.rand(rng, lits), Bytes(16).rand(rng, lits), Bytes(hi=80).rand(rng, lits), Bytes(hi=100).rand(rng, lits)
    ct, tag = ref.cbc_hmac_encrypt(key, iv, aad, pt)
    k = rng.random()
    flip = lambda b: b if not b else (lambda i: b[:i] + bytes([b[i] ^ (1 << rng.randrange(8))]) + b[i + 1:])(rng.choice([0, len(b) - 1, rng.randrange(len(b))]))
    if k < .15: tag = flip(tag)
    elif k < .3: tag = tag[:rng.randrange(len(tag))]
    elif k < .35: tag = tag + b'\0'
    elif k < .45: tag = rng.choice([b'', b'\0', b'\0' * len(tag), ref.hmac_(ref.CBC_HMAC[len(key)], key[:len(key) // 2], aad + iv + ct + ref.i2osp(8 * len(aad), 8)), tag[::-1]])
    elif k < .6: ct = flip(ct)
    elif k < .7: iv = flip(iv)
    elif k < .8: aad = flip(aad) if aad else b'x'
    elif k < .9 and aad: aad, iv2 = aad[:-1], iv
    elif k < .95: ct = ct[:-16]
    return dict(key=key, iv=iv, aad=aad, ct=ct, tag=tag)


@contract('C12', inputs=dict(key=KEY, iv=Bytes(16), aad=Bytes(), ct=Bytes(), tag=Bytes()), gen=gen_tag, covers=COV, cases=500)
def tag_checked(key, iv, aad, ct, tag):
    kind, v = outcome(aes_cbc_hmac_decrypt, key, iv, aad, ct, tag)
    if kind == 'ok':
        ensures('tag-valid', tag == ref.cbc_hmac_tag(key, iv, aad, ct))
        ensures('plaintext', ref.aes_cbc_dec(key[len(key) // 2:], iv, ct).startswith(v))


def gen_sizes(rng, lits):
    return dict(key=Bytes().rand(rng, lits), iv=rng.choice([Bytes(16), Bytes()]).rand(rng, lits),
                aad=b'a', pt=b'p', tag=rng.choice([b'', b'\0' * 16, b'\0' * 32]))


@contract('C12', inputs=dict(key=Bytes(), iv=Bytes(), aad=Bytes(), pt=Bytes(), tag=Bytes()), gen=gen_sizes, covers=COV, cases=500)
def sizes_checked(key, iv, aad, pt, tag):
    requires((len(key) != 32 and len(key) != 48 and len(key) != 64) or len(iv) != 16)
    kind, v = outcome(aes_cbc_hmac_encrypt, key, iv, aad, pt)
    ensures('encrypt-rejects', kind == 'exc')
    kind, v = outcome(aes_cbc_hmac_decrypt, key, iv, aad, pt, tag)
    ensures('decrypt-rejects', kind == 'exc')
