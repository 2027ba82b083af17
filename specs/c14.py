"""C14: AES key wrap is RFC 3394."""
from jwkest.aes_key_wrap import aes_wrap_key, aes_unwrap_key
from pv.api import *
from . import ref

KEK = Union(Bytes(16), Bytes(24), Bytes(32))
COV = ['jwkest.aes_key_wrap:aes_wrap_key', 'jwkest.aes_key_wrap:aes_unwrap_key', 'jwkest.aes_key_wrap:aes_unwrap_key_and_iv']
SIZES = (16, 24, 32, 40, 48, 64)
BOUND = 'key data of 16, 24, 32, 40, 48 or 64 octets (every content key size of RFC 7518), any octets, any KEK'


def gen_wrap(rng, lits):
    return dict(kek=KEK.rand(rng, lits), key=Bytes(8 * rng.choice([2, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 43, 64, 65])).rand(rng, lits))


@contract('C14', inputs=dict(kek=KEK, key=Union(*[Bytes(n) for n in SIZES])), gen=gen_wrap, covers=COV, cases=200,
          bounded_sym=BOUND)
def wrapping(kek, key):
    ensures('wrap-is-rfc3394', aes_wrap_key(kek, key) == ref.key_wrap(kek, key))


@contract('C14', inputs=dict(kek=KEK, key=Union(*[Bytes(n) for n in SIZES])), gen=gen_wrap, covers=COV, cases=200,
          bounded_sym=BOUND)
def unwrapping_inverts(kek, key):
    ensures('unwrap-inverts', aes_unwrap_key(kek, ref.key_wrap(kek, key)) == key)


def gen_unwrap(rng, lits):
    d = gen_wrap(rng, lits)
    k = rng.random()
    iv = b'\xa6' * 8
    if k < .3:
        i = rng.choice([0, 7, rng.randrange(8)])
        iv = iv[:i] + bytes([iv[i] ^ (1 << rng.randrange(8))]) + iv[i + 1:]
    elif k < .4: iv = rng.choice([b'\xa6' * 4 + b'\0' * 4, b'\0' * 4 + b'\xa6' * 4, b'\xa6\x59\x59\xa6' + b'\0\0\0\x10', b'\0' * 8])
    w = ref.key_wrap(d['kek'], d['key'], iv)
    if .5 < k < .65:
        i = rng.randrange(len(w))
        w = w[:i] + bytes([w[i] ^ (1 << rng.randrange(8))]) + w[i + 1:]
    elif .65 < k < .7: w = w[:-8] if len(w) > 24 else w
    return dict(kek=d['kek'], wrapped=w)


@contract('C14', inputs=dict(kek=KEK, wrapped=Union(*[Bytes(n + 8) for n in SIZES])), gen=gen_unwrap, covers=COV,
          cases=400, bounded_sym=BOUND)
def unwrapping(kek, wrapped):
    key, iv = ref.key_unwrap(kek, wrapped)
    kind, v = outcome(aes_unwrap_key, kek, wrapped)
    if iv == b'\xa6' * 8:
        ensures('accepts', kind == 'ok')
        if kind == 'ok': ensures('unwrap-value', v == key)
    else:
        ensures('integrity', kind == 'exc')


def gen_len(rng, lits):
    n = rng.choice([0, 1, 7, 8, 9, 15, 17, 20, 23, 25, 31, 33, 63, 65, rng.randrange(200)])
    return dict(kek=KEK.rand(rng, lits), data=Bytes(n).rand(rng, lits))


@contract('C14', inputs=dict(kek=KEK, data=Bytes()), gen=gen_len, covers=COV, cases=300)
def sizes(kek, data):
    if len(data) % 8 != 0 or len(data) < 16:
        kind, v = outcome(aes_wrap_key, kek, data)
        ensures('wrap-rejects-size', kind == 'exc')
    if len(data) % 8 != 0 or len(data) < 24:
        kind, v = outcome(aes_unwrap_key, kek, data)
        ensures('unwrap-rejects-size', kind == 'exc')
