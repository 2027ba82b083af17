"""C18: integer codings are exact."""
import jwkest
from jwkest import long_to_base64, base64_to_long, base64url_to_long, long2intarr, intarr2long, long2hexseq, intarr2bin
from pv.api import *
from pv.invariants import invariant
from . import ref

COV = ['jwkest:long_to_base64', 'jwkest:long2intarr', 'jwkest:base64_to_long', 'jwkest:intarr2long']


def octet_list(interp, name, old=None):
    from pv import octets
    return octets.shape(interp, name, old)


@invariant('jwkest:long2intarr', 0, long_int='nat', _bytes=octet_list)
def digits_done(long_int, long_int0, _bytes):
    """The digits taken off so far follow those of what is left."""
    return ref.octets_of(long_int) + ref.list_octets(_bytes) == ref.octets_of(long_int0)


@contract('C18', inputs=dict(n=Int(0)), covers=COV[:2], cases=300)
def text_coding(n):
    ensures('minimal', long_to_base64(n) == ref.b64u(ref.minbe(n)).decode('ascii'))


@contract('C18', inputs=dict(n=Int(0), m=Int(0, 200)), covers=COV[:2], cases=300)
def text_coding_padded(n, m):
    o = ref.minbe(n)
    if len(o) < m: o = b'\0' * (m - len(o)) + o
    ensures('padded', long_to_base64(n, m) == ref.b64u(o).decode('ascii'))


@contract('C18', inputs=dict(n=Int(0), m=Int(0, 200)), covers=COV, cases=300)
def text_inverse(n, m):
    t = long_to_base64(n, m)
    ensures('inverse', base64_to_long(t) == n)
    ensures('inverse-octets', base64_to_long(t.encode('ascii')) == n)
    ensures('inverse-strict', base64url_to_long(t.encode('ascii')) == n)


@contract('C18', inputs=dict(s=Bytes(lo=1)), covers=COV, cases=300)
def decoding(s):
    ensures('value', base64_to_long(ref.b64u(s)) == ref.os2ip(s))
    ensures('value-strict', base64url_to_long(ref.b64u(s)) == ref.os2ip(s))


def gen_text(rng, lits):
    n = lits.size(rng, 0, 60)
    t = ''.join(rng.choice(ref.ALPHABET) for _ in range(n)).encode()
    k = rng.random()
    if k > .3:
        bad = bytes([rng.choice([10, 13, 32, 0, 43, 47, 46, 61, 127, 128, 255, rng.randrange(256)])])
        p = rng.choice([0, n, max(0, n - 1), rng.randint(0, n)])
        t = t[:p] + bad * rng.choice([1, 1, 1, 2, 4]) + t[p:]
    return dict(t=t)


@contract('C18', inputs=dict(t=Bytes()), gen=gen_text, covers=['jwkest:base64url_to_long'], cases=500)
def strict(t):
    kind, v = outcome(base64url_to_long, t)
    if not ref.is_b64u_alphabet(t.decode('latin-1')) or len(t) % 4 == 1:
        ensures('refuses', kind == 'exc')
    elif kind == 'ok':
        ensures('strict-value', v == ref.os2ip(ref.b64u_dec(t)))


@contract('C18', inputs=dict(n=Int(0)), covers=['jwkest:long2intarr', 'jwkest:intarr2long'], cases=300)
def arrays(n):
    a = long2intarr(n)
    ensures('array', bytes(a) == ref.minbe(n))
    ensures('array-inverse', intarr2long(a) == n)


@contract('C18', inputs=dict(n=Int(0)), covers=['jwkest:long2hexseq'], cases=300)
def octets(n):
    ensures('octets', long2hexseq(n) == ref.minbe(n))


@contract('C18', inputs=dict(s=Bytes()), covers=['jwkest:intarr2bin', 'jwkest:intarr2long'], cases=200)
def array_octets(s):
    a = list(s)
    ensures('bin', intarr2bin(a) == s)
    if len(s) > 0: ensures('long', intarr2long(a) == ref.os2ip(s))
