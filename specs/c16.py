"""C16: base64url coding is exact and strict."""
import jwkest
from jwkest import b64e, b64d, b64e_enc_dec, b64d_enc_dec, add_padding
from pv.api import *
from . import ref

ALPHA = ref.ALPHABET


@contract('C16', inputs=dict(s=Bytes()), covers=['jwkest:b64e'])
def encoding(s):
    ensures('b64e-is-rfc7515', b64e(s) == ref.b64u(s))


@contract('C16', inputs=dict(s=Bytes()), covers=['jwkest:b64e', 'jwkest:b64d', 'jwkest:add_padding'])
def decoding_inverts(s):
    ensures('b64d-inverts', b64d(b64e(s)) == s)


def gen_text(rng, lits):
    n = lits.size(rng, 0, 90)
    k = rng.random()
    t = ''.join(rng.choice(ALPHA) for _ in range(n)).encode()
    if k < .3: return dict(t=t)
    if k < .5: return dict(t=t + b'=' * rng.randint(1, 3))
    bad = bytes([rng.choice([10, 13, 32, 0, 43, 47, 46, 61, 127, 128, 255, rng.randrange(256)])])
    p = rng.choice([0, n, max(0, n - 1), rng.randint(0, n)])
    t = t[:p] + bad * rng.choice([1, 1, 1, 2, 4]) + t[p:]
    if k > .9: t = t + b'=' * rng.randint(1, 2)
    return dict(t=t)


@contract('C16', inputs=dict(t=Bytes()), gen=gen_text, cases=600, covers=['jwkest:b64d', 'jwkest:add_padding'])
def decoding_strict(t):
    body = t.rstrip(b'=')
    good = ref.is_b64u_alphabet(body.decode('latin-1'))
    kind, v = outcome(b64d, t)
    if not good or len(body) % 4 == 1:
        ensures('rejects', kind == 'exc')
    elif t == body:
        ensures('accepts', kind == 'ok')
        if kind == 'ok': ensures('value', v == ref.b64u_dec(body))
    elif kind == 'ok':
        # padding at the end is tolerated, if it is not too short
        ensures('value-padded', v == ref.b64u_dec(body))


@contract('C16', inputs=dict(s=Str()), covers=['jwkest:b64e_enc_dec', 'jwkest:b64d_enc_dec'])
def text_round_trip(s):
    e = b64e_enc_dec(s)
    ensures('text-encoding', e == ref.b64u(s.encode('utf-8')).decode('ascii'))
    ensures('text-round-trip', b64d_enc_dec(e) == s)


def gen_coded(rng, lits):
    """Texts that decode to text, or nearly."""
    k = rng.random()
    if k < .3: return gen_text(rng, lits)['t'].decode('latin-1')
    if k < .4: return Str().rand(rng, lits)
    t = ref.b64u(rng.choice([Str(hi=40).rand(rng, lits), '>>>???~~~' * rng.randint(1, 3), '\u03bf\u07bf~']).encode('utf-8')).decode()
    if k < .6: return t.replace('-', '+').replace('_', '/')
    if k < .8 and t:
        i = rng.randrange(len(t) + 1)
        return t[:i] + rng.choice(['\n', ' ', '+', '/', '.', '\0', '=', '\xff', '\u0141']) * rng.choice([1, 1, 4]) + t[i:]
    return t


@contract('C16', inputs=dict(t=Str()), gen=lambda rng, lits: dict(t=gen_coded(rng, lits)), cases=600, covers=['jwkest:b64d_enc_dec'])
def text_strict(t):
    body = t.rstrip('=')
    kind, v = outcome(b64d_enc_dec, t)
    if not ref.is_b64u_alphabet(body) or len(body) % 4 == 1:
        ensures('text-rejects', kind == 'exc')
    elif kind == 'ok':
        ensures('text-value', v.encode('utf-8') == ref.b64u_dec(body.encode('ascii')))
