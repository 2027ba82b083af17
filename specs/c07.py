"""C07: each JWS algorithm name means its RFC 7518 primitive."""
import jwkest
from jwkest.jws import JWS
from pv.api import *
from . import ref, sigref, ecref, keys as K

COMPARE = target("jwkest:constant_time_compare")
SIGNERS = target('jwkest.jws:SIGNER_ALGS')
COV = ['jwkest.jws:HMACSigner.sign', 'jwkest.jws:HMACSigner.verify', 'jwkest.jws:RSASigner.sign', 'jwkest.jws:RSASigner.verify',
       'jwkest.jws:PSSSigner.sign', 'jwkest.jws:PSSSigner.verify', 'jwkest.jws:DSASigner.sign', 'jwkest.jws:DSASigner.verify',
       'jwkest:constant_time_compare']


def flip(rng, b):
    if not b: return b'\0'
    i = rng.choice([0, len(b) - 1, rng.randrange(len(b))])
    return b[:i] + bytes([b[i] ^ (1 << rng.randrange(8))]) + b[i + 1:]


def key_for(rng, alg, priv=True):
    t = sigref.kty(alg)
    if t == 'EC': return dict(t='EC', crv=sigref.EC_OF[alg], d=rng.choice(K.EC_D), priv=priv)
    if t == 'RSA': return dict(t='RSA', i=rng.choice([0, 0, 1, 3]), priv=priv)
    return dict(t='oct', k=rng.choice(K.OCTS + [Bytes(lo=1, hi=200).rand(rng, Lits())]))


def rand_sig(rng, alg, d, msg, lits):
    """A valid signature, or one that is off in some way."""
    k = rng.random()
    if k < .3: return sigref.make(alg, d, msg, salt=None, nonce=rng.choice([1, 2, 99, rng.getrandbits(250)]))
    s = sigref.make(alg, d, msg)
    if k < .5: return flip(rng, s)
    if k < .58: return s[:rng.randrange(len(s))]
    if k < .64: return s + rng.choice([b'\0', s[:1], b'\n'])
    if k < .68: return b'\0' + s
    if k < .72: return rng.choice([b'', b'\0', b'\0' * len(s), b'\xff' * len(s), s[::-1]])
    if k < .8:
        o = [a for a in sigref.ALGS if sigref.kty(a) == d['t'] and a != alg and (d['t'] != 'EC' or sigref.EC_OF[a] == d['crv'])]
        if o:
            a2 = rng.choice(o)
            try: return sigref.make(a2, d, msg)
            except Exception: return s
        n = len(s) // 2
        return s[n:] + s[:n]
    if k < .88: return sigref.make(alg, d, flip(rng, msg))
    if d['t'] == 'EC':
        c = ecref.P[d['crv']]
        z, n = c['size'], c['n']
        r, t = int.from_bytes(s[:z], 'big'), int.from_bytes(s[z:], 'big')
        r, t = rng.choice([(r, n - t), (0, t), (r, 0), (n, t), (r, n), (r + n, t), (r, t + n), (0, 0), (1, 1), (n - 1, n - 1)])
        if max(r, t) >> (8 * z): return s
        return r.to_bytes(z, 'big') + t.to_bytes(z, 'big')
    if d['t'] == 'RSA':
        n = sigref.RSAS[d['i']][0]
        if alg[0] == 'P': return sigref.make(alg, d, msg, salt=rng.choice([b'', b's' * 20, b's' * (int(alg[2:]) // 8 - 1), b'q' * (int(alg[2:]) // 8)]))
        h = sigref.HASH[alg[2:]]
        kk = (n.bit_length() + 7) // 8
        t = rng.choice([sigref.digest(h, msg), bytes.fromhex(sigref.PREFIX[h]) + sigref.digest(h, msg),
                        bytes.fromhex(sigref.PREFIX[h].replace('0500', '')) + sigref.digest(h, msg)])
        em = rng.choice([b'\0\1' + b'\xff' * (kk - len(t) - 3) + b'\0' + t, b'\0\1\xff\xff\xff\xff\xff\xff\xff\xff\0' + t + b'x' * (kk - len(t) - 11)])
        return pow(int.from_bytes(em, 'big'), sigref.RSAS[d['i']][2], n).to_bytes(kk, 'big')
    h = sigref.HASH[alg[2:]]
    return rng.choice([s[:len(s) // 2], sigref.digest(h, d['k'] + msg), sigref.digest(h, msg), ref.hmac_(h, msg, d['k'])])


def gen(rng, lits):
    alg = rng.choice(sigref.ALGS)
    d = key_for(rng, alg)
    msg = Bytes(hi=120).rand(rng, lits)
    try: sig = rand_sig(rng, alg, d, msg, lits)
    except Exception: sig = b''
    return dict(alg=alg, d=d, msg=msg, sig=sig)


@contract('C07', inputs=dict(), gen=gen, covers=COV, cases=700, need=['jwkest.jws:SIGNER_ALGS'], sym=False, weight=5,
          why='concrete RSA and ECDSA keys; the general case is verification_any, signature_any')
def verification(alg, d, msg, sig):
    """verify() succeeds exactly for the signatures of the primitive."""
    key = K.build(dict(d, priv=False)).get_key(alg=alg, private=False)
    kind, v = outcome(SIGNERS[alg].verify, msg, sig, key)
    if sigref.valid(alg, d, msg, sig): ensures('accepts', kind == 'ok' and v is True)
    else: ensures('rejects', kind == 'exc')


def gen_sign(rng, lits):
    alg = rng.choice(sigref.ALGS)
    return dict(alg=alg, d=key_for(rng, alg), msg=Bytes(hi=200).rand(rng, lits))


@contract('C07', inputs=dict(), gen=gen_sign, covers=COV, cases=250, need=['jwkest.jws:SIGNER_ALGS'], sym=False, weight=4,
          why='concrete RSA and ECDSA keys; the general case is verification_any, signature_any')
def signature(alg, d, msg):
    key = K.build(d).get_key(alg=alg, private=True)
    s = SIGNERS[alg].sign(msg, key)
    ensures('primitive', sigref.valid(alg, d, msg, s))


def gen_token(rng, lits):
    alg = rng.choice(sigref.ALGS)
    d = key_for(rng, alg)
    hdr = '{"alg":"%s"}' % alg
    pl = ref.b64u(Bytes(hi=60).rand(rng, lits))
    inp = ref.b64u(hdr.encode()) + b'.' + pl
    try: sig = rand_sig(rng, alg, d, inp, lits)
    except Exception: sig = b''
    return dict(alg=alg, d=d, inp=inp, sig=sig)


@contract('C07', inputs=dict(), gen=gen_token, covers=COV, cases=400, sym=False, weight=5,
          why='concrete RSA and ECDSA keys; the general case is verification_any, signature_any')
def token_verification(alg, d, inp, sig):
    """The same seen through the public interface."""
    kind, v = outcome(JWS().verify_compact, inp + b'.' + ref.b64u(sig), [K.build(dict(d, priv=False))])
    if sigref.valid(alg, d, inp, sig): ensures('accepts', kind == 'ok')
    else: ensures('rejects', kind == 'exc')


def gen_tsign(rng, lits):
    alg = rng.choice(sigref.ALGS)
    return dict(alg=alg, d=key_for(rng, alg), msg=Str(hi=60).rand(rng, lits))


@contract('C07', inputs=dict(), gen=gen_tsign, covers=COV, cases=150, sym=False, weight=4,
          why='concrete RSA and ECDSA keys; the general case is verification_any, signature_any')
def token_signature(alg, d, msg):
    t = JWS(msg, alg=alg).sign_compact([K.build(d)]).encode()
    inp, sig = t.rsplit(b'.', 1)
    ensures('primitive', sigref.valid(alg, d, inp, ref.b64u_dec(sig)))


@contract('C07', inputs=dict(a=Bytes(), b=Bytes()), covers=['jwkest:constant_time_compare'], cases=300,
          need=['jwkest:constant_time_compare'],
          gen=lambda rng, lits: (lambda a: dict(a=a, b=rng.choice([a, a[:-1], flip(rng, a), a + b'\0', a[::-1], b'', a[:1]])))(Bytes(hi=70).rand(rng, lits)))
def comparison(a, b):
    """MACs are compared over their full length."""
    f = COMPARE
    r = f(a, b)
    ensures('equal', bool(r) == (a == b))


HS = OneOf('HS256', 'HS384', 'HS512')


@contract('C07', inputs=dict(alg=HS, key=Bytes(lo=1), msg=Bytes()), covers=COV, cases=200, need=['jwkest.jws:SIGNER_ALGS'])
def hmac_signing(alg, key, msg):
    ensures('hmac', SIGNERS[alg].sign(msg, key) == ref.hmac_('sha' + alg[2:], key, msg))


@contract('C07', inputs=dict(alg=HS, key=Bytes(lo=1), msg=Bytes(), sig=Bytes()), covers=COV, cases=300, need=['jwkest.jws:SIGNER_ALGS'],
          gen=lambda rng, lits: (lambda a: dict(alg=a[0], key=a[1]['k'], msg=a[2], sig=rand_sig(rng, a[0], a[1], a[2], lits)))(
              (lambda alg: (alg, key_for(rng, alg), Bytes(hi=60).rand(rng, lits)))(rng.choice(['HS256', 'HS384', 'HS512']))))
def hmac_verification(alg, key, msg, sig):
    kind, v = outcome(SIGNERS[alg].verify, msg, sig, key)
    if sig == ref.hmac_('sha' + alg[2:], key, msg): ensures('accepts', kind == 'ok' and v is True)
    else: ensures('rejects', kind == 'exc')


def callees():
    from pv import callees
    return callees.ecdsa()


def gen_any(rng, lits):
    d = gen(rng, lits)
    d['d'] = dict(d['d'], priv=True) if d['d']['t'] != 'oct' else d['d']
    return d


ANY_ALG = OneOf(*sigref.ALGS)


@contract('C07', inputs=dict(alg=ANY_ALG, d=KeyOf(meta=False), msg=Bytes(), sig=Bytes()), gen=gen_any, covers=COV, cases=150,
          need=['jwkest.jws:SIGNER_ALGS'], uses=callees, weight=3)
def verification_any(alg, d, msg, sig):
    """Every algorithm name, every key of its type: exactly the signatures of the primitive pass."""
    requires(d['t'] == sigref.kty(alg))
    requires(d['t'] != 'EC' or d['crv'] == sigref.EC_OF[alg])
    key = K.build(dict(d, priv=False)).get_key(alg=alg, private=False)
    kind, v = outcome(SIGNERS[alg].verify, msg, sig, key)
    if sigref.valid(alg, d, msg, sig): ensures('accepts', kind == 'ok' and v is True)
    else: ensures('rejects', kind == 'exc')


@contract('C07', inputs=dict(alg=ANY_ALG, d=KeyOf(meta=False, private=True), msg=Bytes()), gen=gen_sign, covers=COV, cases=60,
          need=['jwkest.jws:SIGNER_ALGS'], uses=callees, weight=3)
def signature_any(alg, d, msg):
    requires(d['t'] == sigref.kty(alg))
    requires(d['t'] != 'EC' or d['crv'] == sigref.EC_OF[alg])
    key = K.build(d).get_key(alg=alg, private=True)
    ensures('primitive', sigref.valid(alg, d, msg, SIGNERS[alg].sign(msg, key)))
