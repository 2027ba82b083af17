"""C08: JWE decryption is authenticated."""
import json
from jwkest.jwe import JWE
from pv.api import *
from . import ref, ecref, jweref, jwsref, keys as K
from .c07 import flip

COV = ['jwkest.jwe:JWE.decrypt', 'jwkest.jwe:JWE_RSA.decrypt', 'jwkest.jwe:JWE_SYM.decrypt', 'jwkest.jwe:JWE_EC.dec_setup', 'jwkest.jwe:JWE_EC.decrypt',
       'jwkest.jwe:JWe._decrypt', 'jwkest.jwe:RSAEncrypter.decrypt', 'jwkest.extra:aes_cbc_hmac_decrypt', 'jwkest.aes_key_wrap:aes_unwrap_key',
       'jwkest.aes_gcm:AES_GCM.decrypt']
RSAI = [0, 0, 1, 3]


def key_for(rng, alg):
    t = jweref.kty(alg)
    if t == 'RSA': return dict(t='RSA', i=rng.choice(RSAI), priv=True)
    if t == 'EC': return dict(t='EC', crv=rng.choice(['P-256', 'P-256', 'P-384', 'P-521']), d=rng.choice(K.EC_D), priv=True)
    return dict(t='oct', k=rng.choice(K.OCTS + [Bytes(lo=1, hi=80).rand(rng, Lits())]))


def rand_enc(rng):
    return rng.choice(['A128CBC-HS256'] * 3 + ['A192CBC-HS384', 'A256CBC-HS512'] * 2 + ['A128GCM', 'A192GCM', 'A256GCM'])


def others(rng, d, alg):
    """Keys offered besides the right one."""
    out = []
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        if rng.random() < .7:
            x = key_for(rng, alg)
            if d['t'] == 'EC' and rng.random() < .6: x['crv'] = d['crv']
            out.append(x)
        else: out.append(dict(K.rand_key(rng, p=0), priv=True))
    return out


def unb(p): return ref.b64u_dec(p)


def mutate(rng, ps, h):
    """One change to a token of five parts."""
    ps = list(ps)
    k = rng.random()
    i = rng.choice([1, 2, 3, 4, 4])
    o = unb(ps[i])
    if k < .3: ps[i] = ref.b64u(flip(rng, o))
    elif k < .4: ps[i] = ref.b64u(rng.choice([o[:-1], o[1:], o + b'\0', b'\0' + o, o[:len(o) // 2], b'', b'\0' * len(o), o[:8], o + o, o.lstrip(b'\0')]))
    elif k < .46: ps[4] = ref.b64u(unb(ps[4])[:rng.choice([1, 4, 8, 12, 15])])
    elif k < .5:
        j = rng.randrange(1, 5)
        ps[i], ps[j] = ps[j], ps[i]
    elif k < .78:
        h2 = dict(h)
        c = rng.random()
        if c < .3: h2['enc'] = rng.choice(jweref.ENCS + ['A128CBC', 'none', ''])
        elif c < .5: h2['alg'] = rng.choice(jweref.ALGS + ['dir', 'A128GCMKW', 'none', ''])
        elif c < .7: h2[rng.choice(['kid', 'typ', 'x', 'cty'])] = rng.choice(['a', 'JWT'])
        elif c < .8: h2['zip'] = rng.choice(['DEF'])
        elif c < .9 and 'apu' in h2: h2['apu'] = rng.choice(['', 'AA', 'YQ'])
        elif 'epk' in h2:
            e = dict(h2['epk'])
            e[rng.choice(['x', 'y'])] = ref.b64u(flip(rng, unb(e['x'].encode()))).decode()
            h2['epk'] = e
        ps[0] = ref.b64u(json.dumps(h2).encode())
    elif k < .85: ps[0] = ref.b64u(rng.choice([json.dumps(h, indent=1), json.dumps(h) + ' ', ' ' + json.dumps(h)]).encode())
    elif k < .92:
        t = b'.'.join(ps)
        return rng.choice([t + b'.', t + b'.' + ref.b64u(b'x'), b'.' + t, b'.'.join(ps[:4]), b'.'.join(ps[:4]) + b'.', b'.'.join(ps[:1] + ps[2:])])
    else:
        t = b'.'.join(ps)
        return flip(rng, t)
    return b'.'.join(ps)


def base(rng, lits, algs=jweref.ALGS):
    alg, enc = rng.choice(algs), rand_enc(rng)
    d = key_for(rng, alg)
    ds = others(rng, d, alg)
    ds.insert(rng.randint(0, len(ds)), d)
    extra = {}
    if rng.random() < .3: extra['kid'] = rng.choice(['a', 'b'])
    if rng.random() < .2: extra['typ'] = 'JWE'
    if rng.random() < .15: extra['zip'] = 'DEF'
    msg = rng.choice([Bytes(hi=200).rand(rng, lits), Str(hi=40).rand(rng, lits).encode('utf-8')])
    return alg, enc, d, ds, extra, msg


def gen(rng, lits):
    alg, enc, d, ds, extra, msg = base(rng, lits)
    k = rng.random()
    cek = None
    if k < .08 and alg != 'ECDH-ES':       # a content key of another size
        n = rng.choice([16, 24, 32, 48, 64])
        cek = bytes(rng.getrandbits(8) for _ in range(n))
        if enc.endswith('GCM') and n > 32: cek = cek[:32]
        if 'CBC' in enc and n < 32: cek = None
    iv = None
    if k > .95 and enc.endswith('GCM'): iv = bytes(rng.getrandbits(8) for _ in range(rng.choice([8, 11, 13, 16])))
    elif k > .9 and enc.endswith('GCM'): iv = b'\0' * rng.choice([1, 4, 11, 12]) + bytes(rng.getrandbits(8) for _ in range(12))
    if iv is not None: iv = iv[:12]
    ps = jweref.make(rng, alg, enc, d, msg, extra, cek=cek, iv=iv)
    h = json.loads(unb(ps[0]))
    t = b'.'.join(ps)
    if rng.random() < .75: t = mutate(rng, ps, h)
    if rng.random() < .2: ds.remove(d)
    if rng.random() < .1: ds = []
    if rng.random() < .5:
        try: t = t.decode('ascii')
        except UnicodeDecodeError: pass
    exp = rng.choice([None, None, None, None, alg, 'A128KW'])
    return dict(token=t, ds=ds, exp=exp)


@contract('C08', gen=gen, covers=COV, cases=400, weight=6, sym=False, why='concrete tokens and keys; any token: content, agreed, content_encryption')
def authenticated(token, ds, exp):
    """What decryption returns was sealed for one of the keys offered."""
    keys = K.build_all(ds)
    kind, m = outcome(JWE().decrypt, token, keys, exp)
    ok = [v for _, v in jweref.plaintexts(token, ds)]
    if exp is not None:
        ps = jwsref.split(token)
        h = jwsref.header(jwsref.decode_part(ps[0]) or b'') if ps else None
        if not isinstance(h, dict) or h.get('alg') != exp: ok = []
    if not ok: ensures('rejects', kind == 'exc')
    elif kind == 'ok': ensures('plaintext', any(m == v for v in ok))


def gen_tamper(rng, lits):
    alg, enc, d, ds, extra, msg = base(rng, lits)
    ps = jweref.make(rng, alg, enc, d, msg, extra)
    return dict(token=b'.'.join(ps), ds=[d])


@contract('C08', gen=gen_tamper, covers=COV, cases=80, weight=5, sym=False, why='concrete tokens and keys; any token: content, agreed, content_encryption')
def every_part_counts(token, ds):
    """Flipping any one bit of any part has the token rejected (or is a change of padding bits of a part's text)."""
    import random
    keys = K.build_all(ds)
    rng = random.Random(token)
    ps = token.split(b'.')
    kind, m0 = outcome(JWE().decrypt, token, keys)
    for i in range(5):
        for _ in range(2):
            o = unb(ps[i])
            if not o: continue
            qs = list(ps)
            qs[i] = ref.b64u(flip(rng, o))
            u = b'.'.join(qs)
            kind, m = outcome(JWE().decrypt, u, keys)
            ok = [v for _, v in jweref.plaintexts(u, ds)]
            if not ok: ensures('rejects-%d' % i, kind == 'exc')
            elif kind == 'ok': ensures('plaintext', any(m == v for v in ok))
    for n in (0, 1, 8, 15):
        u = b'.'.join(ps[:4] + [ref.b64u(unb(ps[4])[:n])])
        kind, m = outcome(JWE().decrypt, u, keys)
        ensures('short-tag', kind == 'exc')


def gen_zip(rng, lits):
    alg, enc, d, ds, extra, msg = base(rng, lits)
    if rng.random() < .2:
        from .c09 import long_msg
        enc, msg = rng.choice(['A128CBC-HS256', 'A256CBC-HS512']), long_msg(rng, lits)
    ps = jweref.make(rng, alg, enc, d, msg, dict(extra, zip='DEF'))
    return dict(token=b'.'.join(ps), d=d, msg=msg)


@contract('C08', gen=gen_zip, covers=COV, cases=40, weight=2, sym=False, why='concrete tokens and keys; any token: content, agreed, content_encryption')
def decompressed(token, d, msg):
    kind, m = outcome(JWE().decrypt, token, [K.build(d)])
    ensures('decompressed', kind == 'ok' and m == msg)


def gen_no_key(rng, lits):
    alg, enc, d, ds, extra, msg = base(rng, lits)
    ps = jweref.make(rng, alg, enc, d, msg, extra)
    d2 = dict(d)
    if d['t'] == 'RSA': d2['i'] = {0: 1, 1: 3, 3: 0}[d['i']]
    elif d['t'] == 'oct': d2['k'] = rng.choice([d['k'] + b'x', d['k'][:-1] or b'y', b'\0' + d['k']])
    else: d2['d'] = rng.choice([x for x in K.EC_D if x != d['d']])
    return dict(token=b'.'.join(ps), d=d, d2=d2)


@contract('C08', gen=gen_no_key, covers=COV, cases=60, weight=2, sym=False, why='concrete tokens and keys; any token: content, agreed, content_encryption')
def another_key(token, d, d2):
    """A token sealed for one key opens with no other, nor with none."""
    k1, k2 = K.build(d), K.build(d2)
    kind, m = outcome(JWE().decrypt, token, [k2])
    ensures('other', kind == 'exc')
    kind, m = outcome(JWE().decrypt, token, [])
    ensures('none', kind == 'exc')
    kind, m = outcome(JWE().decrypt, token, [k2, k1])
    ensures('both', kind == 'ok')


def gen_history(rng, lits):
    alg, enc, d, ds, extra, msg = base(rng, lits)
    ts = []
    ps0 = jweref.make(rng, alg, enc, d, msg, extra)
    ts.append(b'.'.join(ps0))
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.random()
        ps = ps0
        if k < .35 and ps0[1]:
            o = unb(ps0[1])
            ps = ps0[:1] + [ref.b64u(rng.choice([bytes(rng.getrandbits(8) for _ in o), flip(rng, o), o[::-1]]))] + ps0[2:]
            ts.append(b'.'.join(ps))
        elif k < .7: ts.append(mutate(rng, ps0, json.loads(unb(ps0[0]))))
        elif k < .8: ts.append(rng.choice(ts))
        elif k < .9:      # the same key, another content key
            ts.append(b'.'.join(jweref.make(rng, alg, enc, d, b'other', extra)))
        else:             # sealed for a key not offered
            ts.append(b'.'.join(jweref.make(rng, alg, enc, key_for(rng, alg), b'foreign', extra)))
    return dict(tokens=ts, ds=ds, without=[rng.random() < .15 for _ in ts], d=d)


@contract('C08', gen=gen_history, covers=COV, cases=120, weight=4, sym=False, why='concrete tokens and keys; any token: content, agreed, content_encryption')
def history(tokens, ds, without, d):
    """One object used again: what it opened before opens nothing else."""
    keys = K.build_all(ds)
    v = JWE()
    for t, w in zip(tokens, without):
        ix = [i for i in range(len(ds)) if not (w and ds[i] == d)]
        es = [ds[i] for i in ix]
        kind, m = outcome(v.decrypt, t, [keys[i] for i in ix])
        ok = [x for _, x in jweref.plaintexts(t, es)]
        if not ok: ensures('rejects', kind == 'exc')
        elif kind == 'ok': ensures('plaintext', any(m == x for x in ok))


def callees():
    from pv import callees
    return callees.jwe()


def sealing():
    from pv import callees
    return callees.sealed()


OPEN = target('jwkest.jwe:JWe._decrypt')


def gen_content(rng, lits):
    enc = rng.choice(jweref.ENCS)
    rb = lambda n: bytes(rng.getrandbits(8) for _ in range(n))
    cek, iv, aad, msg = rb(jweref.CEK[enc]), rb(jweref.ivlen(enc)), Bytes(hi=40).rand(rng, lits), Bytes(hi=70).rand(rng, lits)
    ct, tag = jweref.seal(enc, cek, iv, aad, msg)
    d = dict(e=enc, cek=cek, iv=iv, aad=aad, ct=ct, tag=tag)
    if rng.random() < .6:
        k = rng.choice(list(d))
        if k == 'e': d['e'] = rng.choice(jweref.ENCS + [None, 5, 1.5, [], {}, 'none', '', ['A128GCM']])
        else: d[k] = rng.choice([flip(rng, d[k]), d[k][:-1], d[k] + b'\0', b'', d[k][:len(d[k]) // 2]])
    return d


@contract('C08', inputs=dict(e=Json(), cek=Bytes(), iv=Bytes(), aad=Bytes(), ct=Bytes(), tag=Bytes()), gen=gen_content, covers=['jwkest.jwe:JWe._decrypt'], need=['jwkest.jwe:JWe._decrypt'],
          cases=100, weight=2, uses=sealing)
def content_encryption(e, cek, iv, aad, ct, tag):
    """Any content key, any octets: the content comes back only if its tag is right."""
    kind, m = outcome(OPEN, e, cek, ct, aad, iv, tag)
    r = jweref.opening(e, cek, iv, aad, ct, tag)
    if r is None: ensures('rejects', kind == 'exc')
    elif r is not False and kind == 'ok': ensures('content', m == r)


def named(h, alg):
    """Does the header part h name the algorithm (None: none of the known ones)?"""
    o = jwsref.decode_part(h)
    if o is None: return alg is None
    hd = jwsref.header(o)
    if not isinstance(hd, dict): return alg is None
    if alg is None: return hd.get('alg') not in jweref.ALGS
    return hd.get('alg') == alg


def gen_parts(rng, lits):
    while True:
        d = gen(rng, lits)
        ps = jwsref.split(d['token'])
        if len(ps) != 5: continue
        a = next((a for a in jweref.ALGS if named(ps[0], a)), None)
        if a not in jweref.EC_ALGS: break
    return dict(alg=a, h=ps[0], ek=ps[1], iv=ps[2], ct=ps[3], tag=ps[4], ds=d['ds'])


PARTS = dict(h=Bytes(), ek=Bytes(), iv=Bytes(), ct=Bytes(), tag=Bytes())


NOT_EC = [a for a in jweref.ALGS if a not in jweref.EC_ALGS]


@contract('C08', inputs=dict(PARTS, alg=OneOf(*(NOT_EC + [None])), ds=Keys()), gen=gen_parts, covers=COV, cases=100, weight=20, uses=callees, shard='alg', secs=300)
def content(alg, h, ek, iv, ct, tag, ds):
    """Any five parts, any list of keys: what is returned was sealed for a key of the list."""
    requires(h.count(b'.') == 0 and ek.count(b'.') == 0 and iv.count(b'.') == 0 and ct.count(b'.') == 0 and tag.count(b'.') == 0)
    requires(named(h, alg))
    requires(len(ds) > 0)
    keys = K.build_all(ds)
    token = h + b'.' + ek + b'.' + iv + b'.' + ct + b'.' + tag
    kind, m = outcome(JWE().decrypt, token, keys)
    if kind == 'ok': ensures('sealed', jweref.opened(token, ds, m))


def gen_agreed(rng, lits):
    while True:
        d = gen(rng, lits)
        ps = jwsref.split(d['token'])
        if len(ps) != 5 or not d['ds']: continue
        a = next((a for a in jweref.EC_ALGS if named(ps[0], a)), None)
        k = next((k for k in d['ds'] if k['t'] == 'EC'), None)
        if a and k: return dict(ac=(a, k['crv']), h=ps[0], ek=ps[1], iv=ps[2], ct=ps[3], tag=ps[4], d=k['d'])


AGREED = [(a, c) for a in jweref.EC_ALGS for c in ecref.CURVES]


@contract('C08', inputs=dict(PARTS, ac=OneOf(*AGREED), d=Int(1, 1 << 521)), gen=gen_agreed, covers=COV, cases=60, weight=21, uses=callees, shard='ac', secs=200)
def agreed(ac, h, ek, iv, ct, tag, d):
    """Any five parts and one private key of a curve: what is returned was sealed for it."""
    alg, crv = ac
    requires(h.count(b'.') == 0 and ek.count(b'.') == 0 and iv.count(b'.') == 0 and ct.count(b'.') == 0 and tag.count(b'.') == 0)
    requires(named(h, alg))
    requires(d < ecref.P[crv]['n'])
    ds = [dict(t='EC', crv=crv, d=d, priv=True)]
    token = h + b'.' + ek + b'.' + iv + b'.' + ct + b'.' + tag
    kind, m = outcome(JWE().decrypt, token, K.build_all(ds))
    if kind == 'ok': ensures('sealed', jweref.opened(token, ds, m))
