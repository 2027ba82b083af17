"""C01: verification of compact JWS is sound."""
import json
from jwkest.jws import JWS
from pv.api import *
from . import ref, sigref, jwsref, ecref, keys as K
from .c07 import key_for, rand_sig, flip

COV = ['jwkest.jws:JWS.verify_compact', 'jwkest.jws:JWS.verify_compact_verbose', 'jwkest.jwt:JWT.unpack', 'jwkest.jws:JWSig.sign_input',
       'jwkest.jws:JWSig.signature', 'jwkest.jwt:JWT.payload', 'jwkest.jws:JWx.pick_keys', 'jwkest.jws:JWx._get_keys']


def rand_payload(rng, lits):
    k = rng.random()
    if k < .3: return json.dumps(Json(kind=rng.choice(['dict', 'list', None]), depth=2).rand(rng, lits)).encode()
    if k < .5: return Str(hi=40).rand(rng, lits).encode()
    return Bytes(hi=40).rand(rng, lits)


def spelled(rng, hdr):
    """Some spelling of a header as JSON text."""
    k = rng.random()
    if k < .6: return json.dumps(hdr, separators=(',', ':'))
    if k < .8: return json.dumps(hdr, indent=rng.choice([None, 1]))
    s = json.dumps(hdr)
    return rng.choice([' ', '\n', '']) + s[:1] + ' ' + s[1:]


def part(rng, octets):
    p = ref.b64u(octets)
    k = rng.random()
    if k < .9: return p
    if k < .96: return p + b'=' * (-len(p) % 4)
    return p + rng.choice([b'=', b'====', b'==='])


def pem_like(d):
    """Texts an attacker could use as an HMAC secret: encodings of the public key."""
    if d['t'] == 'RSA':
        o = K.rsa_obj(d['i'], False)
        return [o.export_key('DER'), o.export_key('PEM'), o.export_key('PEM') + b'\n', str(o.n).encode(), b'']
    x, y = ecref.public(d['crv'], d['d'])
    z = ecref.P[d['crv']]['size']
    return [x.to_bytes(z, 'big'), b'\4' + x.to_bytes(z, 'big') + y.to_bytes(z, 'big'), str((x, y)).encode()]


def gen(rng, lits):
    alg = rng.choice(sigref.ALGS)
    d = key_for(rng, alg)
    d.update(K.rand_meta(rng, .3, alg, 'sig'))
    hdr = {'alg': alg}
    if d.get('kid') and rng.random() < .7: hdr['kid'] = d['kid']
    if rng.random() < .1: hdr['kid'] = rng.choice(['zzz', 7, None, '', ['a']])
    if rng.random() < .3: hdr['typ'] = rng.choice(['JWT', 'JWS', 'x'])
    if rng.random() < .2: hdr['cty'] = rng.choice(['JWT', 'jwt', 'text/plain', 'json', ''])
    ds = [K.rand_key(rng, p=.2, crv=sigref.EC_OF.get(alg), alg=alg, use='sig') for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]
    ds.insert(rng.randint(0, len(ds)), d)
    cfg = {}
    k = rng.random()
    if k < .3: cfg['alg'] = alg
    elif k < .4: cfg['alg'] = rng.choice(sigref.ALGS)
    if k < .1: cfg['kid'] = rng.choice(['a', 'b'])
    pl = rand_payload(rng, lits)
    h = spelled(rng, hdr)
    inp = part(rng, h.encode()) + b'.' + part(rng, pl)
    try: sig = sigref.make(alg, d, inp)
    except Exception: sig = b'x'
    k = rng.random()
    if k < .25: pass
    elif k < .35:
        try: sig = rand_sig(rng, alg, d, inp, lits)
        except Exception: pass
    elif k < .42:      # another payload or header under the old signature
        inp = ref.b64u(h.encode()) + b'.' + ref.b64u(rand_payload(rng, lits))
    elif k < .5:       # another header text under the old signature
        h2 = dict(hdr)
        h2[rng.choice(['alg', 'kid', 'typ', 'x'])] = rng.choice(sigref.ALGS + ['a'])
        inp = ref.b64u(json.dumps(h2).encode()) + b'.' + ref.b64u(pl)
    elif k < .58:      # HMAC keyed by an encoding of the public key
        if d['t'] != 'oct':
            ha = rng.choice(['HS256', 'HS384', 'HS512'])
            inp = ref.b64u(json.dumps(dict(hdr, alg=ha)).encode()) + b'.' + ref.b64u(pl)
            sig = sigref.make(ha, dict(t='oct', k=rng.choice(pem_like(d))), inp)
    elif k < .66:      # signed by a key that is not offered (or offered in the header only)
        d2 = key_for(rng, alg)
        if d2 == {x: d[x] for x in d2}: d2 = key_for(rng, alg)
        jwk = K.build(dict(d2, priv=False)).serialize()
        if rng.random() < .6: hdr['jwk'] = jwk
        inp = ref.b64u(json.dumps(hdr).encode()) + b'.' + ref.b64u(pl)
        try: sig = sigref.make(alg, d2, inp)
        except Exception: pass
        ds = [x for x in ds if not sigref.valid(alg, x, inp, sig)]
    elif k < .72:      # same octets, other algorithm name
        hdr['alg'] = rng.choice([alg.lower(), alg + ' ', alg[:2] + '1', 'none', '', None, 5, [alg], alg[:2] + rng.choice(['256', '384', '512']), 'HS256'])
        inp = ref.b64u(json.dumps(hdr).encode()) + b'.' + ref.b64u(pl)
    elif k < .76: ds.remove(d)
    elif k < .82: ds = []
    tok = inp + b'.' + part(rng, sig)
    k = rng.random()
    if k < .12:
        tok = rng.choice([tok + b'.', b'.' + tok, tok + b'.' + ref.b64u(b'x'), tok.rsplit(b'.', 1)[0], tok.rsplit(b'.', 1)[0] + b'.', inp + b'..' + ref.b64u(sig),
                          tok.replace(b'.', b'', 1), tok + b'\n', b' ' + tok, tok[:-1], tok + b'A', tok.replace(b'.', b'=.', 1), tok.replace(b'.', b'\n.', 1)])
    elif k < .2: tok = flip(rng, tok)
    if rng.random() < .5:
        try: tok = tok.decode('ascii')
        except UnicodeDecodeError: pass
    conf = rng.choice([None, None, dict(d, priv=False), K.rand_key(rng, t=d['t'], p=.1)])
    if conf is not None: cfg.setdefault('alg', alg)
    return dict(token=tok, ds=ds, cfg=cfg, conf=conf,
                none_keys=rng.random() < .5)


@contract('C01', gen=gen, covers=COV, cases=900, weight=6, sym=False, why='key material of all three kinds: see soundness_any_keys')
def soundness(token, ds, cfg, conf, none_keys):
    """What verify returns was signed by a key offered."""
    keys = K.build_all(ds)
    if not keys and none_keys: keys = None
    v = JWS(**cfg) if conf is None else JWS(jwk=K.build(conf), **cfg)
    kind, r = outcome(v.verify_compact_verbose, token, keys)
    eff = ds if ds else ([conf] if conf is not None else [])
    want = jwsref.accepted(token, eff)
    if want is None: ensures('rejects', kind == 'exc')
    elif kind == 'ok':
        ensures('payload', jwsref.same(r['msg'], want[1]))
        if ds: ensures('key', any(r['key'] is keys[i] for i in want[2]))
        ensures('plain-call', jwsref.same(JWS(**cfg).verify_compact(token, keys), want[1]) if ds else True)


def gen_ok(rng, lits):
    while True:
        d = gen(rng, lits)
        if jwsref.accepted(d['token'], d['ds']): break
    return dict(token=d['token'], ds=d['ds'])


@contract('C01', gen=gen_ok, covers=COV, cases=200, weight=4, sym=False, why='key material of all three kinds: see soundness_any_keys')
def tampering(token, ds):
    """Changing any single character of an accepted token has it rejected or verified anew."""
    keys = K.build_all(ds)
    t = token.encode() if isinstance(token, str) else token
    rng = random_of(t)
    for _ in range(4):
        i = rng.randrange(len(t))
        c = rng.choice(b'Aa0-_.=+/ ')
        u = t[:i] + bytes([c]) + t[i + 1:]
        kind, r = outcome(JWS().verify_compact_verbose, u, keys)
        want = jwsref.accepted(u, ds)
        if want is None: ensures('rejects', kind == 'exc')
        elif kind == 'ok': ensures('payload', jwsref.same(r['msg'], want[1]))


def random_of(t):
    import random
    return random.Random(t)


def mixed(rng, ts):
    """A token made of the parts of others."""
    ps = [jwsref.split(t) for t in ts]
    ps = [p for p in ps if len(p) == 3]
    if not ps: return ts[0]
    a, b = rng.choice(ps), rng.choice(ps)
    k = rng.random()
    if k < .4: q = [a[0], ref.b64u(rng.choice([b'{"admin": true}', b'x', b''])), a[2]]
    elif k < .55: q = [ref.b64u(json.dumps({'alg': rng.choice(sigref.ALGS), 'x': 1}).encode()), a[1], a[2]]
    elif k < .75: q = [a[0], b[1], rng.choice([a, b])[2]]
    elif k < .9: q = [a[0], a[1], b[2]]
    else: q = [a[0], a[1], ref.b64u(flip(rng, jwsref.decode_part(a[2]) or b'x'))]
    return b'.'.join(q)


def gen_history(rng, lits):
    d = gen_ok(rng, lits)
    ts = [d['token']]
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.random()
        if k < .7: ts.append(mixed(rng, ts))
        elif k < .85: ts.append(rng.choice(ts))
        else: ts.append(gen(rng, lits)['token'])
    return dict(tokens=ts, ds=d['ds'], dss=[rng.choice([True, True, True, False]) for _ in ts])


@contract('C01', gen=gen_history, covers=COV, cases=250, weight=4, sym=False, why='any single call, whatever the verifier was set up with: see soundness_configured')
def history(tokens, ds, dss):
    """One verifier object used again: what it verified before vouches for nothing."""
    keys = K.build_all(ds)
    v = JWS()
    for t, all_keys in zip(tokens, dss):
        ks, es = (keys, ds) if all_keys else (keys[1:], ds[1:])
        if not ks: continue
        kind, r = outcome(v.verify_compact_verbose, t, ks)
        want = jwsref.accepted(t, es)
        if want is None: ensures('rejects', kind == 'exc')
        elif kind == 'ok': ensures('payload', jwsref.same(r['msg'], want[1]))


def callees():
    from pv import callees
    return callees.jws()


def named(h, alg):
    """Does the header part h say it is signed under alg (None: under none of the known names)?"""
    o = jwsref.decode_part(h)
    if o is None: return alg is None
    hd = jwsref.header(o)
    if not isinstance(hd, dict): return alg is None
    if alg is None: return hd.get('alg') not in sigref.ALGS
    return hd.get('alg') == alg


def gen_any(rng, lits):
    while True:
        d = gen(rng, lits)
        ps = jwsref.split(d['token'])
        if len(ps) == 3: break
    a = next((a for a in sigref.ALGS if named(ps[0], a)), None)
    return dict(alg=a, h=ps[0], p=ps[1], s=ps[2], ds=d['ds'])


@contract('C01', inputs=dict(alg=OneOf(*(sigref.ALGS + [None])), h=Bytes(), p=Bytes(), s=Bytes(), ds=Keys()), gen=gen_any, covers=COV, cases=150, weight=20,
          uses=callees, shard='alg', secs=330)
def soundness_any_keys(alg, h, p, s, ds):
    """Any three parts, any list of keys: what is returned was signed by a key of the list."""
    requires(h.count(b'.') == 0 and p.count(b'.') == 0 and s.count(b'.') == 0)
    requires(named(h, alg))
    requires(len(ds) > 0)
    keys = K.build_all(ds)
    token = h + b'.' + p + b'.' + s
    kind, r = outcome(JWS().verify_compact_verbose, token, keys)
    if kind == 'ok':
        want = jwsref.accepted(token, ds)
        ensures('signed', want is not None)
        ensures('payload', jwsref.same(r['msg'], want[1]))


def gen_configured(rng, lits):
    d = gen_any(rng, lits)
    a = d['alg'] if rng.random() < .7 and d['alg'] else rng.choice(sigref.ALGS + ['none', ''])
    k = rng.choice(['a', 'b', 'key-1', None, 1]) if rng.random() < .5 or not d['ds'] else rng.choice(d['ds']).get('kid')
    return dict(d, a=a, k=k)


@contract('C01', inputs=dict(alg=OneOf(*(sigref.ALGS + [None])), h=Bytes(), p=Bytes(), s=Bytes(), ds=Keys(), a=Json(), k=Json()), gen=gen_configured, covers=COV,
          cases=100, weight=20, uses=callees, shard='alg', secs=330)
def soundness_configured(alg, h, p, s, ds, a, k):
    """The same for a verifier set up with any algorithm and any key id."""
    requires(h.count(b'.') == 0 and p.count(b'.') == 0 and s.count(b'.') == 0)
    requires(named(h, alg))
    requires(len(ds) > 0)
    keys = K.build_all(ds)
    token = h + b'.' + p + b'.' + s
    v = JWS()
    v['alg'] = a
    v['kid'] = k
    kind, r = outcome(v.verify_compact_verbose, token, keys)
    if kind == 'ok':
        want = jwsref.accepted(token, ds)
        ensures('signed', want is not None)
        ensures('payload', jwsref.same(r['msg'], want[1]))


def gen_parts(rng, lits):
    while True:
        d = gen(rng, lits)
        t = d['token'].encode() if isinstance(d['token'], str) else d['token']
        if rng.random() < .7: t = rng.choice([t + b'.', b'.' + t, t.replace(b'.', b'..'), t.replace(b'.', b'', 1), t.replace(b'.', b''), t + b'.' + t, b'', b'...'])
        if len(t.split(b'.')) != 3: return dict(token=t, ds=d['ds'])


@contract('C01', inputs=dict(token=Bytes(), ds=Keys()), gen=gen_parts, covers=COV, cases=200, weight=5, uses=callees)
def three_parts_only(token, ds):
    requires(token.count(b'.') != 2)
    kind, r = outcome(JWS().verify_compact_verbose, token, K.build_all(ds))
    ensures('rejects', kind == 'exc')
