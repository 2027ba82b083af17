"""C03: the expected algorithm is enforced."""
import json
from jwkest.jws import JWS
from pv.api import *
from . import ref, sigref, jwsref, keys as K
from .c01 import spelled, rand_payload, callees
from .c07 import key_for

COV = ['jwkest.jws:JWS.verify_compact', 'jwkest.jws:JWS.verify_compact_verbose', 'jwkest.jws:JWS.verify_json']


def gen(rng, lits):
    alg = rng.choice(sigref.ALGS)
    d = key_for(rng, alg)
    hdr = {'alg': alg}
    other = rng.choice([a for a in sigref.ALGS if a != alg] + [a for a in sigref.ALGS if a != alg and a[:2] == alg[:2]] * 3 +
                       [alg.lower(), alg + ' ', alg[:-1], 'X', alg + 'x'])
    k = rng.random()
    if k < .1: hdr['alg'] = rng.choice(['none', None, 'None'])
    elif k < .15: hdr.pop('alg')
    h, p = ref.b64u(spelled(rng, hdr).encode()), ref.b64u(rand_payload(rng, lits))
    sig = sigref.make(alg, d, h + b'.' + p)
    ds = [d] + [K.rand_key(rng, p=.1) for _ in range(rng.choice([0, 0, 1, 2]))]
    if other in sigref.ALGS: ds.append(key_for(rng, other))
    rng.shuffle(ds)
    return dict(h=h.decode(), p=p.decode(), s=ref.b64u(sig).decode(), ds=ds, other=other, none_keys=rng.random() < .1,
                allow_none=rng.random() < .3, ctor=rng.choice([None, None, alg]), signed=hdr.get('alg') == alg)


@contract('C03', gen=gen, covers=COV, cases=500, weight=3, sym=False, why='concrete keys of all kinds; the general case is expected_any')
def enforced(h, p, s, ds, other, none_keys, allow_none, ctor, signed):
    keys = K.build_all(ds) if not none_keys else None
    mk = lambda: JWS(alg=ctor) if ctor else JWS()
    token = '.'.join([h, p, s])
    kind, v = outcome(mk().verify_compact, token, keys, allow_none, other)
    ensures('compact', kind == 'exc')
    kind, v = outcome(mk().verify_compact_verbose, token, keys, allow_none=allow_none, sigalg=other)
    ensures('verbose', kind == 'exc')
    for j in (dict(payload=p, protected=h, signature=s), dict(payload=p, signatures=[dict(protected=h, signature=s)]),
              dict(payload=p, signatures=[dict(protected=h, signature=s, header={'alg': other})])):
        kind, v = outcome(mk().verify_json, json.dumps(j), keys, allow_none, other)
        ensures('json', kind == 'exc')


@contract('C03', gen=gen, covers=COV, cases=400, weight=3, sym=False, why='concrete keys of all kinds; the general case is expected_any')
def created_for_one_algorithm(h, p, s, ds, other, none_keys, allow_none, ctor, signed):
    requires(signed)
    kind, v = outcome(JWS(alg=other).verify_compact, '.'.join([h, p, s]), K.build_all(ds), allow_none)
    ensures('compact', kind == 'exc')


@contract('C03', gen=gen, covers=COV, cases=300, weight=3, sym=False, why='concrete keys of all kinds; the general case is expected_any')
def second_signature(h, p, s, ds, other, none_keys, allow_none, ctor, signed):
    """Of several signatures none may be under another algorithm."""
    requires(signed)
    alg = json.loads(ref.b64u_dec(h.encode()))['alg']
    requires(not json.loads(ref.b64u_dec(h.encode())).get('kid'))
    keys = K.build_all(ds)
    for exp in sigref.ALGS:
        if exp == alg: continue
        d = dict(t='oct', k=b'other') if exp[0] == 'H' else None
        if d is None: continue
        h2 = ref.b64u(json.dumps({'alg': exp}).encode())
        s2 = ref.b64u(sigref.make(exp, d, h2 + b'.' + p.encode())).decode()
        e1, e2 = dict(protected=h2.decode(), signature=s2), dict(protected=h, signature=s)
        for es in ([e1, e2], [e2, e1]):
            kind, v = outcome(JWS().verify_json, json.dumps(dict(payload=p, signatures=es)), keys + [K.build(d)], False, exp)
            ensures('json', kind == 'exc')


def alg_of(h):
    """The algorithm the header part h names (None: none)."""
    o = jwsref.decode_part(h)
    if o is None: return None
    hd = jwsref.header(o)
    return hd.get('alg') if isinstance(hd, dict) else None


def gen_any(rng, lits):
    d = gen(rng, lits)
    return dict(h=d['h'].encode(), p=d['p'].encode(), s=d['s'].encode(), ds=d['ds'], allow_none=d['allow_none'], exp=d['other'],
                ctor=rng.choice([None, d['other'], d['ctor']]))


@contract('C03', inputs=dict(h=Bytes(), p=Bytes(), s=Bytes(), ds=Keys(), exp=Str(lo=1), ctor=Union(OneOf(None), Str(lo=1)), allow_none=Bool()), gen=gen_any,
          covers=COV, cases=300, weight=5, uses=callees)
def expected_any(h, p, s, ds, exp, ctor, allow_none):
    """Any token, any keys: a header that names another algorithm than the expected one is refused."""
    requires(h.count(b'.') == 0 and p.count(b'.') == 0 and s.count(b'.') == 0)
    requires(exp.lower() != 'none')
    requires(alg_of(h) != exp)
    v = JWS(alg=ctor) if ctor is not None else JWS()
    kind, v = outcome(v.verify_compact, h + b'.' + p + b'.' + s, K.build_all(ds), allow_none, exp)
    ensures('rejects', kind == 'exc')


def gen_created(rng, lits):
    d = gen_any(rng, lits)
    d.pop('ctor')
    return d


@contract('C03', inputs=dict(h=Bytes(), p=Bytes(), s=Bytes(), ds=Keys(), exp=Str(lo=1), allow_none=Bool()), gen=gen_created,
          covers=COV, cases=300, weight=5, uses=callees)
def created_any(h, p, s, ds, exp, allow_none):
    """The same of an object created for one algorithm and a signed token."""
    requires(h.count(b'.') == 0 and p.count(b'.') == 0 and s.count(b'.') == 0)
    a = alg_of(h)
    requires(isinstance(a, str) and a.lower() != 'none' and a != exp)
    kind, v = outcome(JWS(alg=exp).verify_compact, h + b'.' + p + b'.' + s, K.build_all(ds), allow_none)
    ensures('rejects', kind == 'exc')


def gen_history(rng, lits):
    d = gen(rng, lits)
    while not (d['signed'] and d['other'] in sigref.ALGS): d = gen(rng, lits)
    h2 = ref.b64u(json.dumps({'alg': d['other']}).encode())
    k2 = dict(key_for(rng, d['other']))
    return dict(h=d['h'], p=d['p'], s=d['s'], ds=d['ds'], other=d['other'], k2=k2, good=(h2 + b'.' + d['p'].encode() + b'.' + ref.b64u(sigref.make(d['other'], k2, h2 + b'.' + d['p'].encode()))).decode(),
                steps=[rng.choice(['good', 'unrestricted', 'json', 'other-expected']) for _ in range(rng.choice([1, 2, 3]))], pinned=rng.random() < .5)


@contract('C03', gen=gen_history, covers=COV, cases=200, weight=3, sym=False, why='one verifier object used again; single calls: see expected_any')
def history(h, p, s, ds, other, k2, good, steps, pinned):
    """The expectation holds for every call, whatever the object verified before."""
    keys = K.build_all(ds + [k2])
    token = '.'.join([h, p, s])
    alg = json.loads(ref.b64u_dec(h.encode()))['alg']
    v = JWS(alg=other) if pinned else JWS()
    for what in steps:
        if what == 'good': outcome(v.verify_compact, good, keys, False, other)
        elif what == 'unrestricted' and not pinned: outcome(v.verify_compact, token, keys)
        elif what == 'other-expected' and not pinned: outcome(v.verify_compact, token, keys, False, alg)
        elif what == 'json':
            a, b, c = good.split('.')
            outcome(v.verify_json, json.dumps(dict(payload=b, protected=a, signature=c)), keys, False, other)
    ensures('rejects', outcome(v.verify_compact, token, keys, False, other)[0] == 'exc')
    if pinned: ensures('created-for', outcome(v.verify_compact, token, keys)[0] == 'exc')
