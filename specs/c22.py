"""C22: a key set holds exactly the keys put in, in order."""
import json
from jwkest.jwk import KEYS, RSAKey, ECKey, SYMKey, load_jwks, load_jwks_from_url, keyrep
from jwkest.ecc import NISTEllipticCurve
from pv.api import *
from pv import http
from . import ref, ecref, jwkref, jwsref, keys as K
from .c19 import rand_desc

COV = ['jwkest.jwk:KEYS.' + n for n in ('__init__ load_dict load_jwks dump_jwks load_from_url __getitem__ __iter__ __len__ keys key_types __repr__ __str__ '
                                        'kids by_kid wrap_add as_dict add append').split()]
COV += ['jwkest.jwk:keyrep', 'jwkest.jwk:jwk_wrap', 'jwkest.jwk:load_jwks', 'jwkest.jwk:load_jwks_from_url']
OPS = ['append', 'append', 'add', 'add-raw', 'load_dict', 'load_jwks', 'load_url', 'wrap_rsa', 'wrap_str', 'wrap_curve', 'twice', 'bad-dict', 'bad-json', 'bad-url', 'bad-add',
       'query', 'dump', 'foreign']


def small(rng, lits):
    d = rand_desc(rng, lits)
    if d.get('kid') and rng.random() < .6: d['kid'] = rng.choice(['a', 'b', 'A', 'ab'])
    return d


def gen_ops(rng, lits):
    ops = []
    for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 10])):
        op = rng.choice(OPS)
        n = rng.choice([0, 1, 1, 2, 3]) if op in ('load_dict', 'load_jwks', 'load_url', 'bad-dict') else 1
        ops.append(dict(op=op, ds=[small(rng, lits) for _ in range(n)], private=rng.random() < .7, meta=dict(use=rng.choice(['', 'sig']), kid=rng.choice(['', 'a', 'w'])),
                        at=rng.randint(0, n)))
    return dict(ops=ops)


def jwks(o): return dict(keys=[jwkref.jwk(d, o['private']) for d in o['ds']])


def view(d, private):
    """What a description looks like in the model."""
    return jwkref.described(d, private) + (jwkref.meta_of(d),)


def seen(k): return jwkref.material(k) + (jwkref.meta(k),)


def step(s, o, model):
    """Do the operation on the library's key set; extend the model."""
    op, ds, priv = o['op'], o['ds'], o['private']
    if op == 'append':
        k = K.build(ds[0])
        s.append(k)
        model.append((view(ds[0], True), k))
    elif op == 'twice':
        k = K.build(ds[0])
        s.append(k)
        s.append(k)
        model.extend([(view(ds[0], True), k)] * 2)
    elif op == 'add':
        s.add(jwkref.jwk(ds[0], priv))
        model.append((view(ds[0], priv), None))
    elif op == 'add-raw':
        s.add(jwkref.jwk(ds[0], priv), None)
        model.append((view(ds[0], priv), None))
    elif op == 'load_dict':
        s.load_dict(jwks(o))
        model.extend((view(d, priv), None) for d in ds)
    elif op == 'load_jwks':
        r = s.load_jwks(json.dumps(jwks(o)))
        ensures('returns-itself', r is s)
        model.extend((view(d, priv), None) for d in ds)
    elif op == 'load_url':
        http.script(200, json.dumps(jwks(o)))
        s.load_from_url('https://example.com/jwks')
        model.extend((view(d, priv), None) for d in ds)
    elif op == 'wrap_rsa':
        d = dict(t='RSA', i=0, priv=priv, **o['meta'])
        s.wrap_add(K.rsa_obj(0, priv), **o['meta'])
        model.append((view(d, True), None))
    elif op == 'wrap_str':
        s.wrap_add('s\u00e9cret', **o['meta'])
        model.append((view(dict(t='oct', k='s\u00e9cret'.encode('utf-8'), **o['meta']), True), None))
    elif op == 'wrap_curve':
        n = len(s)
        s.wrap_add(NISTEllipticCurve.by_name('P-256'), **o['meta'])
        k = list(s)[-1]
        ensures('wrapped-curve', len(s) == n + 1 and (k.x, k.y) == ecref.public('P-256', k.d))
        model.append((view(dict(t='EC', crv='P-256', d=k.d, **o['meta']), True), k))
    elif op == 'bad-dict':
        j = jwks(o)
        j['keys'].insert(o['at'], dict(kty='RSA', n='!', e='AQAB'))
        before = len(s)
        r = outcome(s.load_dict, j)
        ensures('bad-key-raises', r[0] == 'exc')
        # what came before the unusable key may have been added
        got = len(s) - before
        ensures('bad-key-adds', 0 <= got <= o['at'])
        model.extend((view(d, priv), None) for d in ds[:max(got, 0)])
    elif op == 'bad-json':
        ensures('bad-json-raises', outcome(s.load_jwks, '{"keys": [')[0] == 'exc')
    elif op == 'bad-url':
        http.script(404, json.dumps(jwks(o)))
        ensures('bad-url-raises', outcome(s.load_from_url, 'https://example.com/jwks')[0] == 'exc')
    elif op == 'bad-add':
        ensures('bad-add-raises', outcome(s.add, dict(kty='EC', crv='P-1', x='AA', y='AA'))[0] == 'exc')
    elif op == 'foreign':
        t = KEYS()
        t.append(K.build(ds[0]))
        ensures('other-set', len(t) == 1)


TYPES = ['RSA', 'EC', 'oct', 'rsa', 'ec', 'OCT', 'x', '']


def check(s, model):
    want = [v for v, _ in model]
    now = list(s)
    ensures('count', len(s) == len(model) == len(now))
    ensures('content', [seen(k) for k in now] == want)
    ensures('same-objects', all(o is None or o is k for k, (_, o) in zip(now, model)))
    ensures('keys', list(s.keys()) == now and all(a is b for a, b in zip(s.keys(), now)))
    is_ = lambda xs, ys: len(xs) == len(ys) and all(a is b for a, b in zip(xs, ys))
    for kid in sorted(set(v[3][0] for v in want)) + ['nope', 'A', 'a']:
        if kid: ensures('by-kid', is_(s.by_kid(kid), [k for k, v in zip(now, want) if v[3][0] == kid]))
    for t in TYPES:
        ensures('by-type', is_(s[t], [k for k, v in zip(now, want) if v[0].lower() == t.lower()]))
    ensures('kids', list(s.kids()) == [v[3][0] for v in want if v[3][0]])
    ensures('types', sorted(s.key_types()) == sorted(set(v[0] for v in want)))
    g = s.as_dict()
    ensures('groups', set(g) == set(v[0] for v in want) and all(is_(g[t], [k for k, v in zip(now, want) if v[0] == t]) for t in g))
    ensures('iterate-again', is_([k for k in s], now))


@contract('C22', gen=gen_ops, covers=COV, cases=300, weight=4, sym=False, why='histories of operations: see step contracts')
def history(ops):
    """After any sequence of operations the set is the model list, and every query answers from it."""
    s, model = KEYS(), []
    check(s, model)
    for o in ops:
        step(s, o, model)
        check(s, model)
        if o['op'] == 'dump': dumped(s, model)
    dumped(s, model)


def dumped(s, model):
    for text in (s.dump_jwks(), str(s), repr(s)):
        j = json.loads(text)
        pub = [v[:2] + ((v[2] if v[0] == 'oct' else None),) + v[3:] for v, _ in model]
        ensures('dump-members', len(j['keys']) == len(model))
        for t in (KEYS(), KEYS()):
            t.load_jwks(text)
            ensures('dump-load', [seen(k) for k in t] == pub)
        ensures('dump-load-function', [seen(k) for k in load_jwks(text)] == pub)
    t = KEYS()
    t.append(K.build(dict(t='oct', k=b'first')))
    t.load_jwks(s.dump_jwks())
    ensures('load-appends', [seen(k) for k in t] == [view(dict(t='oct', k=b'first'), True)] + pub)
    http.script(200, s.dump_jwks())
    ensures('url-function', [seen(k) for k in load_jwks_from_url('https://example.com/')] == pub)


@contract('C22', gen=lambda rng, lits: dict(ds=[small(rng, lits) for _ in range(rng.choice([0, 1, 5, 40, 300]))], kid=rng.choice(['a', 'b', 'zz'])), covers=COV, cases=40, weight=2,
          sym=False, why='histories of operations: see step contracts')
def large(ds, kid):
    """Large sets."""
    s, model = KEYS(), []
    for d in ds:
        k = K.build(d)
        s.append(k)
        model.append((view(d, True), k))
    check(s, model)
    n = len(s)
    s.load_jwks(s.dump_jwks())
    ensures('doubled', len(s) == 2 * n and [seen(k)[1] for k in s][n:] == [v[1] for v, _ in model])
    ensures('kept', all(a is b[1] for a, b in zip(s, model)))


@contract('C22', gen=lambda rng, lits: dict(d=small(rng, lits), n=rng.randint(2, 4)), covers=COV, cases=40, sym=False, why='two sets')
def separate(d, n):
    """Sets do not share keys."""
    ss = [KEYS() for _ in range(n)]
    ss[0].append(K.build(d))
    ss[1].add(jwkref.jwk(d, True))
    ss[1].add(jwkref.jwk(d, True))
    ensures('counts', [len(s) for s in ss] == [1, 2, 0, 0][:n])
    ensures('fresh', len(KEYS()) == 0)
