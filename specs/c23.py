"""C23: remote keys are fetched with certificate checking on."""
import json
from jwkest.jwk import KEYS, load_jwks_from_url, load_x509_cert
from jwkest.jws import JWS
from pv.api import *
from pv import http
from . import jwkref, keys as K
from .c19 import rand_desc

COV = ['jwkest.jwk:KEYS.load_from_url', 'jwkest.jwk:load_jwks_from_url', 'jwkest.jwk:KEYS.load_jwks', 'jwkest.jwk:load_x509_cert']
URLS = ['https://example.com/jwks.json', 'https://example.com', 'https://a.b:8443/x?y=z', 'https://127.0.0.1/k', 'http://example.com/jwks']
STATUS = list(range(100, 601)) + [0, 20, -200, 2000]
OPTS = [{}, {}, {}, {'verify': True}, {'verify': False}, {'verify': '/ca.pem'}, {'timeout': 3}, {'headers': {'x': 'y'}}, {'params': {'a': 'b'}}, {'timeout': 3, 'verify': False},
        {'verify': 0}, {'cert': None}]


def gen(rng, lits):
    return dict(url=rng.choice(URLS), status=rng.choice(STATUS) if rng.random() < .5 else 200, opts=dict(rng.choice(OPTS)), ds=[rand_desc(rng, lits) for _ in range(rng.randint(0, 3))],
                there=[rand_desc(rng, lits) for _ in range(rng.randint(0, 2))], body=rng.choice(['jwks', 'jwks', 'jwks', 'not json', '[]', '{}', '', 'null', '{"keys": 1}']))


def text(body, ds): return json.dumps(dict(keys=[jwkref.jwk(d, False) for d in ds])) if body == 'jwks' else body


def pub(ds): return [jwkref.described(d, False) + (jwkref.meta_of(d),) for d in ds]


def seen(ks): return [jwkref.material(k) + (jwkref.meta(k),) for k in ks]


def checked(opts, log):
    """Every request verified certificates, unless the caller said not to (and then as said)."""
    return all(v == opts.get('verify', True) and bool(v) == bool(opts.get('verify', True)) for _, _, v in log)


@contract('C23', gen=gen, covers=COV, cases=500, weight=2, sym=False, why='the HTTP library is below the contract: see fetch_any')
def load(url, status, opts, ds, there, body):
    s = KEYS()
    for d in there: s.append(K.build(d))
    before = list(s)
    http.script(status, text(body, ds))
    r = outcome(s.load_from_url, url, **opts)
    log = http.calls()
    ensures('certificate-checked', checked(opts, log))
    ensures('one-request', len(log) == 1 and log[0][0] == 'GET' and log[0][1].startswith(url))
    now = list(s)
    ensures('kept', len(now) >= len(before) and all(a is b for a, b in zip(now, before)))
    if status != 200:
        ensures('raises', r[0] == 'exc')
        ensures('adds-nothing', len(now) == len(before))
    elif body == 'jwks':
        ensures('returns', r[0] == 'ok')
        ensures('keys-of-the-answer', seen(now[len(before):]) == pub(ds))
    else:
        ensures('nothing-usable', r[0] == 'exc' and len(now) == len(before))


@contract('C23', gen=gen, covers=COV, cases=300, sym=False, why='the HTTP library is below the contract: see fetch_any')
def load_function(url, status, opts, ds, there, body):
    opts = dict((k, v) for k, v in opts.items() if k == 'verify')
    http.script(status, text(body, ds))
    r = outcome(load_jwks_from_url, url, **opts)
    log = http.calls()
    ensures('certificate-checked', checked(opts, log))
    ensures('one-request', len(log) == 1 and log[0][0] == 'GET')
    if status != 200: ensures('raises', r[0] == 'exc')
    elif body == 'jwks': ensures('keys-of-the-answer', r[0] == 'ok' and seen(r[1]) == pub(ds))
    else: ensures('nothing-usable', r[0] == 'exc')


@contract('C23', gen=lambda rng, lits: dict(url=rng.choice(URLS), first=rng.choice([1, 2, 5])), covers=COV, cases=3, sym=False, why='the HTTP library is below the contract: see fetch_any')
def only_200(url, first):
    """Every other status."""
    for st in STATUS:
        if st == 200: continue
        s = KEYS()
        http.script(st, text('jwks', [dict(t='oct', k=b'x')]))
        r = outcome(s.load_from_url, url)
        ensures('raises', r[0] == 'exc')
        ensures('adds-nothing', len(s) == 0)
        http.script(st, text('jwks', [dict(t='oct', k=b'x')]))
        ensures('function-raises', outcome(load_jwks_from_url, url)[0] == 'exc')


@contract('C23', gen=lambda rng, lits: dict(url=rng.choice(URLS), n=rng.randint(1, 3), ds=[rand_desc(rng, lits)]), covers=COV, cases=60, sym=False,
          why='the HTTP library is below the contract: see fetch_any')
def no_answer(url, n, ds):
    """A failed connection raises and adds nothing; later loads are verified again."""
    s = KEYS()
    for i in range(n):
        http.script(None, '')
        ensures('raises', outcome(s.load_from_url, url)[0] == 'exc')
        ensures('checked', checked({}, http.calls()))
        ensures('empty', len(s) == 0)
    http.script(200, text('jwks', ds))
    s.load_from_url(url, verify=False)
    http.script(200, text('jwks', ds))
    s.load_from_url(url)
    ensures('checked-afterwards', checked({}, http.calls()))
    ensures('both', seen(s) == pub(ds) * 2)


@contract('C23', gen=lambda rng, lits: dict(url=rng.choice(URLS), status=rng.choice(STATUS) if rng.random() < .6 else 200, i=rng.randrange(3), verify=rng.choice([None, True, False])),
          covers=COV, cases=120, sym=False, why='the HTTP library is below the contract: see fetch_any')
def certificate(url, status, i, verify):
    """Certificates and the key sets a token refers to are fetched the same way."""
    pem = K.rsa_obj(i, False).export_key('PEM').decode('ascii')
    http.script(status, pem)
    opts = {} if verify is None else dict(verify=verify)
    r = outcome(load_x509_cert, url, {}, **opts)
    ensures('certificate-checked', checked(opts, http.calls()))
    if status != 200: ensures('no-key', r == ('ok', []) or r[0] == 'exc')
    else: ensures('key', r[0] == 'ok' and len(r[1]) == 1 and (r[1][0][1].n, r[1][0][1].e) == (K.rsa_obj(i, False).n, K.rsa_obj(i, False).e))
    http.script(status, text('jwks', [dict(t='RSA', i=i, priv=False)]))
    j = JWS('x', alg='RS256', jku=url)
    outcome(j._get_keys)
    ensures('referred-checked', checked({}, http.calls()))
