"""C17: token packing and unpacking are inverse."""
import json
from jwkest.jwt import JWT
from jwkest.jws import factory
from pv.api import *
from . import ref, jwsref

COV = ['jwkest.jwt:JWT.__init__', 'jwkest.jwt:JWT.pack', 'jwkest.jwt:JWT.unpack', 'jwkest.jwt:JWT.payload', 'jwkest.jwt:split_token',
       'jwkest.jwt:b64encode_item', 'jwkest.jwt:b2s_conv']
HKEYS = ['alg', 'typ', 'kid', 'cty', 'crit', 'jwk', 'x', 'enc', 'zip']


def rand_headers(rng, lits):
    d = Json('dict', depth=2, keys=HKEYS).rand(rng, lits)
    if rng.random() < .7: d['alg'] = rng.choice(['HS256', 'none', 'RSA-OAEP', '', None])
    if 'cty' in d and not isinstance(d['cty'], str): d['cty'] = 'text/plain'
    return d


def rand_part(rng, lits):
    k = rng.random()
    if k < .5: return Bytes(hi=80).rand(rng, lits)
    if k < .7: return Str(hi=60).rand(rng, lits)
    if k < .9: return Json('dict', depth=2).rand(rng, lits)
    return rng.choice([[], [1, 'a'], {}, 5, 0, -3, 1.5, True, None, [[[]]], {'a': {'b': [None]}}])


def octets(part):
    """Octets a part stands for, or None for a JSON value."""
    if isinstance(part, bytes): return part
    if isinstance(part, str): return part.encode('utf-8')
    return None


def stands_for(o, part):
    want = octets(part)
    if want is not None: return o == want
    try: return jwsref.same(json.loads(o.decode('utf-8')), part)
    except ValueError: return False


def gen(rng, lits):
    return dict(headers=rand_headers(rng, lits), parts=[rand_part(rng, lits) for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 6]))], later=rng.random() < .3)


@contract('C17', gen=gen, covers=COV, cases=800, sym=False, why='headers and parts of any kind, packed and unpacked; splitting alone is pieces_any')
def round_trip(headers, parts, later):
    if later and headers: t = JWT().pack(list(parts), headers=dict(headers))
    else: t = JWT(**headers).pack(list(parts))
    want = dict(headers)
    if not later or not headers:
        if not want.get('alg'): want['alg'] = None
    ensures('text', isinstance(t, str))
    j = JWT().unpack(t)
    ensures('header', jwsref.same(j.headers, want))
    ensures('count', len(j.part) == len(parts) + 1 and len(j.b64part) == len(parts) + 1)
    ensures('contents', all(stands_for(o, p) for o, p in zip(j.part[1:], parts)))
    ensures('pieces', [bytes(p) for p in j.b64part] == t.encode('utf-8').split(b'.'))
    ensures('unpadded', all(chr(c) in ref.ALPHABET + '.' for c in t.encode('utf-8')))
    k = JWT().unpack(t.encode('utf-8'))
    ensures('from-octets', jwsref.same(k.headers, want) and list(k.part) == list(j.part))
    ensures('again', j.pack() == t)


def gen_token(rng, lits):
    h = json.dumps(rand_headers(rng, lits), indent=rng.choice([None, 1]))
    ps = [ref.b64u(h.encode('utf-8'))] + [ref.b64u(Bytes(hi=40).rand(rng, lits)) for _ in range(rng.choice([0, 1, 2, 2, 4, 5]))]
    k = rng.random()
    i = rng.randrange(len(ps))
    if k < .15: ps[i] = ps[i] + rng.choice([b'=', b'==', b'\n', b' ', b'+', b'/', b'A', b'\xff'])
    elif k < .25: ps[i] = ps[i][:-1]
    elif k < .3: ps[i] = b''
    elif k < .4: ps[0] = ref.b64u(rng.choice([b'{', b'', b'[', b'\xff', b'{"a":}', b'nonsense']))
    if rng.random() < .3 and len(ps) > 1: ps[1] = ref.b64u(rng.choice(['0', '""', '{}', '[]', 'false', 'null', '0.0', '-0', 'true', '"a"', '1e400', 'NaN', ' 1 ', '01', "{'a':1}", '\u20ac', '"\u20ac"', '{"a":0}']).encode())
    return dict(token=b'.'.join(ps), text=rng.random() < .5)


@contract('C17', gen=gen_token, covers=COV, cases=1000, sym=False, why='headers of any kind: see pieces_any')
def pieces(token, text):
    t = token
    if text:
        try: t = token.decode('ascii')
        except UnicodeDecodeError: pass
    kind, j = outcome(JWT().unpack, t)
    ps = token.split(b'.')
    o = [jwsref.decode_part(p) for p in ps]
    if len(ps) < 2: ensures('no-dot', kind == 'exc')
    elif kind == 'ok':
        ensures('pieces', [bytes(p) for p in j.b64part] == ps)
        ensures('contents', None not in o and [bytes(p) for p in j.part] == o)
        ensures('header', jwsref.same(j.headers, jwsref.header(o[0])))
    elif None not in o and jwsref.header(o[0]) is not None and token.isascii() and b'=' not in token:
        ensures('accepts', False)
    if None in o or not o or (o[0] is not None and jwsref.header(o[0]) is None and o[0].strip() != b'null'): ensures('refuses', kind == 'exc')


def gen_payload(rng, lits):
    k = rng.random()
    if k < .5: p = rand_part(rng, lits)
    elif k < .65: p = json.dumps(Json(depth=3).rand(rng, lits), indent=rng.choice([None, 2]))
    elif k < .8: p = json.dumps(Json(depth=2).rand(rng, lits)).encode()
    else: p = rng.choice(['', 'null', 'true', '5', '1.5', '"a"', ' 5', '5 ', '05', "'a'", 'NaN', '{"a":1}x', '[1,]', b'\xff\xfe', b'', '\u20ac', '{"\u20ac":"\U0001f600"}'])
    return dict(payload=p, cty=rng.choice([None, None, None, 'JWT', 'jwt', 'text/plain', 'json']), more=rng.choice([0, 1, 3]))


@contract('C17', gen=gen_payload, covers=COV, cases=1500, sym=False, why='payloads of any kind: see payload_any')
def payloads(payload, cty, more):
    hdr = {'alg': 'HS256'}
    if cty is not None: hdr['cty'] = cty
    t = JWT(**hdr).pack([payload] + [b'x'] * more)
    j = JWT().unpack(t)
    v = j.payload()
    o = octets(payload)
    if cty is not None and cty.lower() != 'jwt':
        ensures('as-text', jwsref.same(v, jwsref.payload(hdr, j.part[1])))
    elif o is None: ensures('json-value', jwsref.same(v, payload))
    else:
        try: want = json.loads(o.decode('utf-8'))
        except UnicodeDecodeError:
            if jwsref.payload(hdr, o) == o: ensures('octets', v == o)
            return
        except ValueError: want = o.decode('utf-8')
        ensures('json-text', jwsref.same(v, want))


def coding():
    from pv import callees
    return dict(extra_contracts=callees.coding())


def gen_two(rng, lits):
    while True:
        d = gen_token(rng, lits)
        ps = d['token'].split(b'.')
        if len(ps) > 1: return dict(h=ps[0], p=ps[1], more=b'.'.join([b''] + ps[2:]) if len(ps) > 2 else b'', text=d['text'])


@contract('C17', inputs=dict(h=Bytes(), p=Bytes(), more=OneOf(b'', b'.', b'.eA')), gen=lambda rng, lits: (lambda d: dict(h=d['h'], p=d['p'], more=rng.choice([b'', b'.', b'.eA'])))(gen_two(rng, lits)),
          covers=COV, cases=200, uses=coding, weight=3)
def payload_any(h, p, more):
    """The payload of any token that unpacks, whatever its header."""
    requires(h.count(b'.') == 0 and p.count(b'.') == 0)
    kind, j = outcome(JWT().unpack, h + b'.' + p + more)
    if kind == 'ok':
        hd = j.headers
        text = isinstance(hd, dict) and ('cty' not in hd or isinstance(hd['cty'], str))
        kind, v = outcome(j.payload)
        if text:
            ensures('value', kind == 'ok')
            if kind == 'ok': ensures('payload', jwsref.same(v, jwsref.payload_value(hd, j.part[1])))


@contract('C17', inputs=dict(token=Bytes()), gen=lambda rng, lits: dict(token=gen_token(rng, lits)['token']), covers=COV, cases=300, uses=coding, weight=3)
def no_dot_refused(token):
    requires(token.count(b'.') == 0)
    kind, j = outcome(JWT().unpack, token)
    ensures('refused', kind == 'exc')


@contract('C17', inputs=dict(token=Bytes()), gen=lambda rng, lits: dict(token=gen_token(rng, lits)['token']), covers=COV, cases=300, uses=coding, weight=3)
def pieces_any(token):
    """Any token of any number of parts."""
    kind, j = outcome(JWT().unpack, token)
    ps = token.split(b'.')
    if kind == 'ok':
        ensures('count', len(j.part) == len(ps) and len(j.b64part) == len(ps))
        ensures('pieces', all(bytes(a) == b for a, b in zip(j.b64part, ps)))
        ensures('contents', all(jwsref.decode_part(b) is not None and bytes(a) == jwsref.decode_part(b) for a, b in zip(j.part, ps)))
        ensures('header', jwsref.same(j.headers, jwsref.header(jwsref.decode_part(ps[0]))))


def gen_history(rng, lits):
    steps = []
    for _ in range(rng.choice([2, 2, 3, 4])):
        k = rng.random()
        if k < .6: steps.append(('unpack', gen_token(rng, lits)['token']))
        elif k < .8: steps.append(('pack', [rand_part(rng, lits) for _ in range(rng.choice([1, 2]))]))
        else: steps.append(('payload', None))
        if rng.random() < .6: steps.append(('payload', None))
    return dict(steps=steps)


@contract('C17', gen=gen_history, covers=COV, cases=500, sym=False, why='one object through several calls; single calls: see pieces_any and payload_any')
def history(steps):
    """One object unpacking, packing and asked for its payload in any order is as good as a new one."""
    j = JWT()
    last = None
    for what, a in steps:
        if what == 'unpack':
            x, y = outcome(j.unpack, a), outcome(JWT().unpack, a)
            ensures('same-verdict', x[0] == y[0])
            if x[0] != 'ok': return
            last = a
            n = y[1]
            ensures('same', jwsref.same(j.headers, n.headers) and list(j.part) == list(n.part) and list(j.b64part) == list(n.b64part))
        elif what == 'payload':
            if last is None: continue
            n = JWT().unpack(last)
            x, y = outcome(j.payload), outcome(n.payload)
            ensures('payload', x[0] == y[0] and (x[0] == 'exc' or jwsref.same(x[1], y[1])))
        elif last is not None and isinstance(j.headers, dict) and j.headers:
            t = outcome(j.pack, a)
            last = None
            if t[0] == 'ok':
                n = JWT().unpack(t[1])
                ensures('packed', jwsref.same(n.headers, j.headers) and len(n.part) == len(a) + 1 and all(stands_for(o, p) for o, p in zip(n.part[1:], a)))
