"""C24: symmetric encryption keys follow OpenID Connect Core."""
from jwkest.jwk import SYMKey
from pv.api import *
from . import ref

COV = ['jwkest.jwk:SYMKey.encryption_key', 'jwkest.jwk:SYMKey.__init__']
NEED = {'A128KW': ('sha256', 16), 'A192KW': ('sha256', 24), 'A256KW': ('sha256', 32),
        'HS256': ('sha256', 32), 'HS384': ('sha384', 48), 'HS512': ('sha512', 64)}
ALG = OneOf('A128KW', 'A192KW', 'A256KW', 'HS256', 'HS384', 'HS512')


@contract('C24', inputs=dict(secret=Bytes(lo=1), alg=ALG), covers=COV, cases=300)
def derived_key(secret, alg):
    h, n = NEED[alg]
    ensures('derived', SYMKey(key=secret).encryption_key(alg) == ref.hash_(h, secret)[:n])


@contract('C24', inputs=dict(secret=Bytes(lo=1), alg=ALG, kid=Str(), use=OneOf('', 'sig', 'enc'), kalg=OneOf('', 'HS256', 'A128KW')),
          covers=COV, cases=300)
def nothing_else(secret, alg, kid, use, kalg):
    """Neither metadata nor the way the secret was given matters."""
    h, n = NEED[alg]
    want = ref.hash_(h, secret)[:n]
    k = SYMKey(key=secret, kid=kid, use=use, alg=kalg)
    ensures('metadata', k.encryption_key(alg=alg) == want)
    ensures('again', k.encryption_key(alg=alg) == want)
    k2 = SYMKey(k=ref.b64u(secret).decode('ascii'), kid=kid, use=use)
    ensures('from-k', k2.encryption_key(alg=alg) == want)
    ensures('options', k2.encryption_key(alg=alg, private=True) == want)


@contract('C24', inputs=dict(secret=Bytes(lo=1), alg=Str()), covers=COV, cases=300)
def unknown_algorithms(secret, alg):
    requires(alg not in ('A128KW', 'A192KW', 'A256KW', 'HS256', 'HS384', 'HS512'))
    kind, v = outcome(SYMKey(key=secret).encryption_key, alg)
    ensures('refused', kind == 'exc')


@contract('C24', inputs=dict(secret=Str(lo=1), alg=ALG), covers=COV, cases=200)
def text_secret(secret, alg):
    h, n = NEED[alg]
    ensures('derived', SYMKey(key=secret).encryption_key(alg) == ref.hash_(h, secret.encode('utf-8'))[:n])


def gen_history(rng, lits):
    alphabet = sorted(NEED)
    return dict(steps=[(rng.choice([None, None, Bytes(lo=1, hi=80).rand(rng, lits)]), rng.choice(alphabet)) for _ in range(rng.randint(2, 6))], secret=Bytes(lo=1, hi=70).rand(rng, lits))


@contract('C24', gen=gen_history, covers=COV, cases=300, sym=False, why='one object asked again, under a secret that may have been replaced; two requests: see asked_twice')
def history(secret, steps):
    """One key object used for several algorithms, its secret replaced in between."""
    k = SYMKey(key=secret)
    for new, alg in steps:
        if new is not None:
            k.key = secret = new
            k.k = ref.b64u(new)
        h, n = NEED[alg]
        ensures('derived', k.encryption_key(alg) == ref.hash_(h, secret)[:n])


@contract('C24', inputs=dict(secret=Bytes(lo=1), other=Bytes(lo=1), alg=ALG, alg2=ALG), covers=COV, cases=300)
def asked_twice(secret, other, alg, alg2):
    """Neither an earlier request nor an earlier secret has any influence."""
    k = SYMKey(key=secret)
    k.encryption_key(alg)
    h, n = NEED[alg2]
    ensures('same-secret', k.encryption_key(alg2) == ref.hash_(h, secret)[:n])
    k.key, k.k = other, ref.b64u(other)
    ensures('new-secret', k.encryption_key(alg2) == ref.hash_(h, other)[:n])
    h, n = NEED[alg]
    ensures('first-algorithm', k.encryption_key(alg) == ref.hash_(h, other)[:n])
