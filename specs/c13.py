"""C13: AES-GCM is SP 800-38D."""
from Cryptodome.Cipher import AES
from jwkest.aes_gcm import AES_GCM
from pv.api import *
from . import ref, gcmref

MUL = target('jwkest.aes_gcm:gf_2_128_mul')
COV = ['jwkest.aes_gcm:AES_GCM.encrypt', 'jwkest.aes_gcm:AES_GCM.decrypt', 'jwkest.aes_gcm:AES_GCM.change_key',
       'jwkest.aes_gcm:AES_GCM._AES_GCM__ghash', 'jwkest.aes_gcm:AES_GCM._AES_GCM__times_auth_key', 'jwkest.aes_gcm:gf_2_128_mul']


def rand_ops(rng, lits, n):
    ops = []
    for _ in range(n):
        iv = rng.choice([Bytes(12).rand(rng, lits), b'\0' * rng.choice([1, 4, 11, 12]) + Bytes(12).rand(rng, lits), b'\xff' * 12])[:12]
        if ops and ops[-1][0] == iv: continue
        ops.append((iv, Bytes(hi=rng.choice([40, 300])).rand(rng, lits), Bytes(hi=rng.choice([20, 300])).rand(rng, lits)))
    return ops


def gen(rng, lits):
    return dict(key=Bytes(rng.choice([16, 24, 32])).rand(rng, lits), ops=rand_ops(rng, lits, 8))


def lib(key, iv, pt, aad):
    c = AES.new(key, AES.MODE_GCM, nonce=iv, mac_len=16)
    c.update(aad)
    ct, t = c.encrypt_and_digest(pt)
    return ct, int.from_bytes(t, 'big')


@contract('C13', gen=gen, covers=COV, cases=40, weight=3, sym=False, why='whole mode on concrete values: see the contracts of its parts')
def mode(key, ops):
    g = AES_GCM(key)
    for iv, pt, aad in ops:
        i = int.from_bytes(iv, 'big')
        ct, t = g.encrypt(i, pt, aad)
        ensures('sealed', (ct, t) == lib(key, iv, pt, aad))
        ensures('opened', g.decrypt(i, ct, t, aad) == pt)
        ensures('ciphertext', ct == gcmref.crypt(key, iv, pt))


def gen_bad(rng, lits):
    return dict(key=Bytes(rng.choice([16, 24, 32])).rand(rng, lits), ops=rand_ops(rng, lits, 4), seed=rng.getrandbits(30))


@contract('C13', gen=gen_bad, covers=COV, cases=40, weight=3, sym=False, why='whole mode on concrete values: see the contracts of its parts')
def only_that_tag(key, ops, seed):
    import random
    rng = random.Random(seed)
    g = AES_GCM(key)
    for iv, ct, aad in ops:
        i = int.from_bytes(iv, 'big')
        t = gcmref.tag(key, iv, aad, ct)
        kind, m = outcome(g.decrypt, i, ct, t, aad)
        ensures('accepts', kind == 'ok' and m == gcmref.crypt(key, iv, ct))
        for u in [t ^ 1, t ^ (1 << 127), t ^ (1 << rng.randrange(128)), t >> 8, t & ((1 << 96) - 1), (t >> 32) << 32, 0, (1 << 128) - 1, t + (1 << 128)]:
            if u == t: continue
            kind, m = outcome(g.decrypt, i, ct, u, aad)
            ensures('rejects', kind == 'exc')
        for ct2, aad2, i2 in [(ct + b'\0', aad, i), (ct, aad + b'\0', i), (ct[:-1], aad, i), (ct, aad[:-1], i), (ct + aad, b'', i), (b'', aad + ct, i), (aad, ct, i), (ct, aad, i ^ 1),
                              (ct + b'\0' * 16, aad, i), (ct, aad, i >> 8)]:
            if (ct2, aad2, i2) == (ct, aad, i): continue
            kind, m = outcome(g.decrypt, i2, ct2, t, aad2)
            ensures('binds', kind == 'exc')


@contract('C13', gen=lambda rng, lits: dict(key=Bytes(16).rand(rng, lits), key2=Bytes(rng.choice([16, 32])).rand(rng, lits), ops=rand_ops(rng, lits, 3)),
          covers=COV, cases=12, weight=2, sym=False, why='whole mode on concrete values: see the contracts of its parts')
def key_change(key, key2, ops):
    g = AES_GCM(key)
    for k in (key2, key):
        g.change_key(k)
        for iv, pt, aad in ops:
            ensures('sealed', g.encrypt(int.from_bytes(iv, 'big'), pt, aad) == lib(k, iv, pt, aad))
            ensures('opened', g.decrypt(int.from_bytes(iv, 'big'), lib(k, iv, pt, aad)[0], lib(k, iv, pt, aad)[1], aad) == pt)


BLOCK = [0, 1, 2, 1 << 127, 1 << 126, (1 << 128) - 1, 0xe1 << 120, 1 << 120, 0xff, 1 << 64]


@contract('C13', gen=lambda rng, lits: dict(x=rng.choice(BLOCK + [rng.getrandbits(128)] * 9), y=rng.choice(BLOCK + [rng.getrandbits(128), 1 << rng.randrange(128)] * 9)),
          inputs=dict(x=Int(0, (1 << 128) - 1), y=Int(0, (1 << 128) - 1)), need=['jwkest.aes_gcm:gf_2_128_mul'], covers=COV[-1:], cases=3000, sym=False,
          why='GF(2) polynomials: see field')
def multiplication(x, y):
    ensures('product', MUL(x, y) == gcmref.gmul(x, y))
