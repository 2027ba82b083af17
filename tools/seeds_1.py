PRE = '''
import json
from jwkest import *
from jwkest.jwk import *
from jwkest.jws import *
from jwkest.jws import SIGNER_ALGS
'''
S('hmac-prefix', 'C07', [('__init__.py', '''def constant_time_compare(a, b):
    """Compare two strings in constant time."""
    if len(a) != len(b):
        return False
''', '''def constant_time_compare(a, b):
    """Compare two strings in constant time."""
    if len(b) > len(a):
        return False
''')], PRE + '''
k = SYMKey(key=b'0123456789abcdef0123456789abcdef')
t = JWS('hello', alg='HS256').sign_compact([k])
h, p, s = t.split('.')
for cut in ('', s[:8], s[:20]):
    try:
        m = JWS().verify_compact('.'.join([h, p, cut]), [k])
    except BadSignature:
        continue
    raise SystemExit('accepted a MAC of %d characters: %r' % (len(cut), m))
''', 'a token whose MAC is cut short, down to nothing', 'a prefix of the MAC, even the empty one, is accepted as the MAC')

S('none-by-default-object', 'C02', [('jws.py', '''                if allow_none:
                    self.msg = jwt.payload()''', '''                if allow_none or self._dict.get("alg") == "none":
                    self.msg = jwt.payload()''')], PRE + '''
tok = JWS('attack', alg='none').sign_compact()
k = SYMKey(key=b'0123456789abcdef', kid='k')
for o in (JWS(), JWS(kid='k'), JWS(typ='JWT')):
    try:
        m = o.verify_compact(tok, [k])
    except Exception:
        continue
    raise SystemExit('unsecured token accepted: %r' % m)
''', 'a verifier object created with header parameters but no algorithm (its alg silently becomes "none")',
  'an unsecured token is accepted without allow_none')

S('family-pin', 'C03', [('jws.py', '''        if sigalg and sigalg != _alg:
            raise''', '''        if sigalg and sigalg[:2] != _alg[:2]:
            raise''')], PRE + '''
k = SYMKey(key=b'0123456789abcdef0123456789abcdef')
for a in ('HS256', 'HS384', 'HS512'):
    for b in ('HS256', 'HS384', 'HS512'):
        t = JWS('x', alg=a).sign_compact([k])
        try: JWS().verify_compact(t, [k], sigalg=b); ok = True
        except Exception: ok = False
        if ok != (a == b): raise SystemExit('expected %s, token says %s: accepted=%s' % (b, a, ok))
''', 'a token signed with another algorithm of the same family', 'the expected algorithm is only compared by its family')

S('kidless-keys', 'C04', [('jws.py', '''                    assert _kid == _key.kid
''', '''                    assert not _key.kid or _kid == _key.kid
''')], PRE + '''
a, b = SYMKey(key=b'0123456789abcdef', kid='a'), SYMKey(key=b'fedcba9876543210')
t = JWS('x', alg='HS256', kid='a').sign_compact([b, a]) if False else JWS('x', alg='HS256').sign_compact([b], protected={'kid': 'a'})
try:
    JWS().verify_compact(t, [b])
except NoSuitableSigningKeys:
    pass
else:
    raise SystemExit('a key without id was used for a token that names key a')
''', 'a token naming a key id and a key list with a key that has no id', 'keys without a key id are used although the token names another key')

S('kid-once', 'C05', [('jws.py', '''            if key.kid:
                xargs["kid"] = key.kid
''', '''            if key.kid:
                xargs.setdefault("kid", key.kid)
''')], PRE + '''
a, b = SYMKey(key=b'0123456789abcdef', kid='a'), SYMKey(key=b'fedcba9876543210', kid='b')
hdr = {'typ': 'JWT'}
t1 = JWS('x', alg='HS256').sign_compact([a], protected=hdr)
t2 = JWS('x', alg='HS256').sign_compact([b], protected=hdr)
for t, k in ((t1, a), (t2, b)):
    h = json.loads(b64d(t.split('.')[0].encode()).decode())
    if h.get('kid') != k.kid: raise SystemExit('signed with %s, header says %s' % (k.kid, h.get('kid')))
    JWS().verify_compact(t, [a, b])
''', 'the same protected header dictionary used for two signatures with different keys', 'the header names the key of an earlier signature')

S('json-any-signature', 'C06', [('jws.py', '''            _tmp = self.verify_compact(token, keys, allow_none, sigalg)
            if _claim is None:''', '''            try:
                _tmp = self.verify_compact(token, keys, allow_none, sigalg)
            except BadSignature:
                if _claim is None:
                    raise
                continue
            if _claim is None:''')], PRE + '''
k = SYMKey(key=b'0123456789abcdef')
j = json.loads(JWS('x', alg='HS256').sign_json([k], headers=[({'alg': 'HS256'}, None), ({'alg': 'HS384'}, None)]))
j['signatures'][1]['signature'] = j['signatures'][0]['signature']
try:
    JWS().verify_json(json.dumps(j), [k])
except BadSignature: pass
else: raise SystemExit('accepted although the second signature is wrong')
j['signatures'].reverse()
try:
    JWS().verify_json(json.dumps(j), [k])
except BadSignature: pass
else: raise SystemExit('accepted')
''', 'a JSON serialization whose first signature is good and a later one is not', 'one good signature is enough')

S('ps384-hash', 'C07', [('jws.py', "    'PS384': PSSSigner(SHA384),", "    'PS384': PSSSigner(SHA256),")], PRE + '''
from Cryptodome.PublicKey import RSA
from Cryptodome.Signature import PKCS1_PSS
from Cryptodome.Hash import SHA384
k = RSA.generate(2048)
s = SIGNER_ALGS['PS384'].sign(b'msg', k)
if not PKCS1_PSS.new(k).verify(SHA384.new(b'msg'), s): raise SystemExit('PS384 signature is not PSS with SHA-384')
''', 'checking a PS384 signature with another implementation', 'PS384 uses SHA-256')

S('short-cbc-tag', 'C08', [('extra.py', '''    if candidate == tag:''', '''    if candidate.startswith(tag):''')], PRE + '''
from jwkest.jwe import JWE
k = SYMKey(key=b'0123456789abcdef')
t = JWE('hello', alg='A128KW', enc='A128CBC-HS256').encrypt([k])
p = t.split('.')
for cut in (p[4][:4], ''):
    try: m = JWE().decrypt('.'.join(p[:4] + [cut]).encode(), [k])
    except Exception: continue
    raise SystemExit('decrypted with a tag of %d characters' % len(cut))
''', 'a JWE with a truncated or empty authentication tag', 'a prefix of the authentication tag is accepted')

S('zip-limit', 'C09', [('jwe.py', '''                            jwe.authentication_tag())

        if "zip" in jwe.headers and jwe.headers["zip"] == "DEF":
            msg = zlib.decompress(msg)

        return msg


class JWE_EC''', '''                            jwe.authentication_tag())

        if "zip" in jwe.headers and jwe.headers["zip"] == "DEF":
            msg = zlib.decompressobj().decompress(msg, 1 << 16)

        return msg


class JWE_EC''')], PRE + '''
from jwkest.jwe import JWE
from Cryptodome.PublicKey import RSA
k = RSAKey(key=RSA.generate(2048))
for n in (10, 65536, 65537, 200000):
    m = 'a' * n
    t = JWE(m, alg='RSA-OAEP', enc='A128GCM', zip='DEF').encrypt([k])
    if JWE().decrypt(t.encode(), [k]) != m.encode(): raise SystemExit('message of %d octets does not round-trip' % n)
''', 'a compressed message of more than 65536 octets', 'long compressed messages come back truncated')

S('gcm-iv-counter', 'C10', [('jwe.py', "            _iv = Random.get_random_bytes(12)\n", "            _iv = Random.get_random_bytes(8).rjust(12, b'\\x00')\n")], PRE + '''
from jwkest.jwe import JWE
k = SYMKey(key=b'0123456789abcdef')
ivs = [b64d(JWE('x', alg='A128KW', enc='A128GCM').encrypt([k]).split('.')[2].encode()) for _ in range(8)]
for i in range(12):
    if len(set(v[i] for v in ivs)) == 1: raise SystemExit('octet %d of the IV is constant' % i)
''', 'looking at the initialization vectors of several tokens', 'only 8 of the 12 octets of the IV are random')

S('kdf-rounds', 'C11', [('extra.py', '''    while len(dkm) < dk_bytes:
        counter += 1
        counter_bytes = pack("!I", counter)
''', '''    counter += 1
    counter_bytes = pack("!I", counter)
    while len(dkm) < dk_bytes:
''')], PRE + '''
import hashlib, struct
from jwkest.extra import concat_sha256
for bits in (128, 256, 384, 512):
    want = b''.join(hashlib.sha256(struct.pack('>I', i) + b'Z' * 32 + b'info').digest() for i in (1, 2))[:bits // 8]
    if concat_sha256(b'Z' * 32, bits, b'info') != want: raise SystemExit('wrong key of %d bits' % bits)
''', 'a derived key longer than one hash (A192CBC-HS384, A256CBC-HS512)', 'the counter stays 1 in later rounds, so the key repeats itself')

S('al-16-bits', 'C12', [('extra.py', '''    # MAC A || IV || E || AL
    al = pack("!Q", 8*len(aad))
''', '''    # MAC A || IV || E || AL
    al = pack("!Q", 8*len(aad) & 0xffff)
'''), ('extra.py', '''    # Verify A || IV || E || AL
    al = pack("!Q", 8*len(aad))
''', '''    # Verify A || IV || E || AL
    al = pack("!Q", 8*len(aad) & 0xffff)
''')], PRE + '''
import hashlib, hmac, struct
from jwkest.extra import aes_cbc_hmac_encrypt
key, iv = bytes(range(32)), bytes(16)
for n in (20, 8191, 8192, 10000):
    aad = b'a' * n
    ct, tag = aes_cbc_hmac_encrypt(key, iv, aad, b'text')
    want = hmac.new(key[:16], aad + iv + ct + struct.pack('>Q', 8 * n), hashlib.sha256).digest()[:16]
    if tag != want: raise SystemExit('wrong tag for %d octets of additional data' % n)
''', 'additional data of 8192 octets or more', 'the length in the MAC input wraps at 16 bits')

S('ghash-full-blocks', 'C13', [('aes_gcm.py', '''        if 0 == len_aad % 16:
            data = aad
        else:
            data = aad + b'\\x00' * (16 - len_aad % 16)
''', '''        data = aad + b'\\x00' * (16 - len_aad % 16)
''')], PRE + '''
from jwkest.aes_gcm import AES_GCM
from Cryptodome.Cipher import AES
k = bytes(range(16))
for n in (0, 5, 15, 16, 17, 32, 48):
    c = AES.new(k, AES.MODE_GCM, nonce=b'\\0' * 11 + b'\\1')
    c.update(b'a' * n)
    ct, tag = c.encrypt_and_digest(b'hello')
    if AES_GCM(k).encrypt(1, b'hello', b'a' * n) != (ct, int.from_bytes(tag, 'big')): raise SystemExit('wrong for %d octets' % n)
''', 'additional data of a multiple of 16 octets', 'an extra zero block is authenticated')

S('unwrap-high-half', 'C14', [('aes_key_wrap.py', '''    if key_iv != iv:
''', '''    if key_iv >> 32 != iv >> 32:
''')], PRE + '''
from jwkest.aes_key_wrap import aes_wrap_key, aes_unwrap_key
kek = bytes(16)
w = aes_wrap_key(kek, bytes(range(16)), iv=0xa6a6a6a6a6a6a6a7)
try: aes_unwrap_key(kek, w)
except ValueError: pass
else: raise SystemExit('accepted a wrong integrity value')
''', 'a wrapped key whose integrity value differs from the constant only in its low half', 'half of the integrity value is not checked')

S('addf-double', 'C15', [('elliptic.py', '''            if (s1 + s2) % n:
                return doublef(p, q, n, jp1)
            else:
                return None
    else:
        return jp1 if jp1 else jp2

# explicit''', '''            return None
    else:
        return jp1 if jp1 else jp2

# explicit''')], PRE + '''
from jwkest.ecc import P256
from jwkest.elliptic import mulp, muladdp
G = P256.G
want = mulp(P256.a, P256.b, P256.p, G, 2)
got = muladdp(P256.a, P256.b, P256.p, G, 1, G, 1)
if got != want: raise SystemExit('G + G is not 2G: %r' % (got,))
''', 'adding two equal points that are represented differently, or G + G', 'the sum of two equal points is the identity')

S('b64-pad-guess', 'C16', [('__init__.py', '''    if m == 1:
        # NOTE: for some reason b64decode raises *TypeError* if the
        # padding is incorrect.
        raise BadSyntax(b, "incorrect padding")
    elif m == 2:''', '''    if m == 1:
        b = b[:-1]
    elif m == 2:''')], PRE + '''
for t in (b'a', b'AAAAA', b'AAAAAAAAB'):
    try: r = b64d(t)
    except Exception: continue
    raise SystemExit('%r decoded to %r' % (t, r))
''', 'a text whose length is 1 modulo 4', 'a dangling character is dropped instead of refused')

S('strip-token', 'C17', [('jwt.py', '''    return tuple(token.split(b"."))
''', '''    return tuple(p.strip() for p in token.split(b"."))
''')], PRE + '''
from jwkest.jwt import JWT
t = JWT(alg='none').pack(parts=['a', 'b'])
for bad in (t + '\\n', ' ' + t, t.replace('.', '. ')):
    try: j = JWT().unpack(bad)
    except Exception: continue
    raise SystemExit('%r unpacked, parts %r' % (bad, j.b64part))
''', 'a token with white space around a part', 'encoded parts are not the pieces of the received text')

S('octets-31', 'C18', [('__init__.py', '''    return int(''.join(["%02x" % byte for byte in arr]), 16)
''', '''    return int(''.join(["%02x" % byte for byte in arr[:512]]), 16)
''')], PRE + '''
for n in (1, 2 ** 4095, 2 ** 4096, 2 ** 5000 + 1):
    if base64_to_long(long_to_base64(n)) != n: raise SystemExit('%d bits do not round-trip' % n.bit_length())
''', 'an integer of more than 4096 bits', 'only the first 512 octets are read')

S('kid-ascii', 'C19', [('jwk.py', '''            self.kid = as_unicode(kid)
''', '''            self.kid = kid.decode("ascii", "ignore")
''')], PRE + '''
for kid in ('a', 'sch\\u00fcssel'):
    ks = KEYS()
    ks.load_dict({'keys': [SYMKey(key=b'x' * 16, kid=kid).serialize()]})
    if [k.kid for k in ks] != [kid]: raise SystemExit('kid %r became %r' % (kid, [k.kid for k in ks]))
''', 'a key id with a non-ASCII character, imported through a key set', 'characters of the key id are dropped')

S('public-copy-key', 'C20', [('jwk.py', '''            setattr(c, attr, v)

    return c''', '''            setattr(c, attr, v)

    c.key = key.key
    return c''')], PRE + '''
from Cryptodome.PublicKey import RSA
k = RSAKey(key=RSA.generate(1024))
c = make_public_copy(k)
if c.key is not None and c.key.has_private(): raise SystemExit('the public copy holds the private key')
''', 'a public copy of a private RSA key', 'the copy carries the private key object')

S('eq-missing', 'C21', [('jwk.py', '''                assert getattr(other, key) == getattr(self, key)
''', '''                if getattr(self, key):
                    assert getattr(other, key) == getattr(self, key)
''')], PRE + '''
a, b = SYMKey(key=b'x' * 16), SYMKey(key=b'x' * 16, kid='b')
if a == b or b == a: raise SystemExit('keys with different metadata are equal')
''', 'a key without some metadata compared with one that has it', 'equality ignores metadata missing on the left side')

S('no-duplicates', 'C22', [('jwk.py', '''            self._keys.append(keyrep(kspec))
''', '''            _key = keyrep(kspec)
            if _key not in self._keys:
                self._keys.append(_key)
''')], PRE + '''
k = SYMKey(key=b'x' * 16).serialize()
s = KEYS()
s.load_dict({'keys': [k, k]})
s.load_dict({'keys': [k]})
if len(s) != 3: raise SystemExit('loaded 3 keys, holds %d' % len(s))
''', 'loading the same key twice', 'equal keys are dropped')

S('any-success', 'C23', [('jwk.py', '''        if r.status_code == 200:
            return self.load_jwks(r.text)''', '''        if r.ok:
            return self.load_jwks(r.text)''')], PRE + '''
import jwkest.jwk
class R:
    def __init__(self, s): self.status_code, self.text, self.ok = s, json.dumps({'keys': [SYMKey(key=b'x').serialize()]}), s < 400
for s in (201, 204, 300, 399):
    jwkest.jwk.request = lambda *a, **k: R(s)
    ks = KEYS()
    try: ks.load_from_url('https://example.com/')
    except Exception: pass
    else: raise SystemExit('keys taken from a %d response' % s)
    if len(ks): raise SystemExit('keys added')
''', 'a response that is neither an error nor 200', 'keys are taken from responses other than 200')

S('sha384-boundary', 'C24', [('jwk.py', '''        elif tsize <= 48:''', '''        elif tsize < 48:''')], PRE + '''
import hashlib
k = SYMKey(key=b'secret')
if k.encryption_key(alg='HS384') != hashlib.sha384(b'secret').digest(): raise SystemExit('HS384 key is not the SHA-384 hash')
''', 'a derived key of exactly 48 octets', 'SHA-512 is used for it')

S('x5t-chain', 'C25', [('jwk.py', '''            if self.x5t:  # verify the cert
''', '''            if self.x5t and len(self.x5c) == 1:  # verify the cert
''')], PRE + '''
import base64
from Cryptodome.PublicKey import RSA
from Cryptodome.Util.asn1 import DerSequence
spki = RSA.generate(1024).publickey().export_key('DER')
tbs = DerSequence([1, 2, 3, 4, 5, 6, spki]).encode()
cert = base64.b64encode(DerSequence([tbs, 1, 2]).encode()).decode()
bad = b64e(b'\\0' * 20)
for chain in ([cert], [cert, cert]):
    try: RSAKey(x5c=chain, x5t=bad)
    except DeSerializationNotPossible: continue
    raise SystemExit('chain of %d imported with a wrong thumbprint' % len(chain))
''', 'a chain of two certificates', 'the thumbprint is only compared for chains of one')

S('big-s', 'C26', [('ecc.py', '''        if 0 < r < self.N and 0 < s < self.N:''', '''        if 0 < r < self.N and 0 < s:''')], PRE + '''
from jwkest.ecc import P521
d, q = P521.key_pair()
sig = P521.sign(12345, d)
r, s = sig[:66], int.from_bytes(sig[66:], 'big')
if not P521.verify(12345, sig, q): raise SystemExit('own signature refused')
if P521.verify(12345, r + (s + P521.N).to_bytes(66, 'big'), q): raise SystemExit('s + n accepted')
if P521.verify(12345, r + P521.N.to_bytes(66, 'big'), q): raise SystemExit('s = n accepted')
''', 'a signature whose s is not below the group order', 'a second form of every signature is accepted')
