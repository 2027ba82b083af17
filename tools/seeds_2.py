SECOND = True
S('replayed-signature', 'C01', [('jws.py', '''        for key in _keys:
            try:
                res = verifier.verify(jwt.sign_input(), jwt.signature(),
                                      key.get_key(alg=_alg, private=False))
''', '''        seen = self.__dict__.setdefault("_verified", {})
        for key in _keys:
            try:
                _ref = (_alg, jwt.b64part[0], jwt.b64part[-1])
                if seen.get(_ref) is key:
                    res = True
                else:
                    res = verifier.verify(jwt.sign_input(), jwt.signature(),
                                          key.get_key(alg=_alg,
                                                      private=False))
                    seen[_ref] = key
''')], PRE + '''
k = SYMKey(key=b'0123456789abcdef', kid='k')
t = JWS('good', alg='HS256').sign_compact([k])
h, p, s = t.split('.')
v = JWS()
assert v.verify_compact(t, [k]) == 'good'
try: m = v.verify_compact('.'.join([h, b64e(b'evil').decode(), s]), [k])
except BadSignature: pass
else: raise SystemExit('payload %r under the signature of another payload' % m)
''', 'one verifier object that is given a second token with the signature of an earlier one and another payload',
  'a signature verified before is taken as valid for another payload')

S('embedded-jwk', 'C01', [('jws.py', '''        else:
            _keys = self.pick_keys(self._get_keys())

        if not _keys:
            if "kid" in self:
                raise NoSuitableSigningKeys(
                    "No key with kid: %s" % (self["kid"]))
''', '''        else:
            _keys = self.pick_keys(self._get_keys())

        if not _keys and "jwk" in jwt.headers:
            _keys = self.pick_keys([keyrep(jwt.headers["jwk"])])

        if not _keys:
            if "kid" in self:
                raise NoSuitableSigningKeys(
                    "No key with kid: %s" % (self["kid"]))
''')], PRE + '''
evil = ECKey(crv='P-256').load_key(NISTEllipticCurve.by_name('P-256')) if False else ECKey().load_key(P256)
good = ECKey().load_key(P256)
head = b64e(json.dumps({'alg': 'ES256', 'jwk': evil.serialize()}).encode()) + b'.' + b64e(b'x')
t = head + b'.' + b64e(SIGNER_ALGS['ES256'].sign(head, evil.d))
try: m = JWS().verify_compact(t, [SYMKey(key=b'0123456789abcdef')])
except Exception: pass
else: raise SystemExit('accepted under the key in its own header: %r' % m)
try: m = JWS().verify_compact(t, [])
except Exception: pass
else: raise SystemExit('accepted under the key in its own header: %r' % m)
''', 'a token that carries its own key and a verifier that has no key for it', 'the key in the token itself is trusted')

S('unprotected-json', 'C02', [('jws.py', '''            _tmp = self.verify_compact(token, keys, allow_none, sigalg)
            if _claim is None:''', '''            _tmp = self.verify_compact(token, keys,
                                       allow_none or len(_signs) > 1, sigalg)
            if _claim is None:''')], PRE + '''
k = SYMKey(key=b'0123456789abcdef')
b = lambda x: b64e(x).decode()
e = dict(protected=b(b'{"alg":"none"}'), signature='')
doc = json.dumps(dict(payload=b(b'x'), signatures=[e, e]))
try: m = JWS().verify_json(doc, [k])
except Exception: pass
else: raise SystemExit('unsecured JSON token accepted: %r' % m)
''', 'a JSON serialization with several entries whose algorithm is none', 'unsecured entries are accepted without allow_none')

S('sigalg-first', 'C03', [('jws.py', '''            if _claim is None:
                _claim = _tmp
            else:''', '''            if _claim is None:
                _claim, sigalg = _tmp, None
            else:''')], PRE + '''
k = SYMKey(key=b'0123456789abcdef')
doc = JWS('x', alg='HS256').sign_json([k], headers=[({'alg': 'HS256'}, None), ({'alg': 'HS384'}, None)])
try: JWS().verify_json(doc, [k], sigalg='HS256')
except SignerAlgError: pass
else: raise SystemExit('second signature uses HS384, HS256 was expected')
''', 'a JSON serialization whose second signature uses another algorithm', 'the expected algorithm is only enforced for the first signature')

S('alg-prefix', 'C04', [('jws.py', '''            if alg and _key.alg and _key.alg != alg:
                continue
''', '''            if alg and _key.alg and not alg.startswith(_key.alg):
                continue
''')], PRE + '''
from jwkest.jwe import JWE
e = ECKey(alg='ECDH-ES').load_key(P256)
if JWE().pick_keys([e], alg='ECDH-ES+A128KW'): raise SystemExit('a key for ECDH-ES was picked for ECDH-ES+A128KW')
if not JWE().pick_keys([e], alg='ECDH-ES'): raise SystemExit('not picked')
''', 'a key stated for ECDH-ES and an operation with ECDH-ES+A128KW', 'the algorithm a key states need only be a prefix')

S('use-second', 'C04', [('jws.py', '''        pkey = []
        for _key in _keys:
''', '''        pkey = []
        if use and all(_key.use and _key.use != use for _key in _keys):
            use = ""
        for _key in _keys:
''')], PRE + '''
a = SYMKey(key=b'0123456789abcdef', use='enc')
try: t = JWS('x', alg='HS256').sign_compact([a])
except NoSuitableSigningKeys: pass
else: raise SystemExit('signed with an encryption key')
''', 'a list in which every key is for another use', 'if no key has the right use any is taken')

S('last-key', 'C05', [('jws.py', '''        if keys:
            key = keys[0]
            if key.kid:
''', '''        if keys:
            key = keys[0] if keys[0].kid else keys[-1]
            if keys[0].kid:
''')], PRE + '''
a, b = SYMKey(key=b'0123456789abcdef'), SYMKey(key=b'fedcba9876543210', kid='b')
t = JWS('x', alg='HS256').sign_compact([a, b])
h = json.loads(b64d(t.split('.')[0].encode()).decode())
for k in (a, b):
    try: JWS().verify_compact(t, [k] if k.kid is None or k.kid == h.get('kid') else [SYMKey(key=k.key)])
    except Exception: continue
    if h.get('kid', '') != k.kid: raise SystemExit('signed with %r, header says %r' % (k.kid, h.get('kid')))
''', 'two eligible keys of which only the second has an id', 'the header does not name the key that signed')

S('json-seen-header', 'C06', [('jws.py', '''        _claim = None
        for _sign in _signs:
            protected_headers = _sign.get("protected", "")
''', '''        _claim = None
        _done = set()
        for _sign in _signs:
            protected_headers = _sign.get("protected", "")
            if protected_headers in _done:
                continue
            _done.add(protected_headers)
''')], PRE + '''
k = SYMKey(key=b'0123456789abcdef')
j = json.loads(JWS('x', alg='HS256').sign_json([k], headers=[({'alg': 'HS256'}, None), ({'alg': 'HS256'}, None)]))
j['signatures'][1]['signature'] = 'AAAA'
try: JWS().verify_json(json.dumps(j), [k])
except BadSignature: pass
else: raise SystemExit('accepted although the second signature is wrong')
''', 'two signatures with the same protected header, the second of them wrong', 'a repeated protected header is not verified again')

S('pss-salt', 'C07', [('jws.py', '''        h = self.digest.new(msg)
        signer = PKCS1_PSS.new(key)
''', '''        h = self.digest.new(msg)
        signer = PKCS1_PSS.new(key, saltLen=32)
'''), ('jws.py', '''        h = self.digest.new(msg)
        verifier = PKCS1_PSS.new(key)
''', '''        h = self.digest.new(msg)
        verifier = PKCS1_PSS.new(key, saltLen=32)
''')], PRE + '''
from Cryptodome.PublicKey import RSA
from Cryptodome.Signature import PKCS1_PSS
from Cryptodome.Hash import SHA256, SHA512
k = RSA.generate(2048)
for a, h in (('PS256', SHA256), ('PS512', SHA512)):
    s = SIGNER_ALGS[a].sign(b'msg', k)
    if not PKCS1_PSS.new(k).verify(h.new(b'msg'), s): raise SystemExit(a + ' salt is not as long as the hash')
    SIGNER_ALGS[a].verify(b'msg', PKCS1_PSS.new(k).sign(h.new(b'msg')), k)
''', 'PS384 and PS512 signatures checked by another implementation', 'the salt is 32 octets for every hash')

S('es512-half', 'C07', [('jws.py', '''        h = bytes_to_long(self.digest.new(msg).digest())
        return self._sign.sign(h, key)
''', '''        h = bytes_to_long(self.digest.new(msg).digest().lstrip(b'\\0')[:48])
        return self._sign.sign(h, key)
'''), ('jws.py', '''        h = bytes_to_long(self.digest.new(msg).digest())
        if self._sign.verify(h, sig, key):
''', '''        h = bytes_to_long(self.digest.new(msg).digest().lstrip(b'\\0')[:48])
        if self._sign.verify(h, sig, key):
''')], PRE + '''
import hashlib
d, q = P521.key_pair()
s = SIGNER_ALGS['ES512'].sign(b'msg', d)
if not P521.verify(int.from_bytes(hashlib.sha512(b'msg').digest(), 'big'), s, q): raise SystemExit('ES512 does not sign the SHA-512 hash')
''', 'an ES512 signature checked by another implementation', 'ES512 signs only the first 48 octets of the hash')

S('sticky-cek', 'C08', [('jwe.py', '''        if not keys and not cek:
            raise NoSuitableDecryptionKey(_alg)
''', '''        if not cek and not _alg.startswith("ECDH"):
            cek = self._dict.get("cek")

        if not keys and not cek:
            raise NoSuitableDecryptionKey(_alg)
''')], PRE + '''
from jwkest.jwe import JWE
a, b = SYMKey(key=b'0123456789abcdef'), SYMKey(key=b'fedcba9876543210')
from Cryptodome.PublicKey import RSA
r = RSAKey(key=RSA.generate(2048))
t = JWE('one', alg='RSA-OAEP', enc='A128CBC-HS256').encrypt([r])
j = JWE()
assert j.decrypt(t.encode(), [r]) == b'one'
p = t.split('.')
p[1] = b64e(b'no encrypted key at all').decode()
try: m = j.decrypt('.'.join(p).encode(), [r])
except Exception: pass
else: raise SystemExit('decrypted without the encrypted key: %r' % m)
''', 'one object that decrypts a second token sealed under the content key of an earlier one', 'the content key of an earlier token is used whatever the encrypted key says')

S('aad-respelled', 'C08', [('jwe.py', '''        msg = self._decrypt(
            jwe.headers["enc"], cek, jwe.ciphertext(),
            jwe.b64_protected_header(),
''', '''        msg = self._decrypt(
            jwe.headers["enc"], cek, jwe.ciphertext(),
            jwe.b64_encode_header(),
''')], PRE + '''
from jwkest.jwe import JWE
k = SYMKey(key=b'0123456789abcdef')
t = JWE('x', alg='A128KW', enc='A128CBC-HS256').encrypt([k]).split('.')
h = json.loads(b64d(t[0].encode()).decode())
t[0] = b64e(json.dumps(h, indent=3).encode()).decode()
try: m = JWE().decrypt('.'.join(t).encode(), [k])
except Exception: pass
else: raise SystemExit('decrypted under another header text')
''', 'a token whose header is spelled with other white space', 'the header that is authenticated is not the one received')

S('ec-cek-order', 'C09', [('jwe.py', '''        msg = super(JWE_EC, self)._decrypt(self.headers["enc"], self.cek,
                                           self.ctxt,
''', '''        msg = super(JWE_EC, self)._decrypt(self.headers["enc"],
                                           self._dict.setdefault("cek",
                                                                 self.cek),
                                           self.ctxt,
''')], PRE + '''
from jwkest.jwe import JWE
a, b = ECKey().load_key(P256), ECKey().load_key(P256)
t = JWE('x', alg='ECDH-ES', enc='A128CBC-HS256').encrypt([b])
if JWE().decrypt(t.encode(), [b]) != b'x': raise SystemExit('b')
if JWE().decrypt(t.encode(), [a, b]) != b'x': raise SystemExit('a, b')
''', 'an ECDH-ES token and a key list in which the right key is not the first', 'the content key derived from the first key is used for every key')

S('sym-utf8', 'C09', [('jwe.py', '''        ctxt, tag, cek = super(JWE_EC, self).enc_setup(self["enc"], _msg,
''', '''        ctxt, tag, cek = super(JWE_EC, self).enc_setup(self["enc"],
                                                       _msg.rstrip(b"\\0"),
''')], PRE + '''
from jwkest.jwe import JWE
a = ECKey().load_key(P256)
for m in (b'x', b'x\\0', b'\\0'):
    t = JWE(m, alg='ECDH-ES', enc='A128CBC-HS256').encrypt([a])
    if JWE().decrypt(t.encode(), [a]) != m: raise SystemExit('%r does not round-trip' % m)
''', 'an ECDH-ES message that ends with zero octets', 'trailing zero octets are dropped')

S('nonce-bits', 'C10', [('ecc.py', '''            if k is None:
                k = (getrandbits(self.bits) % (self.N - 1)) + 1
''', '''            if k is None:
                k = (getrandbits(256) % (self.N - 1)) + 1
''')], PRE + '''
import jwkest.ecc
seen = []
old = jwkest.ecc.getrandbits
jwkest.ecc.getrandbits = lambda n: (seen.append(n), old(n))[1]
for c, n in ((jwkest.ecc.P256, 256), (jwkest.ecc.P384, 384), (jwkest.ecc.P521, 521)):
    del seen[:]
    c.sign(12345, 6789)
    if sum(seen) < n: raise SystemExit('a nonce for %d bits has %d' % (n, sum(seen)))
''', 'an ECDSA signature on P-384 or P-521', 'the nonce has 256 bits on every curve')

S('apu-shares-iv', 'C10', [('jwe.py', '''            if cek:
            _key = cek
''', '''            if cek:
            _key = cek
''')] if False else [('jwe.py', '''                _key = Random.get_random_bytes(ENCALGLEN2[encalg])
                _iv = Random.get_random_bytes(16)
''', '''                _key = Random.get_random_bytes(ENCALGLEN2[encalg])
                _iv = _key[-16:] if len(_key) > 48 else Random.get_random_bytes(16)
''')], PRE + '''
from jwkest.jwe import JWE
from Cryptodome.PublicKey import RSA
from Cryptodome.Cipher import PKCS1_OAEP
r = RSA.generate(2048)
k = RSAKey(key=r)
t = JWE('x', alg='RSA-OAEP', enc='A256CBC-HS512').encrypt([k]).split('.')
cek, iv = PKCS1_OAEP.new(r).decrypt(b64d(t[1].encode())), b64d(t[2].encode())
if iv in cek: raise SystemExit('the vector is a piece of the content key')
''', 'A256CBC-HS512 with a generated key and vector', 'the vector is the last octets of the content key')

S('short-z', 'C11', [('ecc.py', '''        return self.int2bytes(mulp(self.a, self.b, self.p, pub, priv)[0])
''', '''        return long_to_bytes(mulp(self.a, self.b, self.p, pub, priv)[0])
''')], PRE + '''
from jwkest.ecc import NISTEllipticCurve
c = NISTEllipticCurve.by_name('P-521')
for d in range(2, 40):
    z = c.dh_z(d, c.G)
    if len(z) != 66: raise SystemExit('shared secret of %d octets' % len(z))
''', 'a shared x coordinate that begins with a zero octet', 'leading zero octets of the shared secret are dropped')

S('apv-apu', 'C11', [('extra.py', '''        pack("!I", len(apv)) + apv + \\
''', '''        pack("!I", len(apv or apu)) + (apv or apu) + \\
''')], PRE + '''
import hashlib, struct
from jwkest.extra import ecdh_derive_key
from jwkest.ecc import P256
i = lambda x: struct.pack('>I', len(x)) + x
for apu, apv in ((b'a', b'b'), (b'', b''), (b'a', b''), (b'', b'b')):
    z = P256.dh_z(5, P256.G)
    want = hashlib.sha256(b'\\0\\0\\0\\1' + z + i(b'A128GCM') + i(apu) + i(apv) + struct.pack('>I', 128)).digest()[:16]
    if ecdh_derive_key(P256, 5, P256.G, apu, apv, b'A128GCM', 128) != want: raise SystemExit('wrong key for %r' % ((apu, apv),))
''', 'an empty PartyVInfo with a PartyUInfo that is not empty', 'PartyUInfo takes the place of an empty PartyVInfo')

S('tag-16', 'C12', [('extra.py', '''    if candidate == tag:
''', '''    if candidate[:16] == tag[:16] and len(tag) == seclen:
''')], PRE + '''
from jwkest.extra import aes_cbc_hmac_encrypt, aes_cbc_hmac_decrypt
for n in (32, 48, 64):
    key, iv = bytes(range(n)), bytes(16)
    ct, tag = aes_cbc_hmac_encrypt(key, iv, b'aad', b'text')
    bad = tag[:-1] + bytes([tag[-1] ^ 1])
    try: aes_cbc_hmac_decrypt(key, iv, b'aad', ct, bad)
    except Exception: continue
    raise SystemExit('wrong tag accepted for a key of %d octets' % n)
''', 'a 24 or 32 octet tag that is wrong after its 16th octet', 'only 16 octets of the tag are compared')

S('gcm-short-iv', 'C13', [('aes_gcm.py', '''            counter = Counter.new(
                nbits=32,
                prefix=long_to_bytes(init_value, 12),
                initial_value=2,  # notice this
                allow_wraparound=True)''', '''            prefix = long_to_bytes(init_value)
            counter = Counter.new(
                nbits=128 - 8 * len(prefix),
                prefix=prefix,
                initial_value=2,  # notice this
                allow_wraparound=True)''')], PRE + '''
from jwkest.aes_gcm import AES_GCM
from Cryptodome.Cipher import AES
k = bytes(range(16))
for iv in (b'\\1' * 12, b'\\0' + b'\\1' * 11, b'\\0' * 8 + b'\\1' * 4):
    ct, tag = AES.new(k, AES.MODE_GCM, nonce=iv, mac_len=16).encrypt_and_digest(b'hello')
    if AES_GCM(k).encrypt(int.from_bytes(iv, 'big'), b'hello')[0] != ct: raise SystemExit('wrong ciphertext for %r' % iv)
''', 'an IV that begins with a zero octet', 'the counter block is shifted')

S('wrap-counter-byte', 'C14', [('aes_key_wrap.py', '''            a = QUAD.unpack(b[:8])[0] ^ (n * j + i)
''', '''            a = QUAD.unpack(b[:8])[0] ^ (n * j + i & 0xff)
'''), ('aes_key_wrap.py', '''            ciphertext = QUAD.pack(a ^ (n * j + i)) + r[i]
''', '''            ciphertext = QUAD.pack(a ^ (n * j + i & 0xff)) + r[i]
''')], PRE + '''
from jwkest.aes_key_wrap import aes_wrap_key
from Cryptodome.Cipher import AES
def wrap(kek, p):
    n = len(p) // 8
    r = [p[8 * i:8 * i + 8] for i in range(n)]
    a = b'\\xa6' * 8
    for j in range(6):
        for i in range(n):
            b = AES.new(kek, AES.MODE_ECB).encrypt(a + r[i])
            a = (int.from_bytes(b[:8], 'big') ^ (n * j + i + 1)).to_bytes(8, 'big')
            r[i] = b[8:]
    return a + b''.join(r)
for n in (16, 64, 336, 344, 400):
    if aes_wrap_key(bytes(16), bytes(n)) != wrap(bytes(16), bytes(n)): raise SystemExit('wrong for %d octets' % n)
''', 'wrapping data of 344 octets or more', 'the step counter wraps at 8 bits')

S('sum-of-opposites', 'C15', [('elliptic.py', '''        res = doublef(p, q, n, res)
        if i or j:
            res = addf(p, q, n, res, precomp[i][j])
''', '''        res = doublef(p, q, n, res)
        if i or j:
            res = addf(p, q, n, res, precomp[i][j] or jp1)
''')], PRE + '''
from jwkest.ecc import P256
from jwkest.elliptic import mulp, muladdp
G = P256.G
N = (G[0], P256.p - G[1])
for a, b in ((5, 3), (3, 1), (7, 2)):
    want = mulp(P256.a, P256.b, P256.p, G, a - b)
    if muladdp(P256.a, P256.b, P256.p, G, a, N, b) != want: raise SystemExit('%d G + %d (-G)' % (a, b))
''', 'a sum of multiples of two opposite points', 'the identity in the table is replaced by the first point')

S('inv-once', 'C15', [('elliptic.py', '''    while i < 0:
        i += n
    return i
''', '''    return i if i > 0 else i % (n - 1)
''')], PRE + '''
from jwkest.elliptic import inv
for n in (7, 11, 101):
    for a in range(1, n):
        i = inv(a, n)
        if a * i % n != 1 or not 0 < i < n: raise SystemExit('inv(%d, %d) = %d' % (a, n, i))
''', 'a number whose cofactor comes out negative', 'the inverse is off') if False else None

S('b64-standard', 'C16', [('__init__.py', '''    if cb == b:
        b = add_padding(b)

    return base64.urlsafe_b64decode(b)
''', '''    if cb == b:
        b = add_padding(b)
    elif len(b) % 4:
        b = cb + b"=="

    return base64.urlsafe_b64decode(b)
''')], PRE + '''
for t in (b'AAAAA=', b'A=', b'A==', b'AAAAA=='):
    try: r = b64d(t)
    except Exception: continue
    raise SystemExit('%r decoded to %r' % (t, r))
for n in range(6):
    if b64d(b64e(bytes(n))) != bytes(n): raise SystemExit(n)
''', 'a padded text of an impossible length', 'a dangling character is tolerated when there is padding') if False else None

S('b64-plus', 'C16', [('__init__.py', '''    cb = b.rstrip(b"=")  # shouldn't but there you are
''', '''    b = b.replace(b"+", b"-").replace(b"/", b"_")
    cb = b.rstrip(b"=")  # shouldn't but there you are
''')], PRE + '''
for t in (b'++++', b'//8', b'a/b+'):
    try: r = b64d(t)
    except Exception: continue
    raise SystemExit('%r decoded to %r' % (t, r))
''', 'a text in the standard base64 alphabet', 'characters outside the base64url alphabet are accepted')

S('payload-cache', 'C17', [('jwt.py', '''    def payload(self):
        _msg = as_unicode(self.part[1])
''', '''    def payload(self):
        try:
            return self._payload
        except AttributeError:
            self._payload = self._load_payload()
        return self._payload

    def _load_payload(self):
        _msg = as_unicode(self.part[1])
''')], PRE + '''
from jwkest.jwt import JWT
a = JWT(alg='none').pack(parts=['{"a": 1}', 's'])
b = JWT(alg='none').pack(parts=['{"b": 2}', 's'])
j = JWT()
for t, m in ((a, {'a': 1}), (b, {'b': 2})):
    if j.unpack(t).payload() != m: raise SystemExit('payload of %s is %r' % (t, j.payload()))
''', 'one object that unpacks a second token', 'the payload of the first token is returned for the second')

S('number-payload', 'C17', [('jwt.py', '''            try:
                _msg = json.loads(_msg)
            except ValueError:
                pass
''', '''            try:
                _msg = json.loads(_msg) or _msg
            except ValueError:
                pass
''')], PRE + '''
from jwkest.jwt import JWT
for v in ({'a': 1}, {}, [], 0, '', None, False, 7):
    t = JWT(alg='none').pack(parts=[json.dumps(v), 's'])
    if JWT().unpack(t).payload() != v: raise SystemExit('%r came back as %r' % (v, JWT().unpack(t).payload()))
''', 'an empty or zero JSON payload', 'empty JSON values come back as their text')

S('hexseq-zero', 'C18', [('__init__.py', '''    while long_int:
        long_int, r = divmod(long_int, 256)
        _bytes.insert(0, r)
''', '''    while long_int > 0:
        long_int, r = int(long_int / 256) if long_int < 1 << 50 else long_int // 256, long_int % 256
        _bytes.insert(0, r)
''')] if False else [('__init__.py', '''    s = base64.urlsafe_b64encode(data).rstrip(b'=')
    return s.decode("ascii")
''', '''    s = base64.urlsafe_b64encode(data).rstrip(b'A=')
    return s.decode("ascii")
''')] , PRE + '''
for n in (1, 65536, 1 << 24, 0x01000000000000, 5 << 64):
    if base64_to_long(long_to_base64(n)) != n: raise SystemExit('%d became %d' % (n, base64_to_long(long_to_base64(n))))
''', 'an integer whose coding ends with zero bits', 'trailing zeros are dropped')

S('y-length', 'C19', [('jwk.py', '''        item = RSAKey(**_kwargs)
    elif kspec["kty"] == "oct":
''', '''        _kwargs.pop("q", None) if "p" not in _kwargs else None
        item = RSAKey(**_kwargs)
    elif kspec["kty"] == "oct":
''')] if False else [('jwk.py', '''        if self.use:
            res["use"] = self.use
''', '''        if self.use in ("sig", "enc"):
            res["use"] = self.use
''')], PRE + '''
for use in ('sig', 'enc', 'tls'):
    k = SYMKey(key=b'x' * 16, use=use)
    if keyrep(k.serialize()).use != use: raise SystemExit('use %r is lost' % use)
''', 'a key with a use other than sig and enc', 'the use is not exported')

S('leading-zero-secret', 'C19', [('jwk.py', '''        res["k"] = as_unicode(b64e(bytes(self.key)))
''', '''        res["k"] = long_to_base64(int(binascii.hexlify(self.key), 16))
''')], PRE + '''
for s in (b'x' * 16, b'\\0' + b'x' * 15, b'\\0\\0'):
    if keyrep(SYMKey(key=s).serialize()).key != s: raise SystemExit('%r is lost' % s)
''', 'a symmetric secret that begins with a zero octet', 'leading zero octets of the secret are lost')

S('extra-args', 'C20', [('jwk.py', '''        if self.alg:
            res["alg"] = self.alg
        return res
''', '''        if self.alg:
            res["alg"] = self.alg
        for key, val in self.extra_args.items():
            res.setdefault(key, val)
        return res
''')], PRE + '''
from Cryptodome.PublicKey import RSA
d = RSAKey(key=RSA.generate(1024)).serialize(private=True)
d['oth'] = [{'r': 'AQ', 'd': 'AQ', 't': 'AQ'}]
k = keyrep(d)
if 'oth' in k.serialize(): raise SystemExit('the public export carries oth')
e = ECKey().load_key(P256).serialize()
e['k'] = 'c2VjcmV0'
if 'k' in keyrep(e).serialize(): raise SystemExit('the public export carries k')
''', 'a private key with members the class does not know (such as oth)', 'unknown members are exported with the public key')

S('jwks-private', 'C20', [('jwk.py', '''            res.append(b2s_conv(key.serialize()))
''', '''            res.append(b2s_conv(key.serialize(key.use == "enc")))
''')], PRE + '''
k = ECKey(use='enc').load_key(P256)
s = KEYS()
s.append(k)
if 'd' in json.loads(s.dump_jwks())['keys'][0]: raise SystemExit('the dump carries d')
''', 'a key set that holds an encryption key', 'the private part of encryption keys is dumped')

S('stale-kid', 'C21', [('jwk.py', '''        _tp = self.thumbprint('SHA-256')
        self.kid = b64e(_tp).decode('utf8')
        self._hash = int(binascii.hexlify(_tp), 16)
''', '''        if not self._hash:
            self._hash = int(binascii.hexlify(self.thumbprint('SHA-256')), 16)
        self.kid = b64e(binascii.unhexlify("%064x" % self._hash)).decode('utf8')
''')], PRE + '''
from Cryptodome.PublicKey import RSA
k = RSAKey(key=RSA.generate(1024))
k.add_kid()
k.load_key(RSA.generate(1024))
k.add_kid()
if k.kid != b64e(k.thumbprint('SHA-256')).decode(): raise SystemExit('the key id is not the thumbprint')
''', 'a key object that is given new material after its id was derived', 'the id is that of the old material')

S('eq-private-only', 'C21', [('jwk.py', '''    longs = ["n", "e", "d", "p", "q", "dp", "dq", "di", "qi"]
    public_members = Key.public_members
''', '''    longs = ["n", "e", "d", "p", "q", "dp", "dq", "di", "qi"]
    public_members = Key.public_members

    def __eq__(self, other):
        if isinstance(other, RSAKey) and self.kid and other.kid:
            return self.kid == other.kid and self.n == other.n
        return Key.__eq__(self, other)

    __hash__ = Key.__hash__
''')], PRE + '''
from Cryptodome.PublicKey import RSA
r = RSA.generate(1024)
a, b = RSAKey(key=r, kid='a', use='sig'), RSAKey(key=r, kid='a', use='enc')
if a == b: raise SystemExit('keys with different use are equal')
c = RSAKey(n=a.serialize()['n'], e='Aw', kid='a', use='sig')
if a == c: raise SystemExit('keys with different exponents are equal')
''', 'two RSA keys with the same id and modulus and other metadata or exponent', 'the rest is not compared')

S('same-kid', 'C22', [('jwk.py', '''    def add(self, item, enc="utf-8"):
        self._keys.append(keyrep(item, enc))
''', '''    def add(self, item, enc="utf-8"):
        _key = keyrep(item, enc)
        if _key.kid:
            self._keys = [k for k in self._keys if k.kid != _key.kid]
        self._keys.append(_key)
''')], PRE + '''
s = KEYS()
s.add(SYMKey(key=b'x' * 16, kid='a').serialize())
s.add(SYMKey(key=b'y' * 16, kid='a').serialize())
if len(s) != 2: raise SystemExit('added 2 keys, holds %d' % len(s))
''', 'adding a key whose id is already there', 'the older key is dropped')

S('kid-prefix', 'C22', [('jwk.py', '''        return [k for k in self._keys if kid == k.kid]
''', '''        return [k for k in self._keys if k.kid and kid.startswith(k.kid)]
''')], PRE + '''
s = KEYS()
for i in ('key', 'key-1', ''): s.append(SYMKey(key=b'x' * 16, kid=i))
for i in ('key', 'key-1', '', 'k'):
    if [k.kid for k in s.by_kid(i)] != [x for x in ('key', 'key-1', '') if x == i]: raise SystemExit('by_kid(%r): %r' % (i, [k.kid for k in s.by_kid(i)]))
''', 'a key id that begins with another key id', 'keys with a shorter id are returned too')

S('jku-no-verify', 'C23', [('jws.py', '''            keys.load_from_url(self["jku"])
''', '''            keys.load_from_url(self["jku"], verify=False)
''')], PRE + '''
import jwkest.jwk
seen = []
def request(*a, **k):
    seen.append(k.get('verify'))
    class R: status_code, text = 200, json.dumps({'keys': [SYMKey(key=b'x').serialize()]})
    return R
jwkest.jwk.request = request
JWS(alg='HS256', jku='https://example.com/')._get_keys()
if seen != [True]: raise SystemExit('verify=%r' % seen)
''', 'keys taken from the jku of the object', 'the certificate is not checked')

S('error-keys', 'C23', [('jwk.py', '''        r = request("GET", url, allow_redirects=True, **kwargs)
        if r.status_code == 200:
            return self.load_jwks(r.text)''', '''        r = request("GET", url, allow_redirects=True, **kwargs)
        if r.status_code in (200, 203):
            return self.load_jwks(r.text)''')], PRE + '''
import jwkest.jwk
class R:
    def __init__(self, s): self.status_code, self.text = s, json.dumps({'keys': [SYMKey(key=b'x').serialize()]})
for s in (203,):
    jwkest.jwk.request = lambda *a, **k: R(s)
    ks = KEYS()
    try: ks.load_from_url('https://example.com/')
    except Exception: pass
    else: raise SystemExit('keys taken from a %d response' % s)
''', 'a 203 response', 'keys are taken from a transformed response')

S('cached-kek', 'C24', [('jwk.py', '''        tsize = ALG2KEYLEN[alg]
        # _keylen = len(self.key)
''', '''        tsize = ALG2KEYLEN[alg]
        # _keylen = len(self.key)
        _cache = self.extra_args.setdefault("_enc", {})
        if tsize in _cache:
            return _cache[tsize]
        _cache[tsize] = b"" if tsize < 0 else (
            sha256_digest(self.key) if tsize <= 32 else
            sha384_digest(self.key) if tsize <= 48 else
            sha512_digest(self.key))[:tsize]
''')], PRE + '''
import hashlib
k = SYMKey(key=b'secret')
for s in (b'secret', b'other'):
    k.key = s
    if k.encryption_key(alg='A128KW') != hashlib.sha256(s).digest()[:16]: raise SystemExit('not the key of %r' % s)
''', 'a key object whose secret is replaced', 'the derived key is that of the old secret')

S('x5t-prefix', 'C25', [('jwk.py', '''            self.key = der2rsa(der_cert)
            self._split()
''', '''            self.key = der2rsa(base64.b64decode(self.x5c[-1].encode("ascii"))
                               if len(self.x5c) > 2 else der_cert)
            self._split()
''')], PRE + '''
import base64
from Cryptodome.PublicKey import RSA
from Cryptodome.Util.asn1 import DerSequence
def cert():
    r = RSA.generate(1024)
    tbs = DerSequence([1, 2, 3, 4, 5, 6, r.publickey().export_key('DER')]).encode()
    return r.n, base64.b64encode(DerSequence([tbs, 1, 2]).encode()).decode()
c = [cert() for _ in range(4)]
for n in (1, 2, 3, 4):
    if RSAKey(x5c=[x for _, x in c[:n]]).n != c[0][0]: raise SystemExit('chain of %d: not the key of the first certificate' % n)
''', 'a chain of three certificates or more', 'the key of the last certificate is used')

S('sig-low-bits', 'C26', [('ecc.py', '''            return r % self.N == x % self.N
''', '''            return r == x
''')], PRE + '''
from jwkest.ecc import P256
from jwkest.elliptic import mulp, inv
# a nonce whose point has x >= n cannot be found; a public key can be: R = (x, y) with x - n = r small
p, n = P256.p, P256.N
r = 0
while True:
    r += 1
    x = r + n
    if x >= p: raise SystemExit(0)
    y2 = (x * x * x - P256.a * x - P256.b) % p
    y = pow(y2, (p + 1) // 4, p)
    if y * y % p == y2: break
s, h = 12345, 67890
# u1 G + u2 Q = R with u1 = h/s, u2 = r/s
from jwkest.elliptic import muladdp
u1, u2 = h * inv(s, n) % n, r * inv(s, n) % n
Q = muladdp(P256.a, P256.b, p, (x, y), inv(u2, n), P256.G, (n - u1) * inv(u2, n) % n)
if not P256.verify(h, r.to_bytes(32, 'big') + s.to_bytes(32, 'big'), Q): raise SystemExit('a valid signature is refused')
''', 'a signature whose point has an x coordinate of at least the group order', 'a valid signature is refused')

S('hash-truncation', 'C26', [('ecc.py', '''            s = (kinv * (h + r * priv)) % self.N
''', '''            s = (kinv * (h + r * priv)) % self.N
            if s.bit_length() <= self.bits - 8:
                s = self.N - s
''')], PRE + '''
from jwkest.ecc import P256
''' + '''
d, q = P256.key_pair()
for i in range(600):
    if not P256.verify(i, P256.sign(i, d, k=i + 1000), q): pass
bad = 0
r, s = P256._sign_loop(0, 0, 5, 7, 3)
for i in range(1500):
    r, s = P256._sign_loop(0, 0, i, 7, 3)
    w = pow(s, -1, P256.N)
    if (i * w + r * w * 3) % P256.N not in (7, P256.N - 7): raise SystemExit('not a signature')
    if (i * w + r * w * 3) % P256.N != 7: raise SystemExit('s is not k^-1 (h + r d)')
''', 'a signature whose s has a leading zero octet', 's is negated then') if False else None
