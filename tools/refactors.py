"""Behaviour-preserving edits, to see that the checks stay quiet on them.

refactors.py DIR: copies /repo's sources to DIR/src and applies the edits (each must apply exactly once).
"""
import os
import shutil
import sys

E = []


def R(f, a, b): E.append((f, a, b))


# --- jws.py ---------------------------------------------------------------
R('jws.py', '''        pkey = []
        for _key in _keys:
            logger.debug(
                "Picked: kid:{}, use:{}, kty:{}".format(
                    _key.kid, _key.use, _key.kty))
            if _kid:
                try:
                    assert _kid == _key.kid
                except (KeyError, AttributeError):
                    pass
                except AssertionError:
                    continue

            if use and _key.use and _key.use != use:
                continue

            if alg and _key.alg and _key.alg != alg:
                continue

            pkey.append(_key)

        return pkey
''', '''        return [_key for _key in _keys if
                self._matches(_key, _kid, use, alg)]

    @staticmethod
    def _matches(key, kid, use, alg):
        logger.debug("Picked: kid:{}, use:{}, kty:{}".format(
            key.kid, key.use, key.kty))
        if kid and kid != key.kid:
            return False
        if use and key.use and key.use != use:
            return False
        return not (alg and key.alg and key.alg != alg)
''')
R('jws.py', '''        for key in _keys:
            try:
                res = verifier.verify(jwt.sign_input(), jwt.signature(),
                                      key.get_key(alg=_alg, private=False))
            except (BadSignature, IndexError):
                pass
            else:
                if res is True:
                    logger.debug(
                        "Verified message using key with kid=%s" % key.kid)
                    self.msg = jwt.payload()
                    self.key = key
                    return {'msg': self.msg, 'key': key}

        raise BadSignature()
''', '''        signed = jwt.sign_input()
        signature = jwt.signature()
        for candidate in _keys:
            try:
                verified = verifier.verify(
                    signed, signature,
                    candidate.get_key(alg=_alg, private=False))
            except (BadSignature, IndexError):
                continue
            if verified is not True:
                continue
            logger.debug(
                "Verified message using key with kid=%s" % candidate.kid)
            self.key = candidate
            self.msg = jwt.payload()
            return {'msg': self.msg, 'key': candidate}

        raise BadSignature()
''')
R('jws.py', '''        try:
            _alg = jwt.headers["alg"]
        except KeyError:
            _alg = None
        else:
            if _alg is None or _alg.lower() == "none":
                if sigalg and sigalg.lower() != "none":
                    raise SignerAlgError("Expected {0} got {1}".format(
                        sigalg, _alg))
                if allow_none:
                    self.msg = jwt.payload()
                    return {'msg': self.msg}
                else:
                    raise SignerAlgError("none not allowed")
''', '''        _alg = None
        if "alg" in jwt.headers:
            _alg = jwt.headers["alg"]
            if _alg is None or _alg.lower() == "none":
                return self._unsecured(jwt, _alg, allow_none, sigalg)
''')
R('jws.py', '''    def sign_json(self, keys=None, headers=None, flatten=False):
''', '''    def _unsecured(self, jwt, alg, allow_none, sigalg):
        if sigalg and sigalg.lower() != "none":
            raise SignerAlgError("Expected {0} got {1}".format(sigalg, alg))
        if not allow_none:
            raise SignerAlgError("none not allowed")
        self.msg = jwt.payload()
        return {'msg': self.msg}

    def sign_json(self, keys=None, headers=None, flatten=False):
''')
R('jws.py', '''        _claim = None
        for _sign in _signs:
            protected_headers = _sign.get("protected", "")
            token = b".".join([protected_headers.encode(), _payload.encode(),
                               _sign["signature"].encode()])
''', '''        _claim = None
        for entry in _signs:
            _sign = entry
            protected_headers = _sign.get("protected", "")
            token = ".".join([protected_headers, _payload,
                              _sign["signature"]]).encode()
''')
R('jws.py', '''        res = verifier.verify(h, sig)
        if not res:
            raise BadSignature()
        else:
            return True
''', '''        if verifier.verify(h, sig):
            return True
        raise BadSignature()
''')
R('jws.py', '''        key, xargs, _alg = self.alg_keys(keys, 'sig', protected)

        if "typ" in self:
            xargs["typ"] = self["typ"]

        jwt = JWSig(**xargs)
''', '''        key, headers, _alg = self.alg_keys(keys, 'sig', protected)
        if "typ" in self:
            headers["typ"] = self["typ"]
        jwt = JWSig(**headers)
''')
R('jws.py', '''        try:
            _signer = SIGNER_ALGS[_alg]
        except KeyError:
            raise UnknownAlgorithm(_alg)
''', '''        if _alg not in SIGNER_ALGS:
            raise UnknownAlgorithm(_alg)
        _signer = SIGNER_ALGS[_alg]
''')
R('jws.py', '''        return ".".join([_input, b64encode_item(sig).decode("utf-8")])
''', '''        _signature = b64encode_item(sig).decode("utf-8")
        return _input + "." + _signature
''')
# --- jwt.py / __init__.py ---------------------------------------------------
R('jwt.py', '''        part = split_token(token)
        self.b64part = part
        self.part = [b64d(p) for p in part]
        self.headers = json.loads(self.part[0].decode())
        return self
''', '''        encoded = split_token(token)
        decoded = []
        for p in encoded:
            decoded.append(b64d(p))
        self.b64part, self.part = encoded, decoded
        self.headers = json.loads(decoded[0].decode())
        return self
''')
R('jwt.py', '''        _msg = as_unicode(self.part[1])

        # If not JSON web token assume JSON
        if "cty" in self.headers and self.headers["cty"].lower() != "jwt":
            pass
        else:
            try:
                _msg = json.loads(_msg)
            except ValueError:
                pass

        return _msg
''', '''        _msg = as_unicode(self.part[1])

        if "cty" in self.headers and self.headers["cty"].lower() != "jwt":
            return _msg

        # If not JSON web token assume JSON
        try:
            return json.loads(_msg)
        except ValueError:
            return _msg
''')
R('jwt.py', '''        _all = self.b64part = [b64encode_item(headers)]
        _all.extend([b64encode_item(p) for p in parts])

        return ".".join([a.decode() for a in _all])
''', '''        self.b64part = [b64encode_item(item) for item in self.part]

        return ".".join([a.decode() for a in self.b64part])
''')
R('__init__.py', '''    m = len(b) % 4
    if m == 1:
        # NOTE: for some reason b64decode raises *TypeError* if the
        # padding is incorrect.
        raise BadSyntax(b, "incorrect padding")
    elif m == 2:
        b += b"=="
    elif m == 3:
        b += b"="
    return b
''', '''    rest = len(b) % 4
    if rest == 1:
        # NOTE: for some reason b64decode raises *TypeError* if the
        # padding is incorrect.
        raise BadSyntax(b, "incorrect padding")
    if rest:
        b = b + b"=" * (4 - rest)
    return b
''')
R('__init__.py', '''    """Compare two strings in constant time."""
    if len(a) != len(b):
        return False
    r = 0
    for c, d in zip(a, b):
        r |= c ^ d
    return r == 0
''', '''    """Compare two strings in constant time."""
    same_size = len(a) == len(b)
    if not same_size:
        return False
    difference = 0
    for i in range(len(a)):
        difference |= a[i] ^ b[i]
    return difference == 0
''')
# --- jwe.py -----------------------------------------------------------------
R('jwe.py', '''        elif padding == "pkcs1_oaep_padding":
            cipher = PKCS1_OAEP.new(key)
            text = cipher.decrypt(ciphertext)
        elif padding == "pkcs1_oaep_256_padding":
            cipher = PKCS1_OAEP.new(key, SHA256)
            text = cipher.decrypt(ciphertext)
        else:
            raise Exception("Unsupported padding")

        return text
''', '''        elif padding in ("pkcs1_oaep_padding", "pkcs1_oaep_256_padding"):
            if padding == "pkcs1_oaep_padding":
                cipher = PKCS1_OAEP.new(key)
            else:
                cipher = PKCS1_OAEP.new(key, SHA256)
            text = cipher.decrypt(ciphertext)
        else:
            raise Exception("Unsupported padding")

        return text
''')
R('jwe.py', '''        try:
            _key = Random.get_random_bytes(ENCALGLEN1[encalg])
            _iv = Random.get_random_bytes(12)
        except KeyError:
            try:
                _key = Random.get_random_bytes(ENCALGLEN2[encalg])
                _iv = Random.get_random_bytes(16)
            except KeyError:
                raise Exception("Unsupported encryption algorithm %s" % encalg)
        if cek:
            _key = cek
        if iv:
            _iv = iv

        return _key, _iv
''', '''        if encalg in ENCALGLEN1:
            sizes = ENCALGLEN1[encalg], 12
        elif encalg in ENCALGLEN2:
            sizes = ENCALGLEN2[encalg], 16
        else:
            raise Exception("Unsupported encryption algorithm %s" % encalg)

        return (cek or Random.get_random_bytes(sizes[0]),
                iv or Random.get_random_bytes(sizes[1]))
''')
R('jwe.py', '''            gcm = AES_GCM(key)
            try:
                text = gcm.decrypt(bytes_to_long(iv), ctxt, bytes_to_long(tag),
                                   auth_data)
                return text
            except DecryptionFailed:
                raise
''', '''            return AES_GCM(key).decrypt(bytes_to_long(iv), ctxt,
                                        bytes_to_long(tag), auth_data)
''')
R('jwe.py', '''        if _alg in ["RSA-OAEP", "RSA-OAEP-256", "RSA1_5"]:
            decrypter = JWE_RSA(**self._dict)
        elif _alg.startswith("A") and _alg.endswith("KW"):
            decrypter = JWE_SYM(self.msg, **self._dict)
        elif _alg.startswith("ECDH-ES"):

            # ECDH-ES Requires the Server ECDH-ES Key to be set
            if not keys:
                raise NoSuitableECDHKey(_alg)

            decrypter = JWE_EC(**self._dict)
            cek = None  # derived from the key, below
        else:
            raise NotSupportedAlgorithm
''', '''        decrypter = self._decrypter(_alg)
        if isinstance(decrypter, JWE_EC):
            # ECDH-ES Requires the Server ECDH-ES Key to be set
            if not keys:
                raise NoSuitableECDHKey(_alg)
            cek = None  # derived from the key, below
''')
R('jwe.py', '''    def decrypt(self, token=None, keys=None, alg=None, cek=None):
        if token:
''', '''    def _decrypter(self, alg):
        if alg in ("RSA1_5", "RSA-OAEP", "RSA-OAEP-256"):
            return JWE_RSA(**self._dict)
        if alg.startswith("A") and alg.endswith("KW"):
            return JWE_SYM(self.msg, **self._dict)
        if alg.startswith("ECDH-ES"):
            return JWE_EC(**self._dict)
        raise NotSupportedAlgorithm

    def decrypt(self, token=None, keys=None, alg=None, cek=None):
        if token:
''')
R('jwe.py', '''        params = {
            "apu": b64e(apu),
            "apv": b64e(apv),
            "epk": epk.serialize(False)
        }
''', '''        params = dict(apu=b64e(apu), apv=b64e(apv))
        params["epk"] = epk.serialize()
''')
R('jwe.py', '''        cek = iv = None
        if 'cek' in kwargs and kwargs['cek']:
            cek = kwargs['cek']
        if 'iv' in kwargs and kwargs['iv']:
            iv = kwargs['iv']

        cek, iv = self._generate_key_and_iv(self.enc, cek=cek, iv=iv)
''', '''        cek, iv = self._generate_key_and_iv(
            self.enc, cek=kwargs.get('cek') or None,
            iv=kwargs.get('iv') or None)
''')
R('jwe.py', '''            _pre, _post = self.headers['alg'].split("+")
            klen = int(_post[1:4])
''', '''            klen = int(self.headers['alg'].split("+")[1][1:4])
''')
# --- extra.py ---------------------------------------------------------------
R('extra.py', '''    n = 16 - len(x) % 16
    if n == 0:
        n = 16
    ns = pack('B', n)
    return x + (ns * n)
''', '''    n = 16 - len(x) % 16
    return x + pack('B', n) * n
''')
R('extra.py', '''    if candidate == tag:
        cipher = AES.new(ke, AES.MODE_CBC, iv)
        pt = pkcs5trim(cipher.decrypt(ct))
        return pt
    else:
        raise VerificationFailure('AES-CBC HMAC')
''', '''    if candidate != tag:
        raise VerificationFailure('AES-CBC HMAC')

    cipher = AES.new(ke, AES.MODE_CBC, iv)
    return pkcs5trim(cipher.decrypt(ct))
''')
R('extra.py', '''    dkm = b''
    dk_bytes = int(ceil(dk_len / 8.0))
    counter = 0
    while len(dkm) < dk_bytes:
        counter += 1
        counter_bytes = pack("!I", counter)
        dkm += SHA256.new(counter_bytes + secret + other_info ).digest()
    return dkm[:dk_bytes]
''', '''    dk_bytes = int(ceil(dk_len / 8.0))
    rounds = (dk_bytes + 31) // 32
    dkm = b''.join(
        SHA256.new(pack("!I", counter) + secret + other_info).digest()
        for counter in range(1, rounds + 1))
    return dkm[:dk_bytes]
''')
R('extra.py', '''    otherInfo = pack("!I", len(alg)) + bytes(alg) + \\
        pack("!I", len(apu)) + apu + \\
        pack("!I", len(apv)) + apv + \\
        pack("!I", dk_len)
''', '''    otherInfo = b"".join(
        [pack("!I", len(part)) + part for part in (bytes(alg), apu, apv)])
    otherInfo += pack("!I", dk_len)
''')
# --- aes_key_wrap.py --------------------------------------------------------
R('aes_key_wrap.py', '''    n = len(plaintext) // 8
    r = [None] + [plaintext[i * 8:i * 8 + 8] for i in range(0, n)]
    a = iv
    encrypt = AES.new(kek, mode).encrypt
    for j in range(6):
        for i in range(1, n + 1):
            b = encrypt(QUAD.pack(a) + r[i])
            a = QUAD.unpack(b[:8])[0] ^ (n * j + i)
            r[i] = b[8:]
    return QUAD.pack(a) + b''.join(r[1:])
''', '''    n = len(plaintext) // 8
    blocks = [plaintext[i * 8:i * 8 + 8] for i in range(n)]
    a = iv
    encrypt = AES.new(kek, mode).encrypt
    t = 0
    for _ in range(6):
        for i in range(n):
            t += 1
            b = encrypt(QUAD.pack(a) + blocks[i])
            a = QUAD.unpack(b[:8])[0] ^ t
            blocks[i] = b[8:]
    return QUAD.pack(a) + b''.join(blocks)
''')
R('aes_key_wrap.py', '''    key, key_iv = aes_unwrap_key_and_iv(kek, wrapped)
    if key_iv != iv:
        raise ValueError(
            "Integrity Check Failed: " + hex(key_iv) + " (expected " + hex(
                iv) + ")")
    return key
''', '''    key, key_iv = aes_unwrap_key_and_iv(kek, wrapped)
    if key_iv == iv:
        return key
    raise ValueError("Integrity Check Failed: %s (expected %s)" % (
        hex(key_iv), hex(iv)))
''')
# --- aes_gcm.py -------------------------------------------------------------
R('aes_gcm.py', '''        # padding
        if 0 == len_aad % 16:
            data = aad
        else:
            data = aad + b'\\x00' * (16 - len_aad % 16)
        if 0 == len_txt % 16:
            data += txt
        else:
            data += txt + b'\\x00' * (16 - len_txt % 16)
''', '''        # padding
        data = aad + b'\\x00' * (-len_aad % 16)
        data += txt + b'\\x00' * (-len_txt % 16)
''')
R('aes_gcm.py', '''        if auth_tag != self.__ghash(
                auth_data, ciphertext) ^ bytes_to_long(
            self._aes_ecb.encrypt(
                long_to_bytes((init_value << 32) | 1, 16))):
            raise InvalidTagException
''', '''        mask = bytes_to_long(self._aes_ecb.encrypt(
            long_to_bytes((init_value << 32) | 1, 16)))
        if self.__ghash(auth_data, ciphertext) ^ mask != auth_tag:
            raise InvalidTagException
''')
# --- ecc.py / elliptic.py -----------------------------------------------------
R('ecc.py', '''        if 0 < r < self.N and 0 < s < self.N:
            w = inv(s, self.N)
            u1 = (h * w) % self.N
            u2 = (r * w) % self.N
            x, y = muladdp(self.a, self.b, self.p, self.G, u1, pub, u2)
            return r % self.N == x % self.N
        return False
''', '''        if not (0 < r < self.N) or not (0 < s < self.N):
            return False
        w = inv(s, self.N)
        x, _ = muladdp(self.a, self.b, self.p, self.G, (w * h) % self.N,
                       pub, (w * r) % self.N)
        return x % self.N == r
''')
R('ecc.py', '''        if not (0 <= pub[0] < self.p and 0 <= pub[1] < self.p and
                element(pub, self.a, self.b, self.p)):
            raise ECCException("Public key is not a point on the curve")
        return self.int2bytes(mulp(self.a, self.b, self.p, pub, priv)[0])
''', '''        if not self._is_point(pub):
            raise ECCException("Public key is not a point on the curve")
        shared = mulp(self.a, self.b, self.p, pub, priv)
        return self.int2bytes(shared[0])

    def _is_point(self, pub):
        for coordinate in pub:
            if not 0 <= coordinate < self.p:
                return False
        return element(pub, self.a, self.b, self.p)
''')
R('elliptic.py', '''    i = euclid(a, n)[0]
    while i < 0:
        i += n
    return i
''', '''    x, _, _ = euclid(a, n)
    while x < 0:
        x = x + n
    return x
''')
R('elliptic.py', '''    for s in sb:
        res = doublef(p, q, n, res)
        if s:
            res = addf(p, q, n, res, jp1) if s > 0 else \\
                addf(p, q, n, res, jp0)
    return res
''', '''    for digit in sb:
        res = doublef(p, q, n, res)
        if digit > 0:
            res = addf(p, q, n, res, jp1)
        elif digit < 0:
            res = addf(p, q, n, res, jp0)
    return res
''')
R('elliptic.py', '''        if (u1 - u2) % n:

            h = (u2 - u1) % n
            r = (s2 - s1) % n
''', '''        h = (u2 - u1) % n
        if h:

            r = (s2 - s1) % n
''')
# --- jwk.py -----------------------------------------------------------------
R('jwk.py', '''        if tsize <= 32:
            # SHA256
            _enc_key = sha256_digest(self.key)[:tsize]
        elif tsize <= 48:
            # SHA384
            _enc_key = sha384_digest(self.key)[:tsize]
        elif tsize <= 64:
            # SHA512
            _enc_key = sha512_digest(self.key)[:tsize]
        else:
            raise JWKException("No support for symmetric keys > 512 bits")
''', '''        for limit, digest in ((32, sha256_digest), (48, sha384_digest),
                              (64, sha512_digest)):
            if tsize <= limit:
                _enc_key = digest(self.key)[:tsize]
                break
        else:
            raise JWKException("No support for symmetric keys > 512 bits")
''')
R('jwk.py', '''        members.sort()
        ser = self.serialize()
        _se = []
        for elem in members:
            try:
                _val = ser[elem]
            except KeyError:  # should never happen with the required set
                pass
            else:
                _se.append('"{}":{}'.format(elem, json.dumps(_val)))
        _json = '{{{}}}'.format(','.join(_se))
''', '''        ser = self.serialize()
        _se = ['"{}":{}'.format(elem, json.dumps(ser[elem]))
               for elem in sorted(members) if elem in ser]
        _json = '{' + ','.join(_se) + '}'
''')
R('jwk.py', '''        res = self.common()

        public_longs = list(set(self.public_members) & set(self.longs))
        for param in public_longs:
            item = getattr(self, param)
            if item:
                res[param] = long_to_base64(item)

        if private:
            for param in self.longs:
                if not private and param in ["d", "p", "q", "dp", "dq", "di",
                                             "qi"]:
                    continue
                item = getattr(self, param)
                if item:
                    res[param] = long_to_base64(item)
        return res
''', '''        res = self.common()
        names = self.longs if private else ["n", "e"]
        for param in names:
            item = getattr(self, param)
            if item:
                res[param] = long_to_base64(item)
        return res
''')
R('jwk.py', '''        if 'verify' not in kwargs:
            kwargs['verify'] = True
        r = request("GET", url, allow_redirects=True, **kwargs)
        if r.status_code == 200:
            return self.load_jwks(r.text)
        else:
            raise Exception("HTTP Get error: %s" % r.status_code)
''', '''        kwargs.setdefault('verify', True)
        r = request("GET", url, allow_redirects=True, **kwargs)
        if r.status_code != 200:
            raise Exception("HTTP Get error: %s" % r.status_code)
        return self.load_jwks(r.text)
''')
R('jwk.py', '''            der_cert = base64.b64decode(self.x5c[0].encode("ascii"))

            if self.x5t:  # verify the cert
                if not b64d(as_bytes(self.x5t)) == hashlib.sha1(
                        der_cert).digest():
                    raise DeSerializationNotPossible(
                        "The thumbprint ('x5t') does not match the "
                        "certificate.")
''', '''            der_cert = base64.b64decode(self.x5c[0].encode("ascii"))

            if self.x5t and b64d(as_bytes(self.x5t)) != hashlib.sha1(
                    der_cert).digest():
                raise DeSerializationNotPossible(
                    "The thumbprint ('x5t') does not match the certificate.")
''')
R('jwk.py', '''        res = []
        for key in self._keys:
            res.append(b2s_conv(key.serialize()))

        return json.dumps({"keys": res})
''', '''        return json.dumps(
            {"keys": [b2s_conv(key.serialize()) for key in self._keys]})
''')
R('jwk.py', '''    if enc:
        _kwargs = {}
        for key, val in kspec.items():
            if isinstance(val, str):
                _kwargs[key] = val.encode(enc)
            else:
                _kwargs[key] = val
    else:
        _kwargs = kspec

    if kspec["kty"] == "RSA":
        item = RSAKey(**_kwargs)
    elif kspec["kty"] == "oct":
        item = SYMKey(**_kwargs)
    elif kspec["kty"] == "EC":
        item = ECKey(**_kwargs)
    else:
        item = Key(**_kwargs)
    return item
''', '''    _kwargs = kspec
    if enc:
        _kwargs = dict(
            (key, val.encode(enc) if isinstance(val, str) else val)
            for key, val in kspec.items())

    return _KEY_CLASS.get(kspec["kty"], Key)(**_kwargs)


_KEY_CLASS = {"RSA": RSAKey, "oct": SYMKey, "EC": ECKey}


def _unused():
    return None
''')
R('jwk.py', '''        try:
            assert isinstance(other, Key)
            assert set(self.__dict__.keys()) == set(other.__dict__.keys())

            for key in self.public_members:
                assert getattr(other, key) == getattr(self, key)
        except AssertionError:
            return False
        else:
            return True
''', '''        if not isinstance(other, Key):
            return False
        if set(self.__dict__.keys()) != set(other.__dict__.keys()):
            return False
        return all(getattr(other, key) == getattr(self, key)
                   for key in self.public_members)
''')


def main(to):
    shutil.copytree('/repo/src', os.path.join(to, 'src'), dirs_exist_ok=True)
    for f, a, b in E:
        p = os.path.join(to, 'src/jwkest', f)
        s = open(p).read()
        if s.count(a) != 1: sys.exit('edit of %s applies %d times: %s' % (f, s.count(a), a[:80]))
        open(p, 'w').write(s.replace(a, b))


if __name__ == '__main__': main(sys.argv[1])
