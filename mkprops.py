#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay easy to review)."""
import json
P = []
S = 'src/jwkest/'


def p(id, title, statement, text, why, files, mech, over=('inputs',), observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=list(over), text=text), why_tests_cant=why,
             anchors=dict(files=[S + f for f in files],
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d['anchors']['observe_at'] = observe
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    d['anchors']['hook_needed'] = None
    assert len(title) <= 80, title
    P.append(d)


p('C01', 'Compact JWS verification is sound',
  "Verifying a compact JWS whose header names a signature algorithm returns a payload only if one of the keys the caller supplied (or, when it supplied none, the key the verifier was configured with), of the type that algorithm needs, validates the received signature octets over exactly the received 'header.payload' octets under exactly the algorithm the header names. "
  "The payload returned is the decoding of the received payload part and the key reported is a key that validated; every other token raises an exception.",
  'every token (str or bytes, any number and content of parts, any JSON header), every list of keys, every verifier configuration',
  'tests verify a handful of tokens with their own keys plus a few single-byte corruptions; acceptance must be excluded for all tokens and key sets',
  ['jws.py', 'jwt.py', '__init__.py'],
  [('verification loop', 'JWS.verify_compact_verbose'), ('splitting and decoding of the token', 'JWT.unpack'), ('signed octets', 'JWSig.sign_input')],
  observe=['return value or exception of JWS.verify_compact / verify_compact_verbose'])
p('C02', 'Unsecured tokens need an explicit opt-in',
  "A JWS whose header says its algorithm is none (in any letter case), or null, or that names no algorithm at all, is never accepted by verification, in compact or JSON form, unless the caller explicitly allowed unsecured tokens, whatever keys are supplied or missing. "
  "Even then it is rejected when the caller states that it expects a real signature algorithm.",
  'every token without a real algorithm name, every key list including the empty one, every combination of the verification options',
  'tests try one spelling of none with one option combination',
  ['jws.py'], [('none handling', 'JWS.verify_compact_verbose'), ('key type of an algorithm', 'alg2keytype')])
p('C03', 'The expected algorithm is enforced',
  "If the caller states the signature algorithm it expects, verification (compact or JSON form) of a token whose protected header names any other algorithm, or none, fails whatever the keys and the signature. "
  "The same holds for compact verification by an object that was created for one algorithm and is given a token signed with another.",
  'every token, key set, expected algorithm and header algorithm', 'tests try one wrong algorithm',
  ['jws.py'], [('algorithm comparison', 'JWS.verify_compact_verbose'), ('pass-through of the expected algorithm', 'JWS.verify_json')])
p('C04', 'Only matching keys are used, and all of them',
  "The keys considered for an operation are exactly those of the supplied keys, in their order, whose key type is the one the algorithm needs, whose key id equals the one asked for (by the caller or else, in signature verification, by the token), and whose stated use and algorithm, where both sides state one, agree with the operation. "
  "In particular an RSA or EC public key is never used as a symmetric secret, nor the reverse.",
  'every list of keys (any length), every algorithm name, key id, use', 'tests use lists of one to three keys',
  ['jws.py', 'jwe.py'], [('key selection', 'JWx.pick_keys'), ('key type of an algorithm', 'jws.alg2keytype, jwe.alg2keytype')])
p('C05', 'Signing emits the right header, payload and signature',
  "Compact signing emits header.payload.signature where the header carries exactly the algorithm signed with and the id of the key used, the payload part is the base64url coding of the message, and the signature is that algorithm's signature of exactly the emitted 'header.payload' octets by an eligible private key; verifying the token with the matching key returns the message. "
  "An unsigned token is emitted only if the algorithm is none, or is stated neither by the signing object nor (when there is a single key and nothing else is stated) by that key; if a real algorithm has no eligible key or is unknown, signing raises.",
  'every message, header set, algorithm and key list', 'tests sign a few fixed claims',
  ['jws.py', 'jwt.py'], [('signing', 'JWS.sign_compact'), ('key and algorithm choice', 'JWS.alg_keys, JWx._pick_alg'), ('packing', 'JWT.pack')])
p('C06', 'JSON-serialized JWS: every signature must verify',
  "Verifying a JSON-serialized JWS (general or flattened) returns the payload only if each of its signatures verifies, under the algorithm in its own protected header, over that protected header and the one shared payload. "
  "JSON signing emits one signature entry per requested header, carrying that header's algorithm and unprotected part, each of which verifies with the signing key.",
  'every JSON object, every number and order of signatures, every header list', 'tests use one or two signatures',
  ['jws.py'], [('verification', 'JWS.verify_json'), ('signing', 'JWS.sign_json')])
p('C07', 'Each JWS algorithm name means its RFC 7518 primitive',
  "Each signature algorithm name denotes the RFC 7518 primitive with its own hash function and, for ECDSA, its own curve (HS*: HMAC, RS*: PKCS#1 v1.5, PS*: PSS, ES*: ECDSA P-256/384/521). "
  "Verification under a name succeeds exactly for the signatures that primitive accepts for that message and key, comparing MACs over their full length, and raises otherwise; signing produces that primitive's signature.",
  'every algorithm, key, message and candidate signature', 'tests round-trip each algorithm with itself, which a consistent mix-up survives',
  ['jws.py', '__init__.py'], [('registry', 'jws.SIGNER_ALGS'), ('signers', 'HMACSigner, RSASigner, PSSSigner, DSASigner'), ('comparison', 'constant_time_compare')])
p('C08', 'JWE decryption is authenticated',
  "Decryption returns a plaintext only if the token's authentication tag is valid, under the content key recovered with one of the supplied eligible keys by the key management algorithm the header names, for exactly the received protected header, initialization vector and ciphertext, under the encryption method the header names; otherwise it raises. "
  "What it returns is the decryption of that ciphertext (decompressed if the header asks for it).",
  'every token, every key list', 'tests decrypt only what they encrypted; no tampered token is ever tried',
  ['jwe.py', 'extra.py', 'aes_gcm.py', 'aes_key_wrap.py'], [('decryption', 'JWE.decrypt, JWE_RSA/JWE_SYM/JWE_EC.decrypt'), ('content decryption', 'JWe._decrypt'), ('CBC tag', 'aes_cbc_hmac_decrypt'), ('GCM tag', 'AES_GCM.decrypt'), ('key wrap integrity', 'aes_unwrap_key')])
p('C09', 'JWE encryption round-trips',
  "For every supported key management algorithm, encryption method and message, a token encrypted to a recipient key decrypts to exactly that message with the matching private or shared key, wherever that key stands among the keys offered for decryption. "
  "The emitted protected header names the algorithm and method used, and the header is what is authenticated.",
  'every message, algorithm x method combination, key, position of the key', 'tests cover a few combinations with one key and one message',
  ['jwe.py', 'extra.py', 'aes_gcm.py', 'aes_key_wrap.py'], [('encryption', 'JWE.encrypt and JWE_RSA/JWE_SYM/JWE_EC'), ('decryption', 'JWE.decrypt')])
p('C10', 'Secrets are fresh and come from a CSPRNG',
  "Every content encryption key, initialization vector, ephemeral EC key, generated EC private key and ECDSA nonce that the caller did not supply is drawn anew, for that one operation, from the cryptographic random generator, with the full length its algorithm prescribes. "
  "No two of them within an operation share random output, and a caller-supplied key or vector is used as given.",
  'every algorithm, every sequence of operations', 'no test looks at randomness; a constant or predictable value passes every round-trip test',
  ['jwe.py', 'ecc.py'], [('content key and IV', 'JWe._generate_key_and_iv'), ('EC keys and nonces', 'NISTEllipticCurve.key_pair, sign'), ('ephemeral key', 'JWE_EC.enc_setup')], over=('inputs', 'histories'))
p('C11', 'ECDH-ES derives the RFC 7518 key and rejects invalid points',
  "For every valid key pair both sides of ECDH-ES derive the same key: the RFC 7518 section 4.6.2 Concat KDF of the shared x coordinate (at full curve length), algorithm name, party infos and key length in bits. "
  "A token whose ephemeral public key is not a point of the recipient's curve is rejected before the private key is used.",
  'every key pair, every ephemeral point, every algorithm, party info and length', 'tests run both sides with random honest keys; a shared mistake or an invalid point is never seen',
  ['extra.py', 'ecc.py', 'jwe.py'], [('key derivation', 'ecdh_derive_key, concat_sha256'), ('agreement and point check', 'NISTEllipticCurve.dh_z, elliptic.element'), ('use in JWE', 'JWE_EC.enc_setup, dec_setup')])
p('C12', 'AES-CBC-HMAC is RFC 7518 section 5.2',
  "For 32, 48 and 64 octet keys, authenticated encryption computes exactly RFC 7518 section 5.2 (key split, PKCS#7 padding, CBC, tag as left half of the HMAC over AAD, IV, ciphertext and AAD bit length), and decryption inverts it. "
  "Decryption returns a plaintext only if the full-length tag matches; other key or IV sizes are rejected.",
  'every key, IV, AAD, plaintext, ciphertext and tag', 'tests use one vector and short texts',
  ['extra.py'], [('encryption', 'aes_cbc_hmac_encrypt'), ('decryption', 'aes_cbc_hmac_decrypt'), ('padding', 'pkcs5pad, pkcs5trim'), ('key split', 'get_keys_seclen_dgst')])
p('C13', 'AES-GCM is SP 800-38D',
  "For every key size, 96-bit IV, plaintext and additional data, GCM encryption computes exactly the ciphertext and 128-bit tag of NIST SP 800-38D, and decryption returns the plaintext exactly when the tag is that tag and raises otherwise. "
  "This includes the GF(2^128) multiplication and its precomputed tables.",
  'every key, IV, plaintext, AAD, tag', 'tests use one vector (one key, one IV, one length)',
  ['aes_gcm.py', 'jwe.py'], [('field multiplication', 'gf_2_128_mul'), ('tables', 'AES_GCM.change_key, __times_auth_key'), ('GHASH', 'AES_GCM.__ghash'), ('mode', 'AES_GCM.encrypt, decrypt')])
p('C14', 'AES key wrap is RFC 3394',
  "Wrapping computes exactly the RFC 3394 wrapping of the whole key under the key encryption key, unwrapping returns the wrapped key exactly when the integrity value is the prescribed constant, and the two are inverse. "
  "Data that is not a whole number of 64-bit blocks (or is too short) is rejected, not truncated.",
  'every key encryption key, every key data, every wrapped value', 'tests use one vector',
  ['aes_key_wrap.py'], [('wrap', 'aes_wrap_key'), ('unwrap', 'aes_unwrap_key, aes_unwrap_key_and_iv')])
p('C15', 'Elliptic curve arithmetic is the group law',
  "For the curves P-256, P-384 and P-521 (with their standard parameters), scalar multiplication and the double-scalar sum used in verification return the point that repeated addition under the group law gives, for every point and every non-negative scalar, including the identity, doubling and inverse cases. "
  "Modular inversion returns the inverse, in range, whenever one exists.",
  'every point and scalar, every residue', 'tests use a few random scalars; exceptional cases are never reached by chance',
  ['elliptic.py', 'curves.py', 'ecc.py'], [('inversion', 'euclid, inv'), ('addition', 'add, addf, doublef, neg'), ('scalars', '_gbd, _signed_bin, mulf, muladdf, mul'), ('coordinates', 'to_projective, from_projective'), ('parameters', 'curves.DOMAINS, get_curve')])
p('C16', 'Base64url coding is exact and strict',
  "Encoding yields the unpadded base64url text (RFC 7515) of any octet string and decoding inverts it. "
  "Decoding rejects every text that contains a character outside the base64url alphabet (other than padding at the end) or has an impossible length, rather than skipping or guessing.",
  'every octet string, every text', 'tests use a few samples',
  ['__init__.py'], [('encode', 'b64e, b64e_enc_dec'), ('decode', 'b64d, add_padding, b64d_enc_dec')])
p('C17', 'Token packing and unpacking are inverse',
  "Unpacking a packed token gives back the same header, the same number of parts and the same part contents, and its encoded parts are exactly the dot-separated pieces of the received text. "
  "A JSON payload (object, array, string, number, nested arbitrarily) comes back equal, octets that are not JSON come back as given (as text where they are UTF-8), and a text without a dot is rejected.",
  'every header, list of parts and payload', 'tests pack a few claims',
  ['jwt.py', '__init__.py'], [('pack', 'JWT.pack, b64encode_item, b2s_conv'), ('unpack', 'JWT.unpack, split_token'), ('payload', 'JWT.payload')])
p('C18', 'Integer codings are exact',
  "Converting a non-negative integer of any size to octets or to base64url text yields its minimal big-endian coding (left-padded with zeros to the requested length), and converting back yields the same integer. "
  "The strict decoder refuses text that is not base64url.",
  'every non-negative integer, every length, every octet string', 'tests use a few integers',
  ['__init__.py'], [('octets', 'long2intarr, intarr2long, long2hexseq, intarr2bin'), ('text', 'long_to_base64, base64_to_long, base64url_to_long')])
p('C19', 'JWK import and export are inverse',
  "Exporting an RSA, EC or symmetric key as a JWK and importing it, through the constructor, the dictionary importer or a key set, gives a key of the same type with the same key material, key id, use and algorithm; private parts are carried exactly when private export is asked for. "
  "EC coordinates are exported at the full length of the curve.",
  'every key, with or without private part, every metadata value', 'tests export and import a few fixed keys',
  ['jwk.py', '__init__.py'], [('RSA', 'RSAKey.serialize, deserialize, _split'), ('EC', 'ECKey.serialize, deserialize, load_key'), ('symmetric', 'SYMKey'), ('import', 'keyrep, KEYS.load_dict, key_from_jwk_dict')])
p('C20', 'Public export never contains private key material',
  "The public JWK export of an RSA or EC key, the JWKS dump of a key set holding such keys, and a public copy of such a key contain no private component, and their content does not depend on the private components of the key.",
  'every RSA and EC key however it was created, every key set', 'tests look at one or two keys',
  ['jwk.py'], [('RSA export', 'RSAKey.serialize'), ('EC export', 'ECKey.serialize'), ('key set export', 'KEYS.dump_jwks'), ('copy', 'make_public_copy')])
p('C21', 'Key equality, thumbprint and derived key id identify the key',
  "Two keys compare equal only if they are of the same kind with the same public key material (for symmetric keys: the same secret) and the same metadata, and keys imported from the same description compare equal. "
  "The thumbprint, and the key id derived from it, is the RFC 7638 hash of the required members only, so it does not depend on metadata, on private parts or on member order.",
  'every pair of keys, every metadata, the three hash functions', 'tests compare a few keys',
  ['jwk.py'], [('equality', 'Key.__eq__'), ('thumbprint', 'Key.thumbprint'), ('key id', 'Key.add_kid, get_hash, __hash__')])
p('C22', 'A key set holds exactly the keys put in, in order',
  "A key set contains exactly the keys loaded, added or appended, in order; looking up by key id or key type, listing ids or types, counting and grouping by type return exactly the keys that match, in order. "
  "Dumping the set and loading the dump gives the same keys; load operations add to the set and never drop or alter keys already there.",
  'every sequence of operations, every number of keys', 'tests use one key set of a few keys',
  ['jwk.py'], [('container', 'KEYS')], over=('inputs', 'histories'), state=[('_keys', 'list of keys held', 'KEYS')])
p('C23', 'Remote keys are fetched with certificate checking on',
  "Loading a key set from a URL verifies the server certificate unless the caller explicitly turns that off, takes keys only from a 200 response, and raises on any other response without adding keys.",
  'every URL, response and option set', 'no test fetches a URL',
  ['jwk.py'], [('fetch', 'KEYS.load_from_url, load_jwks_from_url')])
p('C24', 'Symmetric encryption keys follow OpenID Connect Core',
  "The key derived from a symmetric secret for a key wrapping or MAC algorithm is the leftmost octets, in the number that algorithm needs, of the SHA-256, SHA-384 or SHA-512 hash of the secret, the smallest of these that is long enough. "
  "It depends on nothing else, and unknown algorithms are refused.",
  'every secret, every algorithm', 'one test, one algorithm',
  ['jwk.py'], [('derivation', 'SYMKey.encryption_key'), ('lengths', 'ALG2KEYLEN'), ('left half hashes', 'jws.left_hash')])
p('C25', 'A certificate thumbprint must match the certificate',
  "Importing an RSA key from a certificate chain uses the public key of the first certificate, and when a certificate thumbprint is given the import succeeds only if it is the SHA-1 digest of that certificate; otherwise it raises and yields no usable key.",
  'every certificate chain and thumbprint', 'tests use one certificate with a right and a wrong thumbprint',
  ['jwk.py'], [('import', 'RSAKey.deserialize, der2rsa')])
p('C26', 'ECDSA is FIPS 186: exactly the valid signatures are accepted',
  "For the three curves, ECDSA verification accepts exactly the signatures r||s of the prescribed length with both values between 1 and the group order minus 1 that satisfy the FIPS 186 equation for the hash truncated to the order's bit length and the given public key. "
  "Signing yields such a signature for every hash and private key, from a nonce in the valid range.",
  'every hash, key, signature and nonce', 'tests verify four vectors and a few random round trips',
  ['ecc.py', 'elliptic.py'], [('verification', 'NISTEllipticCurve.verify'), ('signing', 'NISTEllipticCurve.sign, _sign_loop')])
p('C27', 'MAC comparison takes constant time',
  "The time taken to reject a wrong MAC or authentication tag does not depend on how much of it is right.",
  'every pair of equal-length MACs', 'timing is not observed by any test',
  ['__init__.py', 'jws.py', 'extra.py', 'aes_gcm.py'], [('comparison', 'constant_time_compare')])
with open('/verif/properties.jsonl', 'w') as f:
    for d in P: f.write(json.dumps(d) + '\n')
print(len(P))
