"""Contracts that stand for callees (the verifier checks a caller against the
callee's contract; the contract itself is an obligation of its own property).

Each entry gives the function, the property whose contracts it refines, and
its meaning.  An entry whose function is gone is left out: the call is then
interpreted or reported unsupported."""
import z3
from . import api, texts, lib, jsonv
from .jsonv import SJson
from .core import *
from .values import *
from .interp import MISSING
from .lib import UF, need_bytes
from .models import is_intlike


class Callee(object):
    def __init__(self, name, prop, meaning): self.name, self.prop, self.meaning = name, prop, meaning

    def apply(self, interp, f, args, kw): return self.meaning(interp, *args, **kw)


def key(f): return '%s:%s' % (f.__module__, f.__qualname__)


def table(*entries):
    out = {}
    for name, prop, meaning in entries:
        f = api.target(name)
        if f is not None: out[key(f)] = Callee(name, prop, meaning)
    return out


def curve_name(c):
    """Name of a NISTEllipticCurve object, if it is the curve of that name."""
    from specs import ecref
    a = c.attrs if isinstance(c, SObj) else vars(c)
    for n, p in ecref.P.items():
        if a.get('p') == p['p'] and a.get('N') == p['n'] and tuple(a.get('G') or ()) == (p['gx'], p['gy']) and \
                (a.get('a'), a.get('b')) in ((3, p['p'] - p['b']), (3, -p['b']), (-3, p['b']), (p['p'] - 3, p['b'])): return n
    return None


def ecdsa_verify(interp, self_, h, sig, pub):
    """C26.verification: exactly the valid signatures are accepted."""
    from . import keysym
    from specs import ecref
    crv = curve_name(self_)
    if crv is None: return MISSING
    if not is_intlike(h) or not isinstance(pub, tuple) or len(pub) != 2: return MISSING
    sig = need_bytes(interp, sig)
    ex = interp.ex
    if not ex.must(z3.And(zint(h) >= 0, zint(h) < 2 ** ecref.P[crv]['n'].bit_length())): return MISSING
    return mkbool(keysym.ecdsa_term(crv, h, sig, pub))


def ecdsa_sign(interp, self_, h, priv, k=None):
    """C26.signing: a signature that verifies under the public point."""
    from . import keysym
    from specs import ecref
    crv = curve_name(self_)
    if crv is None or k is not None or not is_intlike(h) or not is_intlike(priv): return MISSING
    ex = interp.ex
    p = ecref.P[crv]
    if not ex.must(z3.And(zint(h) >= 0, zint(h) < 2 ** p['n'].bit_length(), zint(priv) >= 1, zint(priv) < p['n'])): return MISSING
    s = ex.fresh('ecsig%d' % (2 * p['size']), SS)
    texts.LEN[s.decl().name()] = 2 * p['size']
    ex.assume(z3.Length(s) == 2 * p['size'])
    v = mktext(SBytes, [s])
    ex.assume(keysym.ecdsa_term(crv, h, v, keysym.pub(interp, crv, priv)))
    return v


def ecdsa():
    return dict(extra_contracts=table(('jwkest.ecc:NISTEllipticCurve.verify', 'C26', ecdsa_verify),
                                      ('jwkest.ecc:NISTEllipticCurve.sign', 'C26', ecdsa_sign)))


def b64d(interp, b):
    """C16.decoding_strict: the octets of a base64url text (padding at the end
    is accepted or refused), or an exception."""
    import binascii
    b = need_bytes(interp, b)
    if isinstance(b, bytes): return MISSING
    ex = interp.ex
    body = interp.models.strip(interp, b, 'rstrip', b'=')
    ok = []
    for p in text_parts(body):
        if z3.is_expr(p):
            al = texts.alphabet(p)
            if al is not None and al <= texts.ALPHABETS['b64u']: continue
            ok.append(lib.ISB64U(p))
        elif not lib.isb64u(ex, p): ok.append(z3.BoolVal(False))
    n = texts.tlen_z(body)
    ok.append(n % 4 != 1)
    if body is not b and not ztext(body).eq(ztext(b)): ok.append(z3.Or(ztext(body) == ztext(b), UF('B64PADOK', SS, BS)(ztext(b))))
    if ex.branch(z3.And(*ok)):
        for p in text_parts(body):
            if z3.is_expr(p): lib.isb64u(ex, p)
        return lib.b64d_term(body)
    if ex.choose(2, 'b64d') == 0: raise interp.exc(binascii.Error, 'base64url')
    import jwkest
    raise interp.exc(getattr(jwkest, 'BadSyntax', ValueError), b, 'base64url')


def b64e(interp, b):
    """C16.encoding."""
    b = need_bytes(interp, b)
    if isinstance(b, bytes): return MISSING
    return lib.b64e_term(b)


def coding(): return table(('jwkest:b64d', 'C16', b64d), ('jwkest:b64e', 'C16', b64e))


def payload_term(interp, hdr, octets):
    """The payload convention as an uninterpreted function of header and octets."""
    z = jsonv.to_jv(interp, hdr)
    return Opaque('payload', UF('PAYLOAD', jsonv.JV, SS, jsonv.JV)(z, ztext(octets)))


def payload(interp, self_):
    """C17.payload_any: jwsref.payload of the header and the second part;
    may fail where cty is not a text."""
    a = self_.attrs
    h, part = a.get('headers'), a.get('part')
    if h is None or part is None or len(part) < 2 or not isinstance(part[1], (bytes, SBytes)): return MISSING
    if isinstance(h, SJson):
        k = zstr('cty')
        if interp.ex.branch(jsonv.TAG(h.z) != jsonv.DICT):
            if interp.ex.choose(2, 'payload') == 0: raise interp.exc(TypeError, 'cty')
            return payload_term(interp, h, part[1])
        if interp.ex.branch(z3.And(jsonv.JHAS(h.z, k), jsonv.TAG(jsonv.JGET(h.z, k)) != jsonv.STR)): raise interp.exc(AttributeError, 'lower')
    elif isinstance(h, dict):
        if 'cty' in h and not isinstance(h['cty'], (str, SStr)): return MISSING
    else: return MISSING
    return payload_term(interp, h, part[1])


def payloads(): return table(('jwkest.jwt:JWT.payload', 'C17', payload))


def set_up(interp, self_, *args, **kw):
    """JWx.__init__ with keywords that are not known: sets attributes of its
    own object in some way, or fails."""
    if '**' not in kw: return MISSING
    if interp.ex.choose(2, 'set up') == 0: raise interp.some_exc()
    interp.havoc(self_)
    return None


def accepts(token): return UF('ACCEPTED', SS, BS)(ztext(token))


def signed_payload(token): return Opaque('payload', UF('PAYLOADOF', SS, jsonv.JV)(ztext(token)))


def one_key_list(interp, keys):
    """Is this the one list of keys that the proof is about?"""
    if not isinstance(keys, View) or keys.cond is not None: return False
    if interp.ex.branch(keys.n == 0): return False
    return interp.ex.state.setdefault('key list', keys.src) == keys.src


def verify_compact(interp, self_, jws, keys=None, allow_none=False, sigalg=None):
    """C01.soundness_any_keys, three_parts_only: with keys, the payload of a
    token that a key of the list signed, or an exception."""
    if allow_none is not False or sigalg is not None: return MISSING
    keys = interp.models.iterate(interp, keys) if not isinstance(keys, View) else keys
    if not one_key_list(interp, keys): return MISSING
    jws = need_bytes(interp, jws)
    if interp.ex.choose(2, 'verify_compact') == 0: raise interp.some_exc()
    interp.havoc(self_)
    interp.ex.assume(accepts(jws))
    return signed_payload(jws)


def accepted(interp, token, ds):
    """specs.jwsref.accepted, as the predicate that verify_compact is sound for."""
    ds = interp.models.iterate(interp, ds) if not isinstance(ds, View) else ds
    if not isinstance(ds, View): raise Unsupported('accepted: keys')
    token = interp.models.call_method(interp, token, "encode", [], {}) if isinstance(token, (str, SStr)) else need_bytes(interp, token)
    if not interp.ex.branch(accepts(token)): return None
    return (None, signed_payload(token), ())


# ------------------------------------------------------------------------ JWE
def key_length(interp, key, sizes):
    n = texts.tlen_z(key)
    ok = z3.Or(*[n == k for k in sizes])
    return interp.ex.must(ok) or interp.ex.branch(ok)


def kw_ok(kek, w): return UF('KW_OK', SS, SS, BS)(ztext(kek), ztext(w))


def kw_data(ex, kek, w):
    t = UF('KW_DATA', SS, SS, SS)(ztext(kek), ztext(w))
    ex.fact(z3.Length(t) == texts.tlen_z(w) - 8)
    texts.LEN['KW_DATA'] = lambda t: lib.sum_len(t.arg(1)) - 8
    return mktext(SBytes, [t])


def wrapped_size(interp, w):
    n = texts.tlen_z(w)
    ok = z3.And(n % 8 == 0, n >= 24)
    return interp.ex.must(ok) or interp.ex.branch(ok)


def unwrap_key(interp, kek, wrapped, iv=0xa6a6a6a6a6a6a6a6):
    """C14.unwrapping, sizes: the key data, if the integrity check holds."""
    if isinstance(iv, Sym) or iv != 0xa6a6a6a6a6a6a6a6: return MISSING
    kek, wrapped = need_bytes(interp, kek), need_bytes(interp, wrapped)
    if not isinstance(kek, Sym) and not isinstance(wrapped, Sym): return MISSING
    if not wrapped_size(interp, wrapped) or not key_length(interp, kek, (16, 24, 32)): raise interp.exc(ValueError, 'unwrap')
    if interp.ex.branch(kw_ok(kek, wrapped)): return kw_data(interp.ex, kek, wrapped)
    raise interp.exc(ValueError, 'Integrity Check Failed')


def ref_unwrap(interp, kek, wrapped):
    if not isinstance(kek, Sym) and not isinstance(wrapped, Sym):
        from specs import jweref
        return interp.native(jweref.unwrap, [kek, wrapped])
    if not wrapped_size(interp, wrapped): return None
    if interp.ex.branch(kw_ok(kek, wrapped)): return kw_data(interp.ex, kek, wrapped)
    return None


def ae_ok(kind, key, iv, aad, ct, tag): return UF('AE_OK_' + kind, SS, SS, SS, SS, SS, BS)(*map(ztext, (key, iv, aad, ct, tag)))


def ae_text(ex, kind, key, iv, ct): return mktext(SBytes, [UF('AE_TEXT_' + kind, SS, SS, SS, SS)(*map(ztext, (key, iv, ct)))])


def cbc_hmac_decrypt(interp, key, iv, aad, ct, tag):
    """C12.tag_checked, sizes_checked: where the tag is right, the text that the
    key, IV and ciphertext determine, or a failure; else a failure."""
    if isinstance(aad, (str, SStr)): aad = interp.models.call_method(interp, aad, 'encode', ['utf-8'], {})
    key, iv, aad, ct, tag = [need_bytes(interp, x) for x in (key, iv, aad, ct, tag)]
    ex = interp.ex
    if not key_length(interp, key, (32, 48, 64)): raise interp.exc(ValueError, 'key')
    if not key_length(interp, iv, (16,)): raise interp.exc(Exception, 'IV')
    import jwkest.extra as x
    if not ex.branch(ae_ok('CBC', key, iv, aad, ct, tag)): raise interp.exc(getattr(x, 'VerificationFailure', Exception), 'AES-CBC HMAC')
    if ex.choose(2, 'padding') == 0: raise interp.some_exc()
    return ae_text(ex, 'CBC', key, iv, ct)


def gcm_key(interp, self_, master_key):
    """The object is about this key."""
    if not isinstance(master_key, (bytes, SBytes)): return MISSING
    if not key_length(interp, master_key, (16, 24, 32)): raise interp.exc(ValueError, 'Incorrect AES key length')
    interp.raw_setattr(self_, '\0key', master_key)
    return None


def gcm_decrypt(interp, self_, init_value, ciphertext, auth_tag, auth_data=b''):
    """C13: where the tag is right, the text that the key, IV and ciphertext determine."""
    key = self_.attrs.get('\0key')
    if key is None or not is_intlike(init_value) or not is_intlike(auth_tag): return MISSING
    ct, aad = need_bytes(interp, ciphertext), need_bytes(interp, auth_data)
    ex = interp.ex
    i, t = zint(init_value), zint(auth_tag)
    if not ex.must(z3.And(i >= 0, t >= 0)): return MISSING
    import jwkest.aes_gcm as g
    for x, n in ((i, 96), (t, 128)):
        if not ex.must(x < 1 << n) and not ex.branch(x < 1 << n): raise interp.exc(getattr(g, 'InvalidInputException', Exception), 'size')
    iv, tag = lib.be_term(ex, i, 12), lib.be_term(ex, t, 16)
    if not ex.branch(ae_ok('GCM', key, iv, aad, ct, tag)): raise interp.exc(getattr(g, 'InvalidTagException', Exception))
    return ae_text(ex, 'GCM', key, iv, ct)


def ref_open(interp, enc, cek, iv, aad, ct, tag):
    """specs.jweref.open_ in the same terms."""
    from specs import jweref
    if isinstance(enc, Sym): raise Unsupported('content encryption not known')
    if enc not in jweref.CEK: return None
    ex = interp.ex
    if not key_length(interp, cek, (jweref.CEK[enc],)) or not key_length(interp, iv, (jweref.ivlen(enc),)): return None
    kind = 'GCM' if enc.endswith('GCM') else 'CBC'
    if kind == 'GCM' and not key_length(interp, tag, (16,)): return None
    if not ex.branch(ae_ok(kind, cek, iv, aad, ct, tag)): return None
    return ae_text(ex, kind, cek, iv, ct)


def ecdh(interp, curve, key, epk, apu, apv, alg, dk_len):
    """C11.derived_any, invalid_any: the derived key, if there is a point to agree with."""
    crv = curve_name(curve)
    if crv is None or isinstance(dk_len, Sym) or not is_intlike(key): return MISSING
    apu, apv, alg = [need_bytes(interp, x) for x in (apu, apv, alg)]
    for x in (apu, apv, alg):
        n = texts.tlen(x)
        if isinstance(n, Sym) and not interp.ex.branch(zint(n) < 1 << 32): raise interp.some_exc()
    r = agree(interp, crv, key, epk, alg, apu, apv, dk_len)
    if r is None: raise interp.some_exc()
    return r


def agree(interp, crv, d, pt, alg, apu, apv, bits):
    from specs import ecref
    if bits not in (128, 192, 256, 384, 512): raise Unsupported('derived key of %s bits' % bits)
    if not isinstance(pt, tuple) or not all(is_intlike(x) for x in pt): return MISSING
    ex = interp.ex
    if not ex.must(z3.And(zint(d) >= 1, zint(d) < ecref.P[crv]['n'])): raise Unsupported('private key out of range')
    if not interp.truth(interp.call(ecref.on_curve, [crv, pt], {})): return None
    t = UF('ECDH_%s' % crv.replace('-', ''), IS, IS, IS, SS, SS, SS, IS, SS)(zint(d), zint(pt[0]), zint(pt[1]), ztext(alg), ztext(apu), ztext(apv), z3.IntVal(bits))
    ex.fact(z3.Length(t) == bits // 8)
    return mktext(SBytes, [t])


def ref_agreed(interp, crv, d, pt, alg, apu, apv, bits):
    if isinstance(crv, Sym) or isinstance(bits, Sym): return MISSING
    if not any(isinstance(x, Sym) for x in (d, alg, apu, apv) + tuple(pt)): return MISSING
    return agree(interp, crv, d, pt, alg, apu, apv, bits)


def open_content(interp, enc, key, ctxt, auth_data, iv, tag):
    """C08.content_encryption: what the tag vouches for, or a failure."""
    e = encryption(interp, enc)
    if e is None: raise interp.some_exc()
    key, ctxt, auth_data, iv, tag = [need_bytes(interp, x) for x in (key, ctxt, auth_data, iv, tag)]
    if not interp.ex.branch(opn_ok(e, key, iv, auth_data, ctxt, tag)): raise interp.some_exc()
    if interp.ex.choose(2, 'padding') == 0: raise interp.some_exc()
    return opn_text(e, key, iv, ctxt)


def encryption(interp, e):
    e = lib.resolve_json(interp, e) if isinstance(e, SJson) else e
    return e if isinstance(e, (str, SStr)) else None


def opn_ok(e, key, iv, aad, ct, tag): return UF('OPN_OK', SS, SS, SS, SS, SS, SS, BS)(*map(ztext, (e, key, iv, aad, ct, tag)))


def opn_text(e, key, iv, ct): return mktext(SBytes, [UF('OPN_TEXT', SS, SS, SS, SS, SS)(*map(ztext, (e, key, iv, ct)))])


def ref_opening(interp, e, cek, iv, aad, ct, tag):
    e = encryption(interp, e)
    if e is None: return None
    if not interp.ex.branch(opn_ok(e, cek, iv, aad, ct, tag)): return None
    return opn_text(e, cek, iv, ct)


NUMOK, NUM = UF('NUMOK', jsonv.JV, BS), UF('NUM', jsonv.JV, IS)


def coordinate(interp, v):
    """C19.public_members: a member of an EC key is read as specs.jweref.number has it."""
    if v is None: raise interp.some_exc()
    if not isinstance(v, SJson): raise Unsupported('a coordinate that is no JSON value')
    interp.ex.assume(NUMOK(v.z))
    return mkint(NUM(v.z))


def ref_number(interp, v):
    if v is None: return None
    if not isinstance(v, SJson): return MISSING
    return mkint(NUM(v.z)) if interp.ex.branch(NUMOK(v.z)) else None


def ec_key(interp, self_, *args, **kw):
    """C19.public_members: an EC key made of the members of a JSON object has
    the curve and the point that they name, or there is a failure."""
    if list(kw) != ['**'] or args or not isinstance(kw['**'], SJson): return MISSING
    ex = interp.ex
    if ex.choose(2, 'EC key') == 0: raise interp.some_exc()
    j = kw['**']
    from jwkest.ecc import NISTEllipticCurve
    crv = interp.models.dict_get(interp, j, 'crv', None) if hasattr(interp.models, 'dict_get') else interp.models.call_method(interp, j, 'get', ['crv'], {})
    n = None
    for name in ('P-256', 'P-384', 'P-521'):
        if interp.truth(interp.models.compare(interp, 'Eq', crv, name)):
            n = name
            break
    if n is None: raise interp.some_exc()
    get = lambda m: interp.models.call_method(interp, j, 'get', [m], {})
    x, y = coordinate(interp, get('x')), coordinate(interp, get('y'))
    interp.havoc(self_)
    for k, v in (('crv', n), ('curve', interp.call(NISTEllipticCurve.by_name, [n], {})), ('x', x), ('y', y)): interp.raw_setattr(self_, k, v)
    return None


def sealed():
    """Content encryption: C12, C13."""
    from specs import jweref
    d = table(('jwkest.extra:aes_cbc_hmac_decrypt', 'C12', cbc_hmac_decrypt), ('jwkest.aes_gcm:AES_GCM.__init__', 'C13', gcm_key), ('jwkest.aes_gcm:AES_GCM.decrypt', 'C13', gcm_decrypt))
    d[key(jweref.open_)] = Callee('specs.jweref:open_', 'C12', ref_open)
    return dict(extra_contracts=d)


def jwe():
    """Decryption: key management by C11, C14; content encryption by C08.content_encryption."""
    from specs import jweref
    d = table(('jwkest.aes_key_wrap:aes_unwrap_key', 'C14', unwrap_key), ('jwkest.jwe:JWe._decrypt', 'C08', open_content), ('jwkest.extra:ecdh_derive_key', 'C11', ecdh),
              ('jwkest.jwk:ECKey.__init__', 'C19', ec_key))
    d.update(coding())
    for f, prop, meaning in ((jweref.number, 'C19', ref_number), (jweref.unwrap, 'C14', ref_unwrap), (jweref.agreed, 'C11', ref_agreed), (jweref.opening, 'C08', ref_opening)):
        d[key(f)] = Callee(key(f), prop, meaning)
    return dict(extra_contracts=d)


def tokens():
    """C06: compact verification by contract."""
    from specs import jwsref
    d = jws()['extra_contracts']
    d.update(table(('jwkest.jws:JWx.__init__', 'assumed', set_up), ('jwkest.jws:JWS.verify_compact', 'C01', verify_compact)))
    d[key(jwsref.accepted)] = Callee('specs.jwsref:accepted', 'C01', accepted)
    return dict(extra_contracts=d)


def jws():
    d = ecdsa()['extra_contracts']
    d.update(coding())
    d.update(payloads())
    return dict(extra_contracts=d)
