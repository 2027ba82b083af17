"""Symbolic meaning of the primitive specification functions (specs/ref.py)."""
import z3
from .core import *
from .values import *
from . import texts, lib, jsonv
from .models import model
from .lib import need_bytes


def install():
    from specs import ref
    from . import keysym, curve
    keysym.install()
    curve.install()
    from . import digits
    digits.install()
    from . import octets
    octets.install()

    @model(ref.b64u, pure=False)
    def s_b64u(interp, v): return lib.b64e_term(need_bytes(interp, v))

    @model(ref.is_b64u_alphabet, pure=False)
    def s_isb64(interp, v):
        if isinstance(v, (str, bytes)): return lib.isb64u(interp.ex, v)
        return lib.b64_regular(interp.ex, v)

    @model(ref.is_utf8, pure=False)
    def s_isutf8(interp, v):
        if isinstance(v, bytes): return ref.is_utf8(v)
        return texts.try_decode(interp.ex, v, 'utf-8') is not None

    @model(ref.is_ascii, pure=False)
    def s_isascii(interp, v):
        if isinstance(v, bytes): return ref.is_ascii(v)
        return texts.try_decode(interp.ex, v, 'ascii') is not None

    @model(ref.b64u_dec, pure=False)
    def s_b64udec(interp, v): return lib.b64d_term(need_bytes(interp, v))

    @model(ref.hash_, pure=False)
    def s_hash(interp, name, d): return lib.hash_term(name, need_bytes(interp, d))

    @model(ref.hmac_, pure=False)
    def s_hmac(interp, name, k, d): return lib.hmac_term(name, need_bytes(interp, k), need_bytes(interp, d))

    @model(ref.aes_ecb, pure=False)
    def s_ecb(interp, k, d): return lib.aes_block(k, d)

    @model(ref.aes_ecb_dec, pure=False)
    def s_ecbd(interp, k, d): return lib.aes_block(k, d, True)

    @model(ref.aes_cbc, pure=False)
    def s_cbc(interp, k, iv, d): return lib.cbc(k, iv, d)

    @model(ref.aes_cbc_dec, pure=False)
    def s_cbcd(interp, k, iv, d): return lib.cbc(k, iv, d, True)

    @model(ref.i2osp, pure=False)
    def s_i2osp(interp, x, n):
        if not isinstance(x, Sym) and not isinstance(n, Sym): return interp.native(ref.i2osp, [x, n])
        return lib.be_term(interp.ex, zint(x), n if isinstance(n, int) else n.z)

    @model(ref.os2ip, pure=False)
    def s_os2ip(interp, s): return lib.os2ip_term(interp.ex, need_bytes(interp, s))

    @model(ref.minbe, pure=False)
    def s_minbe(interp, n):
        if not isinstance(n, Sym): return interp.native(ref.minbe, [n])
        return lib.minbe_term(interp.ex, n)

    from specs import jwsref

    @model(jwsref.payload, pure=False)
    def s_payload(interp, hdr, octets):
        """Uninterpreted where JWT.payload is called by contract."""
        from . import callees
        if 'jwkest.jwt:JWT.payload' not in interp.contracts: return interp.call(jwsref.payload_value, [hdr, octets], {})
        return callees.payload_term(interp, hdr, need_bytes(interp, octets))

    from . import api

    @model(api.same_objects, pure=False)
    def s_same_objects(interp, a, b):
        m = interp.models
        a, b = m.iterate(interp, a), m.iterate(interp, b)
        if isinstance(a, View) and isinstance(b, View) and a.src == b.src:
            def same(x, y): return zbool(m.is_term(interp, x, y))
            return mkbool(same_sequences(interp, a, b, same))
        if isinstance(a, View) or isinstance(b, View):
            if isinstance(b, View): a, b = b, a
            if isinstance(b, (list, tuple)) and not b:
                # the empty list: no index is kept
                i = z3.Int(interp.ex._name('ix'))
                return mkbool(z3.Implies(z3.And(i >= 0, i < a.n), z3.Not(a.cond(i)) if a.cond is not None else z3.BoolVal(False)))
            raise Unsupported('same_objects of a symbolic and a concrete sequence')
        if len(a) != len(b): return False
        return mkbool(z3.And(*[zbool(m.is_term(interp, x, y)) for x, y in zip(a, b)]))

    @model(jwsref.same, pure=False)
    def s_same(interp, a, b):
        """Sameness of JSON values, texts or octets (used as a postcondition
        only: terms that denote the same value)."""
        return mkbool(same_term(interp, a, b))


def zbool(v): return v.z if isinstance(v, SBool) else z3.BoolVal(v)


def same_sequences(interp, a, b, same):
    """Do two filtered views of one sequence keep the same elements, and are
    these the same?  Formula over a fresh index: for postconditions only."""
    ex = interp.ex
    i = z3.Int(ex._name('ix'))
    r = z3.And(i >= 0, i < a.n)
    ca = a.cond(i) if a.cond is not None else z3.BoolVal(True)
    cb = b.cond(i) if b.cond is not None else z3.BoolVal(True)
    base = ex.pc + [r, ca, cb]

    def one(): return same(a.val(i), b.val(i))
    paths = ex.explore(one, base=base, index_vars=(ex.frames[-1].index_vars if ex.frames else ()) + (i,), prefix=str(i) + '.')
    s = [z3.Implies(since(pc, len(base)), t) for pc, t in paths]
    return z3.And(a.n == b.n, z3.Implies(r, ca == cb), z3.Implies(z3.And(r, ca, cb), z3.And(*s)) if s else z3.BoolVal(True))


def same_term(interp, a, b):
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        if not (isinstance(a, Opaque) and isinstance(b, Opaque)): raise Unsupported('comparison of an opaque payload')
        return a.z == b.z
    if isinstance(a, jsonv.SJson) and isinstance(b, jsonv.SJson): return a.z == b.z
    if isinstance(a, jsonv.SJson) or isinstance(b, jsonv.SJson):
        if isinstance(b, jsonv.SJson): a, b = b, a
        if isinstance(b, (bytes, SBytes)): return z3.BoolVal(False)
        return a.z == jsonv.to_jv(interp, b)
    for k in ((str, SStr), (bytes, SBytes)):
        if isinstance(a, k) or isinstance(b, k):
            if not (isinstance(a, k) and isinstance(b, k)): return z3.BoolVal(False)
            return ztext(a) == ztext(b)
    if not jsonv.has_sym(a) and not jsonv.has_sym(b):
        from specs import jwsref
        from .interp import unlift
        return z3.BoolVal(jwsref.same(unlift(a), unlift(b)))
    return jsonv.to_jv(interp, a) == jsonv.to_jv(interp, b)
