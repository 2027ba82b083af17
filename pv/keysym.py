"""Keys of unknown material, described as in specs/keys.py.

A description is a dictionary {'t', 'i'/'crv','d'/'k', 'priv', 'kid', 'use',
'alg'} whose values are symbolic.  RSA material is an abstract key pair, an EC
key a private integer d with the public point PUB(curve, d), a symmetric key
any non-empty octets.
"""
import z3
from .core import *
from .values import *
from . import texts, lib
from .models import model
from .lib import RsaX, UF, need_bytes

CRVS = ('P-256', 'P-384', 'P-521')


def describe(interp, t, name, i):
    """The description of key number i (a term) of the input."""
    ex = interp.ex
    d = interp.new_dict()
    kind = UF('KEY_kind_' + name, IS, IS)(i)
    kinds = t.kinds
    n = 0
    while n < len(kinds) - 1:
        if ex.branch(kind == n): break
        n += 1
    d['t'] = kinds[n]
    if t.meta:
        for m in ('kid', 'use', 'alg'):
            z = UF('KEY_%s_%s' % (m, name), IS, SS)(i)
            ex.fact(z3.Length(z) < 2 ** 40)
            d[m] = mktext(SStr, [z])
    if d['t'] == 'oct':
        z = UF('KEY_k_' + name, IS, SS)(i)
        ex.fact(z3.And(z3.Length(z) >= 1, z3.Length(z) < 2 ** 40))
        d['k'] = mktext(SBytes, [z])
        return d
    d['priv'] = t.private if t.private is not None else SBool(UF('KEY_priv_' + name, IS, BS)(i))
    if d['t'] == 'RSA':
        d['i'] = SInt(UF('KEY_rsa_' + name, IS, IS)(i))
        return d
    if t.crv: d['crv'] = t.crv
    else:
        c = UF('KEY_crv_' + name, IS, IS)(i)
        n = 0
        while n < 2:
            if ex.branch(c == n): break
            n += 1
        d['crv'] = CRVS[n]
    d['d'] = SInt(UF('KEY_d_' + name, IS, IS)(i))
    ex.assume(d['d'].z >= 1)
    from specs import ecref
    ex.assume(d['d'].z < ecref.P[d['crv']]['n'])
    return d


def one(interp, t, name): return describe(interp, t, name, z3.IntVal(0))


class Description(PDict):
    """The description of key i of a list: its fields are found out (paths are
    split on the kind of the key) when they are asked for."""

    def __init__(self, interp, t, name, i):
        dict.__init__(self)
        self.interp, self.t, self.name, self.i = interp, t, name, i
        self.stamp = 0

    def force(self):
        ex = self.interp.ex
        tag = ('keys', self.name)
        memo = ex.state.get(tag, {})
        if self.i.get_id() not in memo:
            d = describe(self.interp, self.t, self.name, self.i)
            d.stamp = 0
            memo = dict(ex.state.get(tag, {}))
            memo[self.i.get_id()] = (self.i, d)
            ex.state[tag] = memo
        return memo[self.i.get_id()][1]

    def known(self): return self.i.get_id() in self.interp.ex.state.get(('keys', self.name), {})

    def __getitem__(self, k): return self.force()[k]
    def __contains__(self, k): return k in self.force()
    def __iter__(self): return iter(self.force())
    def __len__(self): return len(self.force())
    def __bool__(self): return True
    def get(self, k, d=None): return self.force().get(k, d)
    def keys(self): return self.force().keys()
    def values(self): return self.force().values()
    def items(self): return self.force().items()
    def copy(self): return self.force().copy()


def valid_term(interp, alg, d, msg, sig):
    """sigref.valid for one algorithm name and key d.i of a list, as a formula."""
    from specs import sigref, ref, ecref
    ex, t = interp.ex, d.t
    kt = sigref.KTY[alg[:2]]
    if kt not in t.kinds: return z3.BoolVal(False)
    i, h = d.i, sigref.HASH[alg[2:]]
    k = UF('KEY_kind_' + d.name, IS, IS)(i)
    n = t.kinds.index(kt)
    isk = k == n if n < len(t.kinds) - 1 else z3.And(*[k != m for m in range(n)])
    if kt == 'oct':
        z = UF('KEY_k_' + d.name, IS, SS)(i)
        return z3.And(isk, ztext(lib.hmac_term(h, mktext(SBytes, [z]), msg)) == ztext(sig))
    if kt == 'RSA':
        return z3.And(isk, UF('%s_%s_VALID' % (alg[:2], h), IS, SS, SS, BS)(UF('RSAPAIR', IS, IS)(UF('KEY_rsa_' + d.name, IS, IS)(i)), ztext(msg), ztext(sig)))
    crv = sigref.EC_OF[alg]
    x = UF('KEY_d_' + d.name, IS, IS)(i)
    hz = lib.os2ip_term(ex, lib.hash_term(h, msg))
    if t.crv: return z3.And(isk, ecdsa_term(crv, hz, sig, pub(interp, t.crv, x, isk)))
    c = UF('KEY_crv_' + d.name, IS, IS)(i)
    out = []
    for m, k in enumerate(CRVS):
        isc = z3.And(isk, c == m if m < 2 else z3.And(c != 0, c != 1))
        out.append(z3.And(isc, ecdsa_term(crv, hz, sig, pub(interp, k, x, isc))))
    return z3.Or(*out)


def many(interp, t, name):
    n = z3.Int('in_%s_n' % name)
    interp.ex.assume(z3.And(n >= 0, n < 2 ** 30))
    tag = ('keys', name)

    return View(tag, n, lambda i: Description(interp, t, name, z3.simplify(zint(i))), ghost=dict(keys=name))


def concrete(c, t, v):
    d = {}
    for k, x in v.items():
        if k in ('t', 'crv', 'priv') and not isinstance(x, Sym): d[k] = x
        elif k == 'i': d[k] = 0
        elif k == 'd': d[k] = max(1, min(c.value(x), 1 << 200))
        else: d[k] = c.value(x)
    for m in ('kid', 'use', 'alg'):
        if m in d and not d[m]: del d[m]
    return d


def pub(interp, crv, d, when=True):
    """The public point of a private integer."""
    from specs import ecref
    ex = interp.ex
    nm = crv.replace('-', '')
    x, y = UF('PUBX_' + nm, IS, IS)(zint(d)), UF('PUBY_' + nm, IS, IS)(zint(d))
    p = ecref.P[crv]['p']
    ex.assume(z3.Implies(when, z3.And(x > 0, x < p, y > 0, y < p, UF('ONCURVE_' + nm, IS, IS, BS)(x, y))))
    return mkint(x), mkint(y)


def install():
    from specs import keys as K, ecref, sigref

    @model(K.build_all, pure=False)
    def m_build_all(interp, ds):
        v = interp.models.resolve_list(interp, ds) if isinstance(ds, PList) else ds
        if not isinstance(v, View): return interp.new_list([interp.call(K.build, [d], {}) for d in interp.concrete_iter(ds)])
        name = v.ghost.get('keys')
        if name is None: raise Unsupported('keys of a derived list')
        tag = ('built', name)

        def at(i):
            i = z3.simplify(zint(i))
            memo = interp.ex.state.get(tag, {})
            if i.get_id() not in memo:
                o = interp.call(K.build, [v.val(i)], {})
                o.ident = UF('KEYOBJ_' + name, IS, IS)(i)
                o.stamp = 0
                memo = dict(memo)
                memo[i.get_id()] = (i, o)
                interp.ex.state[tag] = memo
            return memo[i.get_id()][1]
        r = interp.new_list()
        r.view = View(v.src, v.n, at, v.cond, ghost=dict(built=name))
        return r

    @model(K.meta, pure=False)
    def m_meta(interp, d):
        out = interp.new_dict()
        for k in ('kid', 'use', 'alg'):
            if k in d: out[k] = d[k]
        return out

    @model(K.rsa_obj, pure=False)
    def m_rsa_obj(interp, i, priv):
        if not isinstance(i, Sym): i = z3.IntVal(i)
        return RsaX(UF('RSAPAIR', IS, IS)(zint(i)), z3.BoolVal(priv) if isinstance(priv, bool) else priv.z)

    @model(ecref.public, pure=False)
    def m_public(interp, crv, d):
        if not isinstance(d, Sym): return interp.native(ecref.public, [crv, d])
        return pub(interp, crv, d)

    @model(sigref.valid, pure=False)
    def m_valid(interp, alg, d, msg, sig):
        if not isinstance(d, Description): return interp.call(sigref.by_kind, [alg, d, msg, sig], {})
        for a in sigref.ALGS:
            if interp.truth(interp.models.compare(interp, 'Eq', alg, a)): return mkbool(valid_term(interp, a, d, need_bytes(interp, msg), need_bytes(interp, sig)))
        return False

    @model(sigref.ecdsa_valid, pure=False)
    def m_ecdsa_valid(interp, crv, h, sig, point):
        return mkbool(ecdsa_term(crv, h, sig, point))

    @model(sigref.rsa_valid, pure=False)
    def m_rsa_valid(interp, kind, h, i, msg, sig):
        return mkbool(UF('%s_%s_VALID' % (kind, h), IS, SS, SS, BS)(UF('RSAPAIR', IS, IS)(zint(i)), ztext(msg), ztext(sig)))


def ecdsa_term(crv, h, sig, point):
    """ECDSA_crv(h, sig, x, y); signatures of another length are never valid."""
    from specs import ecref
    n = 2 * ecref.P[crv]['size']
    f = UF('ECDSA_' + crv.replace('-', ''), IS, SS, IS, IS, BS)
    return z3.And(texts.tlen_z(sig) == n, f(zint(h), ztext(sig), zint(point[0]), zint(point[1])))
