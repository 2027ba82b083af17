"""Meaning of the library functions the code under verification calls.

These are the trusted axioms: every entry states what the library function
does, in terms of the uninterpreted functions the specifications use.  The
axioms are run against the real libraries with concrete values by
`python3-vt -m pv.libtest`.
"""
import base64
import binascii
import hashlib
import json
import logging
import math
import re
import struct
import zlib
import z3
from .core import *
from .values import *
from . import texts, jsonv
from .texts import tlen, tlen_z, concat
from .interp import MISSING, Ext, Method, is_conc, unlift, BoundM
from .models import model, FUNCS, Models, SFrac, is_text, is_intlike, resolve_json, conj, only_chars
from .jsonv import SJson

import Cryptodome.Random
import Cryptodome.Random.random
from Cryptodome.Cipher import AES, PKCS1_v1_5 as C15, PKCS1_OAEP
from Cryptodome.Hash import SHA, SHA256, SHA384, SHA512, HMAC
from Cryptodome.PublicKey import RSA
from Cryptodome.Signature import PKCS1_v1_5 as S15, PKCS1_PSS
from Cryptodome.Util import Counter
from Cryptodome.Util.number import bytes_to_long, long_to_bytes
from Cryptodome.Util.asn1 import DerSequence

L = texts.LEN
A = texts.ALPHA

# --------------------------------------------------------------- coercions


def need_bytes(interp, v, what='a bytes-like object is required'):
    if isinstance(v, SJson): v = resolve_json(interp, v)
    if isinstance(v, (bytes, SBytes)): return v
    raise interp.exc(TypeError, what)


def need_int(interp, v):
    if isinstance(v, SJson): v = resolve_json(interp, v)
    if is_intlike(v): return zint(v)
    raise interp.exc(TypeError, 'an integer is required')


# ------------------------------------------------------------------ base64
B64E = UF('B64E', SS, SS)           # unpadded base64url text of octets
B64D = UF('B64D', SS, SS)           # octets of a base64url text
ISB64U = UF('ISB64U', SS, BS)       # only characters of the base64url alphabet
LENIENT = UF('B64LENIENT', SS, SS)
LENIENT_OK = UF('B64LENIENT_OK', SS, BS)
A['B64E'] = 'b64u'


def _len_b64e(t):
    n = texts.zlen(t.arg(0)) if not concat_arg(t.arg(0)) else sum_len(t.arg(0))
    if isinstance(n, int): return (4 * n + 2) // 3
    return (4 * n + 2) / 3


def concat_arg(t): return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT


def sum_len(t):
    """Length of a string term as a rope."""
    v = mktext(SBytes, [t])
    n = tlen(v)
    return n.z if isinstance(n, SInt) else n


def _len_b64d(t):
    n = sum_len(t.arg(0))
    if isinstance(n, int): return 3 * n // 4
    return (3 * n) / 4


L['B64E'] = _len_b64e
L['B64D'] = _len_b64d


def b64e_term(b):
    """Rope for the unpadded base64url text of an octet string."""
    if isinstance(b, bytes): return base64.urlsafe_b64encode(b).rstrip(b'=')
    return mktext(SBytes, [B64E(b.z)])


def isb64u(ex, z):
    """Is the text z over the base64url alphabet (on this path)?"""
    if isinstance(z, (str, bytes)): return frozenset(z if isinstance(z, str) else z.decode('latin-1')) <= texts.ALPHABETS['b64u']
    al = texts.alphabet(z)
    if al is not None and al <= texts.ALPHABETS['b64u']: return True
    v = mktext(SBytes, [z])
    ps = text_parts(v)
    if len(ps) > 1:
        return all(isb64u(ex, p) for p in ps)
    if not ex.branch(ISB64U(z)): return False
    ex.fact(z3.And(texts.ISASCII(z), texts.ISUTF8(z), texts.DECU(z) == z, texts.ENC(z) == z, z3.Not(z3.SuffixOf(z3.StringVal('='), z))))
    return True


def b64_regular(ex, body):
    """isb64u for a rope."""
    for p in text_parts(body):
        if not isb64u(ex, p): return False
    return True


def b64d_term(body):
    """Octets of a base64url rope (no padding, possible length)."""
    ps = text_parts(body)
    if len(ps) == 1 and z3.is_expr(ps[0]) and texts.decl_name(ps[0]) == 'B64E':
        return mktext(SBytes, [ps[0].arg(0)])
    if not isinstance(body, Sym):
        b = body if isinstance(body, bytes) else body.encode()
        return base64.urlsafe_b64decode(b + b'=' * (-len(b) % 4))
    t = B64D(ztext(body))
    return mktext(SBytes, [t])


@model(base64.urlsafe_b64encode)
def m_b64e(interp, s):
    s = need_bytes(interp, s)
    if isinstance(s, bytes): return interp.native(base64.urlsafe_b64encode, [s])
    t = b64e_term(s)
    n = tlen(s)
    if isinstance(n, int): return concat(SBytes, [t, b'=' * (-n % 3)])
    ex = interp.ex
    if ex.branch(n.z % 3 == 0): k = 0
    elif ex.branch(n.z % 3 == 1): k = 2
    else: k = 1
    return concat(SBytes, [t, b'=' * k])


def split_padding(s):
    """(body, number of '=' at the end) of a rope, as far as visible."""
    ps = list(text_parts(s))
    k = 0
    while ps and not z3.is_expr(ps[-1]):
        p = ps[-1] if isinstance(ps[-1], bytes) else ps[-1].encode()
        q = p.rstrip(b'=')
        k += len(p) - len(q)
        if q:
            ps[-1] = q
            break
        ps.pop()
    return mktext(SBytes, ps), k


@model(base64.urlsafe_b64decode)
def m_b64d(interp, s):
    ex = interp.ex
    if isinstance(s, SJson): s = resolve_json(interp, s)
    if isinstance(s, (str, SStr)):
        for p in text_parts(s):
            if z3.is_expr(p) and not texts.is_ascii_piece(p):
                if not ex.branch(texts.ISASCII(p)): raise interp.exc(ValueError, 'string argument should contain only ASCII characters')
        s = mktext(SBytes, [p.encode() if isinstance(p, str) else p for p in text_parts(s)])
    s = need_bytes(interp, s)
    if isinstance(s, bytes): return interp.native(base64.urlsafe_b64decode, [s])
    body, k = split_padding(s)
    if isinstance(body, Sym):
        full = body
        body = interp.models.strip(interp, full, 'rstrip', b'=')
        k = texts.add_i(k, z3.simplify(tlen_z(full) - tlen_z(body))) if body is not full and ztext(body) is not ztext(full) else k
        if z3.is_expr(k): k = z3.simplify(k)
        if z3.is_int_value(k) if z3.is_expr(k) else False: k = k.as_long()
    if b64_regular(ex, body):
        n = tlen(body)
        r = n % 4 if isinstance(n, int) else None
        if r is None:
            for r in (0, 1, 2):
                if ex.branch(n.z % 4 == r): break
            else: r = 3
        if r == 1: raise interp.exc(binascii.Error, 'Invalid base64-encoded string')
        short = k < (-r) % 4
        if short if isinstance(short, bool) else ex.branch(short): raise interp.exc(binascii.Error, 'Incorrect padding')
        return b64d_term(body)
    z = ztext(s)
    if not ex.branch(LENIENT_OK(z)): raise interp.exc(binascii.Error, 'Incorrect padding')
    return mktext(SBytes, [LENIENT(z)])


@model(base64.b64decode)
def m_b64decode(interp, s, altchars=None, validate=False):
    if altchars is not None or validate: raise Unsupported('b64decode arguments')
    if isinstance(s, SJson): s = resolve_json(interp, s)
    if not is_text(s): raise interp.exc(TypeError, 'argument should be a bytes-like object or ASCII string')
    if is_conc(s): return interp.native(base64.b64decode, [s])
    z = ztext(s)
    if not interp.ex.branch(UF('STDB64_OK', SS, BS)(z)): raise interp.exc(binascii.Error, 'Incorrect padding')
    return mktext(SBytes, [UF('STDB64', SS, SS)(z)])


@model(base64.b64encode)
def m_b64encode(interp, s, altchars=None):
    if is_conc((s, altchars)): return interp.native(base64.b64encode, [s, altchars])
    raise Unsupported('b64encode')


# ----------------------------------------------------------- integer codings
BE = UF('BE', IS, IS, SS)           # x in exactly n octets, big-endian
OS2IP = UF('OS2IP', SS, IS)
MINLEN = UF('MINLEN', IS, IS)       # octets of the minimal coding (0 for 0)
L['BE'] = lambda t: t.arg(1).as_long() if z3.is_int_value(t.arg(1)) else t.arg(1)


def be_term(ex, x, n):
    """x as n octets, for 0 <= x < 256**n."""
    if isinstance(x, int): x = z3.IntVal(x)
    if z3.is_int_value(x) and isinstance(n, int): return x.as_long().to_bytes(n, 'big')
    nm = texts.decl_name(x)
    if nm == 'OS2IP':
        v = mktext(SBytes, [x.arg(0)])
        if texts.same(zint(tlen(v)), zint(n)) or ex.must(zint(tlen(v)) == zint(n)): return v
    return mktext(SBytes, [BE(x, zint(n))])


def os2ip_term(ex, v):
    if isinstance(v, bytes): return int.from_bytes(v, 'big')
    ps = text_parts(v)
    # leading zero octets do not count
    if isinstance(ps[0], bytes) and ps[0].strip(b'\0') == b'':
        return os2ip_term(ex, mktext(SBytes, ps[1:]))
    if len(ps) == 1 and texts.decl_name(ps[0]) == 'BE': return mkint(ps[0].arg(0))
    if len(ps) > 1 and texts.decl_name(ps[0]) == 'REPEAT' and z3.simplify(ps[0].arg(0) == zstr(chr(0))).eq(z3.BoolVal(True)):
        return os2ip_term(ex, mktext(SBytes, ps[1:]))
    if len(ps) == 1 and texts.decl_name(ps[0]) in ('MINBE', 'MINBE0'): return mkint(ps[0].arg(0))
    t = OS2IP(v.z)
    ex.fact(t >= 0)
    n = tlen(v)
    if isinstance(n, int):
        if n <= 128: ex.fact(t < z3.IntVal(256 ** n))
    return mkint(t)


@model(bytes_to_long)
def m_bytes_to_long(interp, s):
    s = need_bytes(interp, s)
    return os2ip_term(interp.ex, s)


MINBE = UF('MINBE', IS, SS)         # minimal coding, one zero octet for 0
L['MINBE'] = lambda t: UF('MINBELEN', IS, IS)(t.arg(0))


MINBE0 = UF('MINBE0', IS, SS)       # minimal coding, nothing for 0
L['MINBE0'] = lambda t: UF('MINBE0LEN', IS, IS)(t.arg(0))


def minbe_term(ex, n):
    """The minimal coding of n >= 0, one zero octet for 0."""
    x = zint(n)
    ml = UF('MINBELEN', IS, IS)(x)
    ex.fact(z3.And(ml >= 1, z3.Implies(x >= 0, OS2IP(MINBE(x)) == x), z3.Length(MINBE(x)) == ml, z3.Implies(x == 0, z3.And(ml == 1, MINBE(x) == z3.StringVal(chr(0)))),
                   B64E(z3.StringVal(chr(0))) == z3.StringVal('AA')))
    return mktext(SBytes, [MINBE(x)])


def minbe0_term(interp, n):
    """Base-256 digits of n >= 0, by their definition: those of n div 256, then n mod 256."""
    ex = interp.ex
    x = z3.simplify(zint(n))
    q, r = z3.simplify(x / 256), z3.simplify(x % 256)
    for t in (x, q):
        ex.fact(z3.And(UF('MINBE0LEN', IS, IS)(t) >= 0, z3.Implies(t >= 0, OS2IP(MINBE0(t)) == t), z3.Length(MINBE0(t)) == UF('MINBE0LEN', IS, IS)(t), z3.Implies(t == 0, MINBE0(t) == z3.StringVal('')),
                       z3.Implies(t > 0, z3.And(UF('MINBE0LEN', IS, IS)(t) > 0, MINBE(t) == MINBE0(t), UF('MINBELEN', IS, IS)(t) == UF('MINBE0LEN', IS, IS)(t)))))
    ex.fact(z3.Implies(x > 0, MINBE0(x) == z3.Concat(MINBE0(q), ztext(be_term(ex, r, 1)) if z3.is_expr(ztext(be_term(ex, r, 1))) else zstr(be_term(ex, r, 1)))))
    return mktext(SBytes, [MINBE0(x)])


@model(long_to_bytes)
def m_long_to_bytes(interp, n, blocksize=0):
    if isinstance(n, SJson): n = resolve_json(interp, n)
    if not is_intlike(n) or not is_intlike(blocksize): raise interp.exc(TypeError, 'an integer is required')
    if is_conc((n, blocksize)): return interp.native(long_to_bytes, [n, blocksize])
    ex = interp.ex
    x = zint(n)
    if isinstance(blocksize, Sym): raise Unsupported('symbolic block size')
    if not ex.must(x >= 0) and not ex.branch(x >= 0): raise interp.exc(ValueError, 'Values must be non-negative')
    if blocksize < 0: raise interp.exc(ValueError, 'Values must be non-negative')
    if blocksize == 0:
        t = MINBE(x)
        ex.fact(UF('MINBELEN', IS, IS)(x) >= 1)
        return mktext(SBytes, [t])
    if ex.must(x < 256 ** blocksize) or ex.branch(x < 256 ** blocksize): return be_term(ex, x, blocksize)
    t = UF('BEBLOCKS%d' % blocksize, IS, SS)(x)
    ex.fact(z3.Length(t) > blocksize)
    ex.fact(z3.Length(t) % blocksize == 0)
    return mktext(SBytes, [t])


def int_to_bytes_exact(interp, o, ln):
    ex = interp.ex
    x = zint(o)
    if not ex.branch(x >= 0): raise interp.exc(OverflowError, "can't convert negative int to unsigned")
    if isinstance(ln, int):
        if not ex.branch(x < 256 ** ln): raise interp.exc(OverflowError, 'int too big to convert')
        return be_term(ex, x, ln)
    raise Unsupported('to_bytes with a symbolic length')


def byte_of(interp, x):
    ex = interp.ex
    if not is_intlike(x): raise interp.exc(TypeError, 'an integer is required')
    z = zint(x)
    if not (ex.must(z3.And(z >= 0, z < 256)) or ex.branch(z3.And(z >= 0, z < 256))):
        raise interp.exc(ValueError, 'bytes must be in range(0, 256)')
    if z3.is_int_value(z): return bytes([z.as_long()])
    if z3.is_app(z) and z.decl().kind() == z3.Z3_OP_STR_TO_CODE: return mktext(SBytes, [z.arg(0)])
    return be_term(ex, z, 1)


HEXLIFY = UF('HEXLIFY', SS, SS)
A['HEXLIFY'] = 'hex'


def _hexlen(t):
    n = sum_len(t.arg(0))
    return 2 * n


L['HEXLIFY'] = _hexlen
L['HEX2'] = 2


def hexlify_text(interp, b):
    if isinstance(b, bytes): return b.hex()
    return mktext(SStr, [HEXLIFY(b.z)])


def hex_octets(v):
    """Octet rope of which the text is the hexadecimal form, or None."""
    out = []
    for p in text_parts(v):
        if isinstance(p, (str, bytes)):
            s = p if isinstance(p, str) else p.decode('latin-1')
            if len(s) % 2: return None
            try:
                out.append(bytes.fromhex(s))
            except ValueError:
                return None
        elif texts.decl_name(p) == 'HEXLIFY': out.append(p.arg(0))
        elif texts.decl_name(p) == 'HEX2':
            t = p.arg(0)
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_STR_TO_CODE: out.append(t.arg(0))
            else: out.append(BE(t, z3.IntVal(1)))
        else: return None
    return mktext(SBytes, texts.merge_pieces(out))


def int_of_hex(interp, v):
    if texts.decl_name(text_parts(v)[0]) == 'HEXNUM' and len(text_parts(v)) == 1:
        return mkint(text_parts(v)[0].arg(0))
    o = hex_octets(v)
    if o is None: raise Unsupported('int of a hexadecimal text')
    n = tlen(o)
    if isinstance(n, int):
        if n == 0: raise interp.exc(ValueError, "invalid literal for int() with base 16: ''")
    elif not interp.ex.branch(n.z > 0): raise interp.exc(ValueError, "invalid literal for int() with base 16: ''")
    return os2ip_term(interp.ex, o)


def hex_of(interp, v):
    z = zint(v)
    if not interp.ex.branch(z >= 0): raise Unsupported('hex of a negative number')
    A['HEXNUM'] = 'hex'
    return mktext(SStr, ['0x', UF('HEXNUM', IS, SS)(z)])


@model(binascii.unhexlify, binascii.a2b_hex)
def m_unhexlify(interp, s):
    if isinstance(s, (str, bytes)): return interp.native(binascii.unhexlify, [s])
    if not is_text(s): raise interp.exc(TypeError, 'argument should be bytes or ASCII string')
    ps = text_parts(s)
    if texts.decl_name(ps[-1]) == 'HEXNUM' and (len(ps) == 1 or len(ps) == 2 and ps[0] in ('0', b'0')):
        # digits of a number, an even number of them
        x = ps[-1].arg(0)
        if interp.ex.must(UF('HEXNUMLEN', IS, IS)(x) % 2 == (len(ps) - 1)): return minbe_term(interp.ex, mkint(x))
    o = hex_octets(s)
    if o is None: raise Unsupported('unhexlify')
    return o


@model(binascii.hexlify, binascii.b2a_hex)
def m_hexlify(interp, s):
    s = need_bytes(interp, s)
    if isinstance(s, bytes): return binascii.hexlify(s)
    return mktext(SBytes, [HEXLIFY(s.z)])


# -------------------------------------------------------------------- struct
SIZES = {'B': 1, 'H': 2, 'I': 4, 'L': 4, 'Q': 8}


def parse_fmt(interp, fmt):
    if isinstance(fmt, (Sym,)): return None
    if isinstance(fmt, bytes): fmt = fmt.decode()
    m = re.match(r'^([!>]?)((?:\d*[BHILQ])+)\Z', fmt)
    if not m: return None
    items = []
    for c, k in re.findall(r'(\d*)([BHILQ])', m.group(2)):
        items.extend([k] * (int(c) if c else 1))
    if not m.group(1) and any(k != 'B' for k in items): return None
    return items


def do_pack(interp, fmt, args):
    if is_conc(args) and is_conc(fmt): return interp.native(struct.pack, [fmt] + list(args))
    if len(args) == 1 and isinstance(args[0], StarView): return pack_view(interp, fmt, args[0].view)
    items = parse_fmt(interp, fmt)
    if items is None: raise Unsupported('struct format %r' % (fmt,))
    if len(items) != len(args): raise interp.exc(struct.error, 'pack expected items')
    out = []
    for k, v in zip(items, args):
        if not is_intlike(v): raise interp.exc(struct.error, 'required argument is not an integer')
        z = zint(v)
        n = SIZES[k]
        ok = z3.And(z >= 0, z < 256 ** n)
        if not interp.ex.must(ok) and not interp.ex.branch(ok): raise interp.exc(struct.error, 'argument out of range')
        if n == 1: out.append(byte_of(interp, v))
        else: out.append(be_term(interp.ex, z, n))
    return concat(SBytes, out)


def do_unpack(interp, fmt, s):
    s = need_bytes(interp, s)
    if isinstance(s, bytes) and is_conc(fmt): return interp.native(struct.unpack, [fmt, s])
    ps = text_parts(fmt) if isinstance(fmt, SText) else ()
    if len(ps) == 2 and ps[1] == 'B' and texts.decl_name(ps[0]) == 'STR_i':
        # '%sB' % n
        n = ps[0].arg(0)
        ok = tlen_z(s) == n
        if not interp.ex.must(ok) and not interp.ex.branch(ok): raise interp.exc(struct.error, 'unpack requires a buffer')
        v = interp.models.iterate(interp, s)
        if isinstance(v, View): return View(v.src, v.n, v.val, v.cond, tuplelike=True, ghost=dict(bytes=s))
        return tuple(v)
    items = parse_fmt(interp, fmt)
    if items is None: raise Unsupported('struct format %r' % (fmt,))
    tot = sum(SIZES[k] for k in items)
    ok = tlen_z(s) == tot
    if not interp.ex.must(ok) and not interp.ex.branch(ok): raise interp.exc(struct.error, 'unpack requires a buffer of %d bytes' % tot)
    out, off = [], 0
    for k in items:
        n = SIZES[k]
        piece = texts.slice_text(interp.ex, s, off, off + n)
        off += n
        if n == 1: out.append(interp.models.getitem(interp, piece, 0))
        else: out.append(os2ip_term(interp.ex, piece))
    return tuple(out)


class StarView(Sym):
    """*view in a call."""
    __slots__ = ('view',)

    def __init__(self, view): self.view = view


def pack_view(interp, fmt, v):
    g = v.ghost.get('octets')
    if g is None:
        from . import octets
        ps = text_parts(fmt) if isinstance(fmt, SText) else ()
        s = octets.octets_of(interp, v)
        if s is None or not (len(ps) == 2 and ps[1] == 'B' and texts.decl_name(ps[0]) == 'STR_i') or not interp.ex.must(ps[0].arg(0) == v.n):
            raise Unsupported('struct.pack of a symbolic sequence')
        return s
    return g(interp)


@model(struct.pack)
def m_pack(interp, fmt, *args): return do_pack(interp, fmt, list(args))


@model(struct.unpack)
def m_unpack(interp, fmt, s): return do_unpack(interp, fmt, s)


# --------------------------------------------------------------------- math
@model(math.gcd)
def m_gcd(interp, a, b):
    """gcd(a, b) = gcd(b, a mod b), gcd(a, 0) = a for a >= 0."""
    if not (is_intlike(a) and is_intlike(b)): raise Unsupported('gcd')
    x, y = zint(a), zint(b)
    if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_MOD and y.arg(1).eq(x): x, y = y.arg(0), x
    g = UF('GCD', IS, IS, IS)(x, y)
    interp.ex.fact(z3.And(g >= 0, z3.Implies(z3.And(y == 0, x >= 0), g == x), z3.Implies(y > 0, z3.And(g > 0, g <= y))))
    return mkint(g)


@model(math.ceil)
def m_ceil(interp, x):
    if isinstance(x, SFrac): return mkint(-((-zint(x.num)) / x.den))
    if isinstance(x, SInt): return x
    if is_conc(x): return interp.native(math.ceil, [x])
    raise Unsupported('ceil')


@model(math.floor)
def m_floor(interp, x):
    if isinstance(x, SFrac): return mkint(zint(x.num) / x.den)
    if isinstance(x, SInt): return x
    if is_conc(x): return interp.native(math.floor, [x])
    raise Unsupported('floor')


# -------------------------------------------------------------------- hashes
HASHLEN = {'sha1': 20, 'sha256': 32, 'sha384': 48, 'sha512': 64}


def hash_term(name, data):
    if isinstance(data, bytes): return hashlib.new(name, data).digest()
    f = UF('HASH_' + name, SS, SS)
    L['HASH_' + name] = HASHLEN[name]
    return mktext(SBytes, [f(data.z)])


def hmac_term(name, key, data):
    if isinstance(key, bytes) and isinstance(data, bytes):
        import hmac
        return hmac.new(key, data, name).digest()
    f = UF('HMAC_' + name, SS, SS, SS)
    L['HMAC_' + name] = HASHLEN[name]
    return mktext(SBytes, [f(ztext(key), ztext(data))])


class HashX(Ext):
    """A hash or MAC computation in progress."""

    def __init__(self, fin, size, data, name):
        self.fin, self.size, self.data, self.name = fin, size, data, name

    def get(self, interp, name):
        if name in ('update', 'digest', 'hexdigest', 'copy'): return Method2(self, name)
        if name == 'digest_size': return self.size
        raise Unsupported('hash attribute %s' % name)

    def call(self, interp, name, args):
        if name == 'update':
            if interp.barrier > 1: raise Unsupported('hash update in a loop')
            self.data = concat(SBytes, [self.data, need_bytes(interp, args[0])])
            return self
        if name == 'digest': return self.fin(self.data)
        if name == 'hexdigest': return hexlify_text(interp, self.fin(self.data))
        if name == 'copy': return HashX(self.fin, self.size, self.data, self.name)


class Method2(Ext):
    """Method of an Ext object."""

    def __init__(self, obj, name): self.obj, self.name = obj, name

    def get(self, interp, name):
        if name == '__call__': return self
        raise Unsupported('method attribute')

    def invoke(self, interp, args, kw): return self.obj.call(interp, self.name, list(args), **kw)


def _hash_new(modname):
    def new(interp, data=None, *a, **kw):
        if a or kw: raise Unsupported('hash arguments')
        d = b'' if data is None else need_bytes(interp, data)
        return HashX(lambda x: hash_term(modname, x), HASHLEN[modname], d, modname)
    new.pure = False
    return new


HASHMOD = {id(SHA): 'sha1', id(SHA256): 'sha256', id(SHA384): 'sha384', id(SHA512): 'sha512'}
for _m, _n in ((SHA, 'sha1'), (SHA256, 'sha256'), (SHA384, 'sha384'), (SHA512, 'sha512')):
    FUNCS[id(_m.new)] = (_m.new, _hash_new(_n))
for _n in HASHLEN:
    _f = getattr(hashlib, _n)
    FUNCS[id(_f)] = (_f, _hash_new(_n))


@model(HMAC.new, pure=False)
def m_hmac_new(interp, key, msg=b'', digestmod=None):
    name = 'md5' if digestmod is None else HASHMOD.get(id(digestmod))
    if name not in HASHLEN: raise Unsupported('HMAC digest')
    key = need_bytes(interp, key)
    msg = b'' if msg is None else need_bytes(interp, msg)
    return HashX(lambda x: hmac_term(name, key, x), HASHLEN[name], msg, 'hmac-' + name)


import hmac as _hmac


@model(_hmac.compare_digest)
def m_compare_digest(interp, a, b):
    if is_conc((a, b)): return interp.native(_hmac.compare_digest, [a, b])
    if not is_text(a) or not is_text(b): raise interp.exc(TypeError, 'unsupported operand types')
    return interp.models.eq_value(interp, a, b)


# ----------------------------------------------------------------------- AES
AESE = UF('AESE', SS, SS, SS)       # block encryption key, block
AESD = UF('AESD', SS, SS, SS)
CBCE = UF('CBCE', SS, SS, SS, SS)   # key, iv, data
CBCD = UF('CBCD', SS, SS, SS, SS)
CTRX = UF('CTRX', SS, SS, IS, IS, SS, SS)   # key, prefix, initial value, offset, data
L['AESE'] = L['AESD'] = 16
L['CBCE'] = L['CBCD'] = lambda t: sum_len(t.arg(2))
L['CTRX'] = lambda t: sum_len(t.arg(4))
# the decryption of an encryption is the plaintext
texts.INVERSE.update({'AESD': 'AESE', 'CBCD': 'CBCE'})


def aes_block(key, block, dec=False):
    z = ztext(block)
    k = ztext(key)
    if isinstance(key, bytes) and isinstance(block, bytes):
        c = AES.new(key, AES.MODE_ECB)
        return c.decrypt(block) if dec else c.encrypt(block)
    if texts.decl_name(z) == ('AESE' if dec else 'AESD') and z.arg(0).eq(k): return mktext(SBytes, [z.arg(1)])
    return mktext(SBytes, [(AESD if dec else AESE)(k, z)])


def cbc(key, iv, data, dec=False):
    k, i, z = ztext(key), ztext(iv), ztext(data)
    if not isinstance(key, Sym) and not isinstance(iv, Sym) and not isinstance(data, Sym):
        c = AES.new(key, AES.MODE_CBC, iv)
        return c.decrypt(data) if dec else c.encrypt(data)
    nm = 'CBCE' if dec else 'CBCD'
    if texts.decl_name(z) == nm and z.arg(0).eq(k) and z.arg(1).eq(i): return mktext(SBytes, [z.arg(2)])
    return mktext(SBytes, [(CBCD if dec else CBCE)(k, i, z)])


def ctr(key, prefix, init, data):
    """Counter mode piecewise: each piece of the data at its offset."""
    out, off = [], 0
    k, p = ztext(key), ztext(prefix)
    for x in text_parts(data):
        n = texts.zlen(x)
        z = zstr(x) if isinstance(x, bytes) else x
        o = zint(off)
        if texts.decl_name(z) == 'CTRX' and z.arg(0).eq(k) and z.arg(1).eq(p) and z.arg(2).eq(zint(init)) and texts.same(z.arg(3), o):
            out.append(z.arg(4))
        else:
            out.append(CTRX(k, p, zint(init), z3.simplify(o), z))
        off = texts.add_i(off, n)
    return mktext(SBytes, out)


class CounterX(Ext):
    def __init__(self, prefix, init): self.prefix, self.init = prefix, init

    def get(self, interp, name): raise Unsupported('counter attribute')


@model(Counter.new, pure=False)
def m_counter(interp, nbits, prefix=b'', suffix=b'', initial_value=1, little_endian=False, allow_wraparound=False):
    if not is_conc((nbits, suffix, little_endian)) or suffix or little_endian: raise Unsupported('counter')
    prefix = need_bytes(interp, prefix)
    n = tlen(prefix)
    if not isinstance(n, int): raise Unsupported('counter prefix')
    if nbits % 8: raise interp.exc(ValueError, "'nbits' must be a multiple of 8")
    c = CounterX(prefix, initial_value)
    c.size = n + nbits // 8
    c.nbits = nbits
    return c


class AesX(Ext):
    def __init__(self, key, mode, iv, counter): self.key, self.mode, self.iv, self.counter, self.used = key, mode, iv, counter, None

    def get(self, interp, name):
        if name in ('encrypt', 'decrypt'): return Method2(self, name)
        if name == 'block_size': return 16
        raise Unsupported('cipher attribute %s' % name)

    def call(self, interp, name, args, **kw):
        if kw: raise Unsupported('cipher arguments')
        data = need_bytes(interp, args[0])
        ex = interp.ex
        if self.mode in (AES.MODE_CBC, AES.MODE_CTR):
            if self.used: raise Unsupported('cipher object used twice')
            if interp.barrier > 1: raise Unsupported('stateful cipher in a loop')
            self.used = name
        if self.mode == AES.MODE_CTR: return ctr(self.key, self.counter.prefix, self.counter.init, data)
        n = tlen(data)
        ok = (n % 16 == 0) if isinstance(n, int) else n.z % 16 == 0
        if not ex.must(ok) and not ex.branch(ok): raise interp.exc(ValueError, 'Data must be aligned to block boundary')
        if self.mode == AES.MODE_CBC: return cbc(self.key, self.iv, data, name == 'decrypt')
        if not isinstance(n, int): raise Unsupported('ECB of data of symbolic length')
        out = []
        for i in range(0, n, 16):
            out.append(aes_block(self.key, texts.slice_text(ex, data, i, i + 16), name == 'decrypt'))
        return concat(SBytes, out)


@model(AES.new, pure=False)
def m_aes_new(interp, key, mode, *args, **kw):
    ex = interp.ex
    if not isinstance(mode, int): raise Unsupported('AES mode')
    key = need_bytes(interp, key)
    n = tlen(key)
    ok = n in (16, 24, 32) if isinstance(n, int) else z3.Or(n.z == 16, n.z == 24, n.z == 32)
    if not ex.must(ok) and not ex.branch(ok): raise interp.exc(ValueError, 'Incorrect AES key length')
    if mode == AES.MODE_ECB:
        if args or kw: raise interp.exc(TypeError, 'unexpected arguments for ECB')
        return AesX(key, mode, None, None)
    if mode == AES.MODE_CBC:
        iv = args[0] if args else kw.get('iv', kw.get('IV'))
        if iv is None: raise Unsupported('CBC without an IV')
        iv = need_bytes(interp, iv)
        m = tlen(iv)
        ok = m == 16 if isinstance(m, int) else m.z == 16
        if not ex.must(ok) and not ex.branch(ok): raise interp.exc(ValueError, 'Incorrect IV length')
        return AesX(key, mode, iv, None)
    if mode == AES.MODE_CTR:
        c = kw.get('counter')
        if not isinstance(c, CounterX) or args or len(kw) != 1: raise Unsupported('CTR mode arguments')
        if c.size != 16 or c.nbits != 32: raise Unsupported('counter size')
        return AesX(key, mode, None, c)
    raise Unsupported('AES mode %r' % mode)


# ----------------------------------------------------------------------- RSA
class RsaX(Ext):
    """An RSA key of unknown content."""
    pyclass = RSA.RsaKey

    def __init__(self, z, priv=None): self.z, self.priv_ = z, priv

    def priv(self): return UF('RSA_PRIV', IS, BS)(self.z) if self.priv_ is None else self.priv_

    def get(self, interp, name):
        ex = interp.ex
        if name in ('n', 'e'):
            t = UF('RSA_' + name, IS, IS)(self.z)
            ex.fact(t > 0)
            return mkint(t)
        if name in ('d', 'p', 'q', 'u', 'dp', 'dq', 'invq'):
            if not ex.branch(self.priv()): raise interp.exc(AttributeError, name)
            t = UF('RSA_' + name, IS, IS)(self.z)
            ex.fact(t > 0)
            return mkint(t)
        if name == 'has_private': return Method2(self, name)
        if name in ('publickey', 'public_key'): return Method2(self, 'publickey')
        raise Unsupported('RSA key attribute %s' % name)

    def call(self, interp, name, args, **kw):
        if name == 'has_private': return mkbool(self.priv())
        if name == 'publickey': return RsaX(self.z, z3.BoolVal(False))
        raise Unsupported('RSA key method %s' % name)

    def eq(self, interp, o):
        if isinstance(o, RsaX): return True if self.z.eq(o.z) else self.z == o.z
        return False


def rsa_new(kind):
    def new(interp, key, *args, **kw):
        if not isinstance(key, RsaX):
            if isinstance(key, RSA.RsaKey): raise Unsupported('concrete RSA key')
            if isinstance(key, (Opaque, SJson)): raise Unsupported('RSA key')
            # the library only fails when the key is used; every use fails
            return RsaBad(key)
        h = None
        if kind == 'oaep':
            hm = args[0] if args else kw.pop('hashAlgo', None)
            h = 'sha1' if hm is None else HASHMOD.get(id(hm))
            if h is None: raise Unsupported('OAEP hash')
            args = args[1:]
        if args or kw: raise Unsupported('RSA scheme arguments')
        return RsaScheme(kind, key, h)
    new.pure = False
    return new


class RsaBad(Ext):
    """A scheme object around something that is no RSA key: every use fails.
    Such a call is wrong whatever the library raises."""

    def __init__(self, key): self.key = key

    def get(self, interp, name):
        raise interp.exc(AttributeError, 'not an RSA key')


class RsaScheme(Ext):
    def __init__(self, kind, key, h): self.kind, self.key, self.h = kind, key, h

    def get(self, interp, name):
        ok = {'sig15': ('sign', 'verify', 'can_sign'), 'pss': ('sign', 'verify', 'can_sign'),
              'enc15': ('encrypt', 'decrypt'), 'oaep': ('encrypt', 'decrypt')}[self.kind]
        if name in ok: return Method2(self, name)
        raise interp.exc(AttributeError, name)

    def call(self, interp, name, args, **kw):
        ex = interp.ex
        k = self.key.z
        if name in ('sign', 'decrypt'):
            if not ex.branch(self.key.priv()): raise interp.exc(TypeError, 'This is not a private key')
        if name in ('sign', 'verify'):
            h = args[0]
            if not isinstance(h, HashX) or h.name.startswith('hmac'): raise Unsupported('hash object')
            d = ztext(h.data)
            nm = {'sig15': 'RS', 'pss': 'PS'}[self.kind] + '_' + h.name
            if name == 'sign':
                if self.kind == 'pss':
                    r = mktext(SBytes, [ex.fresh('pssalt', SS)])
                    t = UF(nm + '_SIGN', IS, SS, SS, SS)(k, d, r.z)
                else: t = UF(nm + '_SIGN', IS, SS, SS)(k, d)
                # a signature made with the key verifies under it
                ex.assume(UF(nm + '_VALID', IS, SS, SS, BS)(k, d, t))
                L[nm + '_SIGN'] = lambda t: UF('RSA_SIZE', IS, IS)(t.arg(0))
                ex.assume(UF('RSA_SIZE', IS, IS)(k) > 0)
                return mktext(SBytes, [t])
            sig = need_bytes(interp, args[1])
            valid = UF(nm + '_VALID', IS, SS, SS, BS)(k, d, ztext(sig))
            if self.kind == 'sig15':
                # the library reports a bad signature by an exception or by False
                if ex.branch(valid): return None if False else True
                if ex.choose(2, 'rsverify') == 0: raise interp.exc(ValueError, 'Invalid signature')
                return False
            if ex.branch(valid): return True
            if ex.choose(2, 'psverify') == 0: raise interp.exc(ValueError, 'Invalid signature')
            return False
        data = need_bytes(interp, args[0])
        nm = {'enc15': 'RSA15', 'oaep': 'OAEP_%s' % self.h}[self.kind]
        DEC, OK = UF(nm + '_DEC', IS, SS, SS), UF(nm + '_OK', IS, SS, BS)
        if name == 'encrypt':
            r = ex.fresh('rsarnd', SS)
            t = UF(nm + '_ENC', IS, SS, SS, SS)(k, ztext(data), r)
            ex.assume(z3.And(OK(k, t), DEC(k, t) == ztext(data), z3.Length(t) > 0))
            note_random(ex, 'lib', None, r)
            return mktext(SBytes, [t])
        z = ztext(data)
        good = OK(k, z)
        m = mktext(SBytes, [DEC(k, z)])
        if texts.decl_name(z) == nm + '_ENC' and z.arg(0).eq(k): return mktext(SBytes, [z.arg(1)])
        if self.kind == 'enc15':
            sentinel = args[1]
            if ex.branch(good): return m
            if ex.choose(2, 'rsasize') == 0: raise interp.exc(ValueError, 'Ciphertext with incorrect length.')
            return sentinel
        if ex.branch(good): return m
        raise interp.exc(ValueError, 'Incorrect decryption.')


FUNCS[id(S15.new)] = (S15.new, rsa_new('sig15'))
FUNCS[id(PKCS1_PSS.new)] = (PKCS1_PSS.new, rsa_new('pss'))
FUNCS[id(C15.new)] = (C15.new, rsa_new('enc15'))
FUNCS[id(PKCS1_OAEP.new)] = (PKCS1_OAEP.new, rsa_new('oaep'))


def rsa_construct_term(interp, parts):
    """Key object of the components: a function of them."""
    ex = interp.ex
    zs = [zint(x) for x in parts]
    k = UF('RSA_KEY%d' % len(zs), *([IS] * (len(zs) + 1)))(*zs)
    ex.assume(z3.And(UF('RSA_n', IS, IS)(k) == zs[0], UF('RSA_e', IS, IS)(k) == zs[1]))
    ex.assume(UF('RSA_PRIV', IS, BS)(k) == z3.BoolVal(len(zs) > 2))
    if len(zs) > 2: ex.assume(UF('RSA_d', IS, IS)(k) == zs[2])
    if len(zs) > 4: ex.assume(z3.And(UF('RSA_p', IS, IS)(k) == zs[3], UF('RSA_q', IS, IS)(k) == zs[4]))
    return RsaX(k)


@model(RSA.construct, pure=False)
def m_rsa_construct(interp, parts, consistency_check=True):
    xs = interp.concrete_iter(parts)
    if len(xs) < 2: raise interp.exc(ValueError, 'RSA components')
    for x in xs:
        if not is_intlike(x): raise interp.exc(TypeError, 'integer required')
    ok = UF('RSA_CONSISTENT%d' % len(xs), *([IS] * len(xs) + [BS]))(*[zint(x) for x in xs])
    if consistency_check is True:
        if not interp.ex.branch(ok): raise interp.exc(ValueError, 'Invalid RSA key')
    return rsa_construct_term(interp, xs)


@model(RSA.import_key, RSA.importKey, pure=False)
def m_rsa_import(interp, data, passphrase=None):
    if not is_text(data): raise interp.exc(TypeError, 'key data')
    z = ztext(data)
    if not interp.ex.branch(UF('RSA_IMPORT_OK', SS, BS)(z)): raise interp.exc(ValueError, 'RSA key format is not supported')
    return RsaX(UF('RSA_IMPORT', SS, IS)(z))


class DerX(Ext):
    """DER sequence: elements are functions of the octets."""

    def __init__(self): self.z = None

    def get(self, interp, name):
        if name == 'decode': return Method2(self, name)
        raise Unsupported('DerSequence.%s' % name)

    def call(self, interp, name, args, **kw):
        b = need_bytes(interp, args[0])
        z = ztext(b)
        if not interp.ex.branch(UF('DER_OK', SS, BS)(z)): raise interp.exc(ValueError, 'DER')
        self.z = z
        return self

    def getitem(self, interp, k):
        if self.z is None or not isinstance(k, int): raise Unsupported('DerSequence element')
        n = UF('DER_LEN', SS, IS)(self.z)
        if not interp.ex.branch(n > k if k >= 0 else n >= -k): raise interp.exc(IndexError, 'list index out of range')
        return mktext(SBytes, [UF('DER_AT', SS, IS, SS)(self.z, z3.IntVal(k))])


@model(DerSequence, pure=False)
def m_der(interp, *a, **kw):
    if a or kw: raise Unsupported('DerSequence arguments')
    return DerX()


# -------------------------------------------------------------------- random
def note_random(ex, kind, n, z): ex.state.setdefault('random', []).append((kind, n, z))


def random_octets(interp, n):
    if isinstance(n, Sym) or not isinstance(n, int): raise Unsupported('amount of random octets')
    ex = interp.ex
    if interp.barrier > 1 and not interp.any_iteration: interp.notes.add('random in a loop')
    t = ex.fresh('RANDOM%d' % n, SS)
    L[t.decl().name()] = n
    ex.fact(z3.Length(t) == n)
    note_random(ex, 'octets', n, t)
    return mktext(SBytes, [t])


@model(Cryptodome.Random.get_random_bytes, pure=False)
def m_random_bytes(interp, n): return random_octets(interp, n)


class RngX(Ext):
    def get(self, interp, name):
        if name in ('read', 'flush', 'close'): return Method2(self, name)
        raise Unsupported('rng.%s' % name)

    def call(self, interp, name, args, **kw):
        return random_octets(interp, args[0]) if name == 'read' else None


@model(Cryptodome.Random.new, pure=False)
def m_rng(interp, *a, **kw): return RngX()


def _getrandbits(interp, k):
    if isinstance(k, Sym): raise Unsupported('random bits')
    ex = interp.ex
    if interp.barrier > 1 and not interp.any_iteration: interp.notes.add('random in a loop')
    t = ex.fresh('RANDBITS', IS)
    ex.assume(z3.And(t >= 0, t < z3.IntVal(1 << k)))
    note_random(ex, 'bits', k, t)
    return mkint(t)


_grb = Cryptodome.Random.random.getrandbits
_M_RND = {}


def random_method(interp, f, args, kw):
    """Bound methods of Cryptodome's StrongRandom instance."""
    nm = f.__name__
    if nm == 'getrandbits': return _getrandbits(interp, *args)
    if nm == 'randint' or nm == 'randrange':
        ex = interp.ex
        t = ex.fresh('RANDINT', IS)
        if nm == 'randint': lo, hi = zint(args[0]), zint(args[1]) + 1
        elif len(args) == 1: lo, hi = z3.IntVal(0), zint(args[0])
        elif len(args) == 2: lo, hi = zint(args[0]), zint(args[1])
        else: raise Unsupported('randrange step')
        ex.assume(z3.And(t >= lo, t < hi))
        note_random(ex, 'range', (lo, hi), t)
        return mkint(t)
    raise Unsupported('random.%s' % nm)


# -------------------------------------------------------------------- zlib
ZC, ZD, ZOK = UF('ZCOMP', SS, SS), UF('ZDECOMP', SS, SS), UF('ZOK', SS, BS)


@model(zlib.compress, pure=False)
def m_compress(interp, s, *a, **kw):
    s = need_bytes(interp, s)
    if a or kw: raise Unsupported('zlib.compress arguments')
    if isinstance(s, bytes): return zlib.compress(s)
    return mktext(SBytes, [ZC(s.z)])


@model(zlib.decompress, pure=False)
def m_decompress(interp, s, *a, **kw):
    s = need_bytes(interp, s)
    if a or kw: raise Unsupported('zlib.decompress arguments')
    if isinstance(s, bytes): return interp.native(zlib.decompress, [s])
    if texts.decl_name(s.z) == 'ZCOMP': return mktext(SBytes, [s.z.arg(0)])
    if not interp.ex.branch(ZOK(s.z)): raise interp.exc(zlib.error, 'Error -3')
    return mktext(SBytes, [ZD(s.z)])


# --------------------------------------------------------------------- json
@model(json.dumps, pure=False)
def m_dumps(interp, obj, *args, **kw): return jsonv.dumps(interp, obj, *args, **kw)


@model(json.loads, pure=False)
def m_loads(interp, s, *args, **kw): return jsonv.loads(interp, s, *args, **kw)


# ------------------------------------------------------------------- logging
def _nothing(interp, *a, **kw): return None


_nothing.pure = False
for _n in ('debug', 'info', 'warning', 'error', 'exception', 'critical', 'log', 'warn'):
    _f = getattr(logging.Logger, _n, None)
    if _f: FUNCS[id(_f)] = (_f, _nothing)
    _f = getattr(logging, _n, None)
    if _f: FUNCS[id(_f)] = (_f, _nothing)


# ------------------------------------------------------------------ requests
class ResponseX(Ext):
    def __init__(self, ident): self.ident = ident

    def get(self, interp, name):
        ex = interp.ex
        if name == 'status_code': return mkint(UF('HTTP_STATUS', IS, IS)(self.ident))
        if name == 'text': return mktext(SStr, [UF('HTTP_TEXT', IS, SS)(self.ident)])
        if name == 'content': return mktext(SBytes, [UF('HTTP_CONTENT', IS, SS)(self.ident)])
        if name == 'ok': return mkbool(UF('HTTP_STATUS', IS, IS)(self.ident) < 400)
        if name in ('json', 'raise_for_status', 'close'): return Method2(self, name)
        raise Unsupported('response.%s' % name)

    def call(self, interp, name, args, **kw):
        if name == 'close': return None
        if name == 'json': return jsonv.loads(interp, self.get(interp, 'text'))
        if name == 'raise_for_status':
            if interp.ex.branch(UF('HTTP_STATUS', IS, IS)(self.ident) >= 400):
                import requests
                raise interp.exc(requests.HTTPError, 'status')
            return None


def http(interp, method, url, kw):
    ex = interp.ex
    log = ex.state.setdefault('http', [])
    ident = z3.Int('response!%d' % len(log))
    log.append((method, url, dict(kw), ident))
    if ex.choose(2, 'http') == 0: raise interp.exc(ConnectionError, 'no connection')
    return ResponseX(ident)


def install_requests():
    import requests
    import requests.api

    @model(requests.request, requests.api.request, pure=False)
    def m_request(interp, method, url, **kw): return http(interp, method, url, kw)

    @model(requests.get, pure=False)
    def m_get(interp, url, params=None, **kw): return http(interp, 'GET', url, kw)


install_requests()


# ------------------------------------------------------------------------ re
class MatchX(Ext):
    def get(self, interp, name): raise Unsupported('match object')


def class_star(pat, method):
    """charset if the compiled pattern is [set]* anchored at both ends, else None."""
    from re import _parser as sp, _constants as sc
    p = pat.pattern
    if pat.flags & ~(re.UNICODE.value): return None
    ops = list(sp.parse(p))
    if ops and ops[0] == (sc.AT, sc.AT_BEGINNING): ops = ops[1:]
    elif ops and ops[0] == (sc.AT, sc.AT_BEGINNING_STRING): ops = ops[1:]
    elif method not in ('match', 'fullmatch'): return None
    if method != 'fullmatch':
        if not ops or ops[-1] != (sc.AT, sc.AT_END_STRING): return None
    if ops and ops[-1] == (sc.AT, sc.AT_END_STRING): ops = ops[:-1]
    if len(ops) != 1 or ops[0][0] is not sc.MAX_REPEAT: return None
    lo, hi, sub = ops[0][1]
    if lo not in (0, 1) or hi is not sc.MAXREPEAT: return None
    sub = list(sub)
    if len(sub) != 1 or sub[0][0] is not sc.IN: return None
    cs = set()
    for k, v in sub[0][1]:
        if k is sc.LITERAL: cs.add(chr(v))
        elif k is sc.RANGE: cs |= set(map(chr, range(v[0], v[1] + 1)))
        else: return None
    return lo, frozenset(cs)


def re_to_z3(pat, method):
    """z3 regular expression of the whole texts that the method matches."""
    from re import _parser as sp, _constants as sc
    if pat.flags & ~(re.UNICODE.value | re.ASCII.value): raise Unsupported('regular expression flags')
    allc = z3.AllChar(z3.ReSort(SS))
    anyx = z3.Star(allc)

    def seq(ops):
        rs = [one(o) for o in ops]
        if not rs: return z3.Re('')
        return rs[0] if len(rs) == 1 else z3.Concat(*rs)

    def one(o):
        k, v = o
        if k is sc.LITERAL: return z3.Re(zstr(chr(v)))
        if k is sc.ANY: return z3.Intersect(allc, z3.Complement(z3.Re(zstr('\n'))))
        if k is sc.IN:
            rs = []
            neg = False
            for kk, vv in v:
                if kk is sc.NEGATE: neg = True
                elif kk is sc.LITERAL: rs.append(z3.Re(zstr(chr(vv))))
                elif kk is sc.RANGE: rs.append(z3.Range(zstr(chr(vv[0])), zstr(chr(vv[1]))))
                else: raise Unsupported('regular expression class')
            r = rs[0] if len(rs) == 1 else z3.Union(*rs)
            return z3.Intersect(allc, z3.Complement(r)) if neg else r
        if k in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = v
            r = seq(list(sub))
            if hi is sc.MAXREPEAT:
                if lo == 0: return z3.Star(r)
                if lo == 1: return z3.Plus(r)
                return z3.Concat(z3.Loop(r, lo, lo), z3.Star(r))
            return z3.Loop(r, lo, hi)
        if k is sc.SUBPATTERN: return seq(list(v[3]))
        if k is sc.BRANCH: return z3.Union(*[seq(list(x)) for x in v[1]])
        raise Unsupported('regular expression %s' % k)
    ops = list(sp.parse(pat.pattern))
    pre = anyx if method == 'search' else None
    post = None if method == 'fullmatch' else anyx
    if ops and ops[0][0] is sc.AT and ops[0][1] in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
        ops = ops[1:]
        pre = None
    if ops and ops[-1][0] is sc.AT and ops[-1][1] in (sc.AT_END, sc.AT_END_STRING):
        post = z3.Option(z3.Re(zstr('\n'))) if ops[-1][1] is sc.AT_END else None
        ops = ops[:-1]
    rs = [x for x in (pre, seq(ops), post) if x is not None]
    return rs[0] if len(rs) == 1 else z3.Concat(*rs)


def re_match(interp, pat, method, s):
    ex = interp.ex
    if isinstance(s, SJson): s = resolve_json(interp, s)
    isb = isinstance(pat.pattern, bytes)
    if not is_text(s) or isinstance(s, (bytes, SBytes)) != isb:
        raise interp.exc(TypeError, 'cannot use a pattern on this type')
    cs = class_star(pat, method)
    if cs is not None and cs[1] == texts.ALPHABETS['b64u']:
        if cs[0] == 1:
            n = tlen(s)
            if isinstance(n, int):
                if n == 0: return None
            elif not ex.branch(n.z > 0): return None
        return MatchX() if b64_regular(ex, s) else None
    r = re_to_z3(pat, method)
    z = ztext(s)
    ex.fact(ISB64U(z) == z3.InRe(z, z3.Star(z3.Union(z3.Range('A', 'Z'), z3.Range('a', 'z'), z3.Range('0', '9'), z3.Re('-'), z3.Re('_')))))
    return MatchX() if ex.branch(z3.InRe(z, r)) else None


for _m in ('match', 'fullmatch', 'search'):
    def _mk(m):
        def f(interp, pattern, string, flags=0):
            if not is_conc((pattern, flags)): raise Unsupported('symbolic regular expression')
            return re_match(interp, re.compile(pattern, flags), m, string)
        f.pure = True
        return f
    FUNCS[id(getattr(re, _m))] = (getattr(re, _m), _mk(_m))


@model(re.sub, pure=True)
def m_re_sub(interp, pattern, repl, string, count=0, flags=0):
    if not is_conc((pattern, repl, count, flags)): raise Unsupported('re.sub')
    z = ztext(string)
    return mktext(texts.cls_of_text(string), [UF('RESUB[%s,%s]' % (pattern, repl), SS, SS)(z)])


def bound_method(interp, f, own, nm, args, kw):
    """Bound methods of library instances found in module globals."""
    if isinstance(own, Cryptodome.Random.random.StrongRandom): return random_method(interp, f, args, kw)
    if isinstance(own, struct.Struct):
        if nm == 'pack': return do_pack(interp, own.format, list(args))
        if nm == 'unpack': return do_unpack(interp, own.format, args[0])
    if isinstance(own, logging.Logger): return None
    return MISSING
