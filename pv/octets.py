"""Lists of octets of unknown length (lists of integers 0..255 that a loop
builds), known as the octet string with these octets."""
import z3
from . import texts, lib
from .texts import concat
from .core import *
from .values import *
from .interp import Ext, PList
from .lib import Method2, UF, need_bytes
from .models import model, is_intlike


class Octets(Ext):
    def __init__(self, s): self.s = s

    def get(self, interp, name):
        if name in ('insert', 'append'): return Method2(self, name)
        raise Unsupported('%s of a list of octets' % name)

    def call(self, interp, name, args, **kw):
        x = args[-1]
        if not is_intlike(x) or not interp.ex.must(z3.And(zint(x) >= 0, zint(x) < 256)): raise Unsupported('%s of no octet' % name)
        o = lib.byte_of(interp, x)
        if name == 'append' and len(args) == 1: self.s = concat(SBytes, [self.s, o])
        elif name == 'insert' and len(args) == 2 and args[0] == 0 and not isinstance(args[0], Sym): self.s = concat(SBytes, [o, self.s])
        else: raise Unsupported('%s of a list of octets' % name)
        return None

    def length(self, interp): return mkint(texts.tlen_z(self.s)) if isinstance(self.s, Sym) else len(self.s)

    def truth(self, interp): return zint(self.length(interp)) > 0

    def getitem(self, interp, k):
        r = interp.models.getitem(interp, self.s, k)
        return Octets(r) if isinstance(k, slice) else r

    def iterate(self, interp):
        v = interp.models.iterate(interp, self.s)
        if isinstance(v, View): return View(v.src, v.n, v.val, v.cond, ghost=dict(v.ghost, bytes=self.s))
        return v

    def binop(self, interp, op, b): return self.joined(interp, op, self, b)

    def rbinop(self, interp, op, a): return self.joined(interp, op, a, self)

    def joined(self, interp, op, a, b):
        if op != 'Add': raise Unsupported('%s on a list of octets' % op)
        x, y = octets_of(interp, a), octets_of(interp, b)
        if x is None or y is None: raise Unsupported('sum of a list of octets and another')
        return Octets(concat(SBytes, [x, y]))


def octets_of(interp, v):
    """The octet string of a sequence of integers known to be octets, or None."""
    if isinstance(v, Octets): return v.s
    if isinstance(v, PList) and getattr(v, 'view', None) is not None: v = v.view
    if isinstance(v, View):
        if v.cond is not None: return None
        if 'bytes' in v.ghost: return v.ghost['bytes']
        if 'cat' in v.ghost:
            xs = [octets_of(interp, p) for p in v.ghost['cat']]
            return None if None in xs else concat(SBytes, xs)
        if v.src[0] == 'rep':
            x = v.val(z3.IntVal(0))
            if isinstance(x, int) and 0 <= x < 256: return interp.models.repeat(interp, bytes([x]), mkint(v.n))
        return None
    if isinstance(v, (list, tuple)):
        out = []
        for x in v:
            if not is_intlike(x) or not interp.ex.must(z3.And(zint(x) >= 0, zint(x) < 256)): return None
            out.append(lib.byte_of(interp, x))
        return concat(SBytes, out) if out else b''
    return None


def shape(interp, name, old=None):
    """Shape of a loop variable."""
    z = interp.ex.fresh(name, SS)
    interp.ex.assume(z3.Length(z) < 2 ** 40)
    return Octets(mktext(SBytes, [z]))


def mapped(interp, cls, seq):
    """''.join of the two hexadecimal digits of every octet of a text, or None."""
    if seq.cond is not None: return None
    ex = interp.ex
    j = z3.Int(ex._name('ix'))
    base = ex.pc + [j >= 0, j < seq.n]
    try: paths = ex.explore(lambda: seq.val(j), base=base, index_vars=(ex.frames[-1].index_vars if ex.frames else ()) + (j,), prefix=str(j) + '.')
    except Unsupported: return None
    if len(paths) != 1: return None
    v = paths[0][1]
    if not isinstance(v, SStr) or len(text_parts(v)) != 1: return None
    t = text_parts(v)[0]
    if texts.decl_name(t) != 'HEX2': return None
    c = t.arg(0)
    if not z3.is_app(c) or c.decl().kind() != z3.Z3_OP_STR_TO_CODE: return None
    c = z3.simplify(c.arg(0))
    if c.num_args() < 2 or not c.arg(1).eq(j): return None
    s = mktext(SBytes, [c.arg(0)])
    if not ex.must(z3.Length(c.arg(0)) == seq.n): return None
    return mktext(cls, [lib.HEXLIFY(c.arg(0))])


def install():
    from specs import ref

    @model(ref.octets_of, pure=False)
    def m_octets(interp, n):
        if not isinstance(n, Sym): return interp.native(ref.octets_of, [n])
        return lib.minbe0_term(interp, n)

    @model(ref.list_octets, pure=False)
    def m_list(interp, l):
        s = octets_of(interp, l)
        if s is None: raise Unsupported('octets of a list')
        return s
