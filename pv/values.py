"""Symbolic values.

Concrete Python values stand for themselves.  Symbolic scalars wrap z3 terms:
SBool (Bool), SInt (Int, mathematical), SStr and SBytes (String; an octet
string is a string of characters below 256).  Texts are ropes: tuples of
constant pieces and z3 terms, so that slicing and joining normalise.
"""
import z3

z3.set_param('memory_max_size', 12000)
SS = z3.StringSort()
IS = z3.IntSort()
BS = z3.BoolSort()


class Sym(object):
    __slots__ = ()


def zint(v):
    if isinstance(v, SInt): return v.z
    if isinstance(v, SBool): return z3.If(v.z, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, (bool, int)): return z3.IntVal(int(v))
    if z3.is_expr(v): return v
    raise TypeError(v)


class SBool(Sym):
    __slots__ = ('z',)

    def __init__(self, z): self.z = z

    def __repr__(self): return 'SBool(%s)' % (self.z,)


class SInt(Sym):
    __slots__ = ('z',)

    def __init__(self, z):
        assert z.sort() == IS, z
        self.z = z

    def __repr__(self): return 'SInt(%s)' % (self.z,)


def mkint(z):
    z = z3.simplify(z) if not z3.is_int_value(z) else z
    if z3.is_int_value(z): return z.as_long()
    return SInt(z)


def mkbool(z):
    if z is True or z is False: return z
    z = z3.simplify(z)
    if z3.is_true(z): return True
    if z3.is_false(z): return False
    return SBool(z)


def zstr(s):
    """z3 string constant for a str or bytes constant."""
    if isinstance(s, bytes): s = s.decode('latin-1')
    esc = ''.join(c if 32 <= ord(c) < 127 and c != '\\' else '\\u{%x}' % ord(c) for c in s)
    return z3.SeqRef(z3.Z3_mk_string(z3.main_ctx().ref(), esc), z3.main_ctx())


def unzstr(z):
    """str for a z3 string constant (None if it is not one)."""
    if not z3.is_string_value(z): return None
    s = z.as_string()
    out, i = [], 0
    while i < len(s):
        if s.startswith('\\u{', i):
            j = s.index('}', i)
            out.append(chr(int(s[i + 3:j], 16)))
            i = j + 1
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


class SText(Sym):
    __slots__ = ('parts', '_z')
    conc = None     # str or bytes

    def __init__(self, parts):
        self.parts = tuple(parts)
        self._z = None

    @property
    def z(self):
        if self._z is None:
            ts = [zstr(p) if isinstance(p, (str, bytes)) else p for p in self.parts]
            self._z = ts[0] if len(ts) == 1 else z3.Concat(*ts)
        return self._z

    def __repr__(self):
        return '%s(%s)' % (type(self).__name__, ' ++ '.join(map(str, self.parts)))


class SStr(SText):
    __slots__ = ()
    conc = str


class SBytes(SText):
    __slots__ = ()
    conc = bytes


def mktext(cls, parts):
    """Normalised rope; a constant if it has no symbolic piece."""
    out = []
    empty = cls.conc()
    for p in parts:
        if z3.is_expr(p):
            if z3.is_string_value(p):
                p = unzstr(p)
                if cls is SBytes: p = p.encode('latin-1')
            elif z3.is_app(p) and p.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
                sub = mktext(cls, p.children())
                for q in (sub.parts if isinstance(sub, SText) else (sub,)):
                    if isinstance(q, (str, bytes)) and out and isinstance(out[-1], (str, bytes)):
                        out[-1] = out[-1] + q
                    elif not (isinstance(q, (str, bytes)) and not q):
                        out.append(q)
                continue
        if isinstance(p, (str, bytes)):
            if isinstance(p, str) and cls is SBytes: p = p.encode('latin-1')
            if not p: continue
            if out and isinstance(out[-1], (str, bytes)):
                out[-1] = out[-1] + p
                continue
        out.append(p)
    if not out: return empty
    if len(out) == 1 and isinstance(out[0], (str, bytes)): return out[0]
    return cls(out)


def text_parts(v):
    return v.parts if isinstance(v, SText) else (v,)


def ztext(v):
    return v.z if isinstance(v, SText) else zstr(v)


def cls_of_text(v):
    if isinstance(v, (SStr, str)): return SStr
    if isinstance(v, (SBytes, bytes)): return SBytes
    return None


class Opaque(Sym):
    """An uninterpreted object (key material, library handle): equality by term."""
    __slots__ = ('z', 'kind')

    def __init__(self, kind, z):
        self.kind, self.z = kind, z

    def __repr__(self): return 'Opaque<%s>(%s)' % (self.kind, self.z)


class PList(list):
    """A list made by interpreted code (stamp: the loop nest it was made in)."""
    stamp = 0


class PDict(dict):
    stamp = 0


class UnknownDict(PDict):
    """A dictionary whose contents are not known."""

    def _no(self, *a, **k): raise Unsupported('use of a dictionary of unknown contents')
    __getitem__ = __setitem__ = __contains__ = __iter__ = __len__ = __eq__ = __ne__ = __bool__ = __delitem__ = _no
    get = keys = items = values = copy = update = pop = setdefault = popitem = clear = _no
    __hash__ = None


class LaxDict(PDict):
    """A dictionary whose contents are not known but for the entries written since."""

    def _no(self, *a, **k): raise Unsupported('use of a dictionary of unknown contents')
    __iter__ = __len__ = __eq__ = __ne__ = __bool__ = __delitem__ = _no
    keys = items = values = copy = pop = setdefault = popitem = clear = _no
    __hash__ = None

    def __contains__(self, k):
        if dict.__contains__(self, k): return True
        self._no()

    def __getitem__(self, k):
        if dict.__contains__(self, k): return dict.__getitem__(self, k)
        self._no()

    def get(self, k, d=None): return self[k]


class SObj(Sym):
    """An instance of a repository class (or of an exception class)."""
    __slots__ = ('cls', 'attrs', 'stamp', 'methods', 'ident')

    def __init__(self, cls, attrs=None, methods=None, stamp=0, ident=None):
        self.cls, self.attrs, self.methods, self.stamp = cls, attrs if attrs is not None else {}, methods or {}, stamp
        self.ident = ident     # z3 term naming a symbolic object

    def __repr__(self):
        return '<%s %s>' % (self.cls.__name__, self.ident if self.ident is not None else '')


class View(Sym):
    """A finite sequence given by length and element function, filtered.

    src: identity token of the underlying sequence; n: z3 length of the source;
    cond(i)/val(i) on source indexes; cond None means every index is present.
    """
    __slots__ = ('src', 'n', 'cond', 'val', 'stamp', 'tuplelike', 'ghost')

    def __init__(self, src, n, val, cond=None, tuplelike=False, ghost=None):
        self.src, self.n, self.cond, self.val, self.stamp = src, n, cond, val, 0
        self.tuplelike = tuplelike
        self.ghost = ghost or {}


_UF = {}


def UF(name, *sorts):
    f = _UF.get(name)
    if f is None:
        f = _UF[name] = z3.Function(name, *sorts)
    else:
        assert f.arity() == len(sorts) - 1 and all(f.domain(i) == sorts[i] for i in range(f.arity())) and \
            f.range() == sorts[-1], (name, sorts)
    return f
