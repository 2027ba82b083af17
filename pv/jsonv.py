"""JSON values of unknown shape, and json.loads / json.dumps."""
import json
import z3
from .core import *
from .values import *
from . import texts

JV = z3.DeclareSort('JV')
TAG = z3.Function('JTAG', JV, IS)
JB = z3.Function('JB', JV, BS)
JI = z3.Function('JI', JV, IS)
JS = z3.Function('JS', JV, SS)
JHAS = z3.Function('JHAS', JV, SS, BS)
JGET = z3.Function('JGET', JV, SS, JV)
JLEN = z3.Function('JLEN', JV, IS)
JAT = z3.Function('JAT', JV, IS, JV)
JSONOK = z3.Function('JSONOK', SS, BS)
JSONP = z3.Function('JSONP', SS, JV)
# constructors
JNULL = z3.Const('JNULL', JV)
JBOOL = z3.Function('JBOOL', BS, JV)
JINT = z3.Function('JINT', IS, JV)
JSTR = z3.Function('JSTR', SS, JV)
JEMPTY = z3.Const('JEMPTY', JV)
JPUT = z3.Function('JPUT', JV, SS, JV, JV)
JNIL = z3.Const('JNIL', JV)
JAPP = z3.Function('JAPP', JV, JV, JV)
NULL, BOOL, INT, FLOAT, STR, LIST, DICT = range(7)
CONS = ('JNULL', 'JBOOL', 'JINT', 'JSTR', 'JEMPTY', 'JPUT', 'JNIL', 'JAPP')


class SJson(Sym):
    __slots__ = ('z',)

    def __init__(self, z): self.z = z

    def __repr__(self): return 'SJson(%s)' % (self.z,)


class MJson(SJson):
    """A copy of a JSON object that may be updated."""
    __slots__ = ('stamp',)


def mkjson(z):
    """Value for a JV term: constructors give interpreter values."""
    nm = texts.decl_name(z)
    if nm == 'JNULL': return None
    if nm == 'JBOOL': return mkbool(z.arg(0))
    if nm == 'JINT': return mkint(z.arg(0))
    if nm == 'JSTR': return mktext(SStr, [z.arg(0)])
    if nm in ('JEMPTY', 'JPUT'):
        items = []
        while texts.decl_name(z) == 'JPUT':
            k = unzstr(z.arg(1))
            if k is None: return SJson(z)
            items.append((k, z.arg(2)))
            z = z.arg(0)
        if texts.decl_name(z) != 'JEMPTY': return SJson(z)
        d = PDict()
        for k, v in reversed(items): d[k] = mkjson(v)
        d.stamp = 1 << 40
        return d
    if nm in ('JNIL', 'JAPP'):
        items = []
        while texts.decl_name(z) == 'JAPP':
            items.append(z.arg(1))
            z = z.arg(0)
        if texts.decl_name(z) != 'JNIL': return SJson(z)
        l = PList(mkjson(v) for v in reversed(items))
        l.stamp = 1 << 40
        return l
    return SJson(z)


def tag(ex, j, t):
    """Is j of kind t on this path?"""
    return ex.branch(TAG(j.z) == t)


def json_text(interp, v):
    """The text that a JSON value of that kind is."""
    t = JS(v.z)
    c = interp.ex.literal(t)
    return mktext(SStr, [t if c is None else c])


def well_formed(ex, z):
    """Facts about a JSON value that come with its use."""
    ex.fact(z3.And(TAG(z) >= 0, TAG(z) <= 6))


def to_jv(interp, v):
    """JV term of an interpreter value, as json.dumps would see it."""
    if v is None: return JNULL
    if isinstance(v, SJson): return v.z
    if isinstance(v, (bool, SBool)): return JBOOL(v.z if isinstance(v, SBool) else z3.BoolVal(v))
    if isinstance(v, (int, SInt)): return JINT(zint(v))
    if isinstance(v, (str, SStr)): return JSTR(ztext(v))
    if isinstance(v, dict):
        t = JEMPTY
        for k, x in v.items():
            if not isinstance(k, str): raise Unsupported('json.dumps: key %r' % (k,))
            t = JPUT(t, zstr(k), to_jv(interp, x))
        return t
    if isinstance(v, (list, tuple)):
        if getattr(v, 'view', None) is not None: raise Unsupported('json.dumps of a symbolic list')
        t = JNIL
        for x in v: t = JAPP(t, to_jv(interp, x))
        return t
    if isinstance(v, (bytes, SBytes)): raise interp.exc(TypeError, 'Object of type bytes is not JSON serializable')
    if isinstance(v, float): raise Unsupported('json.dumps of a float')
    raise interp.exc(TypeError, 'Object is not JSON serializable')


def has_sym(v):
    if isinstance(v, Sym): return True
    if isinstance(v, dict): return any(has_sym(x) for x in v.values())
    if isinstance(v, (list, tuple)): return getattr(v, 'view', None) is not None or any(has_sym(x) for x in v)
    return False


def dumps(interp, obj, *args, **kw):
    from .interp import unlift
    seps = kw.get('separators')
    extra = {k: v for k, v in kw.items() if k not in ('separators',)}
    if not has_sym(obj):
        return interp.native(json.dumps, [obj] + list(args), kw)
    if args: raise Unsupported('json.dumps arguments')
    nm = 'DUMPS' if not kw else 'DUMPS[%s]' % ','.join('%s=%r' % (k, unlift(v)) for k, v in sorted(kw.items()))
    f = UF(nm, JV, SS)
    DUMPS_NAMES.add(nm)
    texts.ALPHA[nm] = 'ascii' if kw.get('ensure_ascii', True) else None
    if texts.ALPHA[nm] is None: del texts.ALPHA[nm]
    t = f(to_jv(interp, obj))
    interp.ex.assume(z3.Length(t) >= 1)
    return mktext(SStr, [t])


DUMPS_NAMES = set()


def loads(interp, s, *args, **kw):
    from .interp import is_conc
    if args or kw: raise Unsupported('json.loads arguments')
    if is_conc(s): return interp.native(json.loads, [s])
    if isinstance(s, SBytes):
        r = texts.try_decode(interp.ex, s, 'utf-8')
        if r is None: raise interp.exc(UnicodeDecodeError, 'utf-8', b'', 0, 1, 'invalid')
        s = r
        if is_conc(s): return interp.native(json.loads, [s])
    if not isinstance(s, SStr):
        if isinstance(s, Sym) and not isinstance(s, SJson): raise interp.exc(TypeError, 'the JSON object must be str')
        if isinstance(s, SJson):
            if not tag(interp.ex, s, STR): raise interp.exc(TypeError, 'the JSON object must be str')
            s = mktext(SStr, [JS(s.z)])
        else: raise interp.exc(TypeError, 'the JSON object must be str')
    if len(s.parts) == 1 and texts.decl_name(s.parts[0]) in DUMPS_NAMES:
        return fresh_copy(interp, mkjson(s.parts[0].arg(0)))
    z = s.z
    if not interp.ex.branch(JSONOK(z)): raise interp.exc(json.JSONDecodeError, 'Expecting value', '', 0)
    j = JSONP(z)
    well_formed(interp.ex, j)
    return SJson(j)


def fresh_copy(interp, v):
    if isinstance(v, PDict):
        return interp.new_dict((k, fresh_copy(interp, x)) for k, x in v.items())
    if isinstance(v, PList):
        return interp.new_list(fresh_copy(interp, x) for x in v)
    return v


def get(interp, j, key):
    z = JGET(j.z, ztext(key))
    well_formed(interp.ex, z)
    return SJson(z)


def eq_term(interp, j, o):
    """z3 Bool for j == o (o an interpreter value)."""
    if isinstance(o, SJson):
        # equal terms are equal; nothing else is known except through scalars
        if j.z.eq(o.z): return True
        a, b = j.z, o.z
        same_scalar = z3.Or(
            z3.And(TAG(a) == NULL), z3.And(TAG(a) == STR, JS(a) == JS(b)),
            z3.And(TAG(a) == BOOL, JB(a) == JB(b)), z3.And(TAG(a) == INT, JI(a) == JI(b)),
            z3.And(TAG(a) >= FLOAT, TAG(a) != STR, UF('JEQ', JV, JV, BS)(a, b)))
        return z3.Or(a == b, z3.And(TAG(a) == TAG(b), same_scalar))
    if o is None: return TAG(j.z) == NULL
    if isinstance(o, (bool, SBool)):
        b = o.z if isinstance(o, SBool) else z3.BoolVal(o)
        return z3.Or(z3.And(TAG(j.z) == BOOL, JB(j.z) == b),
                     z3.And(TAG(j.z) == INT, JI(j.z) == z3.If(b, 1, 0)),
                     z3.And(TAG(j.z) == FLOAT, UF('JFEQB', JV, BS, BS)(j.z, b)))
    if isinstance(o, (int, SInt)):
        return z3.Or(z3.And(TAG(j.z) == INT, JI(j.z) == zint(o)),
                     z3.And(TAG(j.z) == BOOL, z3.If(JB(j.z), 1, 0) == zint(o)),
                     z3.And(TAG(j.z) == FLOAT, UF('JFEQ', JV, IS, BS)(j.z, zint(o))))
    if isinstance(o, (str, SStr)):
        return z3.And(TAG(j.z) == STR, JS(j.z) == ztext(o))
    if isinstance(o, (bytes, SBytes)): return False
    if isinstance(o, dict):
        if o: raise Unsupported('JSON value compared with a dict')
        return z3.And(TAG(j.z) == DICT, JLEN(j.z) == 0)
    if isinstance(o, (list, View)): raise Unsupported('JSON value compared with a list')
    return False
