"""Meaning of built-in types and functions."""
import builtins
import json
import math
import types
import z3
from .core import *
from .values import *
from . import texts, jsonv
from .texts import tlen, concat
from .jsonv import SJson
from .loops import Havoc, LoopCarried, Unknown
from .interp import MISSING, is_conc, unlift, Method, BoundM, Closure, Ext, Super

BITLEN = z3.Function('BITLEN', IS, IS)
XOR = z3.Function('XOR', IS, IS, IS)
OR = z3.Function('OR', IS, IS, IS)
AND = z3.Function('AND', IS, IS, IS)
POW2 = z3.Function('POW2', IS, IS)


class SFrac(Sym):
    """num/den as a float: only exact uses (floor, ceil, int)."""
    __slots__ = ('num', 'den')

    def __init__(self, num, den): self.num, self.den = num, den


class SSet(Sym):
    """Set of the values of a View or of unknown scalars."""
    __slots__ = ('elts', 'stamp')

    def __init__(self, elts): self.elts = elts


class Range(Sym):
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step): self.lo, self.hi, self.step = lo, hi, step


FUNCS = {}


def model(*fs, **opts):
    def deco(g):
        for k, v in opts.items(): setattr(g, k, v)
        for f in fs: FUNCS[id(f)] = (f, g)
        return g
    return deco


def is_text(v): return isinstance(v, (str, bytes, SText))


def is_intlike(v): return isinstance(v, (int, SInt, SBool)) and not isinstance(v, float)


PY = {SStr: str, SBytes: bytes}


def pytype(interp, v):
    """Python class of a value (branches for JSON values)."""
    if isinstance(v, SStr): return str
    if isinstance(v, SBytes): return bytes
    if isinstance(v, SInt): return int
    if isinstance(v, SBool): return bool
    if isinstance(v, PList): return list
    if isinstance(v, PDict): return dict
    if isinstance(v, SObj): return v.cls
    if isinstance(v, View): return tuple if v.tuplelike else list
    if isinstance(v, SFrac): return float
    if isinstance(v, SSet): return set
    if isinstance(v, (Closure,)): return types.FunctionType
    if isinstance(v, SJson):
        ex = interp.ex
        for t, c in ((jsonv.STR, str), (jsonv.DICT, dict), (jsonv.NULL, type(None)), (jsonv.INT, int),
                     (jsonv.LIST, list), (jsonv.BOOL, bool)):
            if jsonv.tag(ex, v, t): return c
        return float
    if isinstance(v, Ext):
        c = getattr(v, 'pyclass', None)
        if c is not None: return c
        raise Unsupported('type of %r' % (v,))
    if isinstance(v, Sym): raise Unsupported('type of %r' % (v,))
    return type(v)


TAGOF = {str: jsonv.STR, dict: jsonv.DICT, type(None): jsonv.NULL, int: jsonv.INT, list: jsonv.LIST,
         bool: jsonv.BOOL, float: jsonv.FLOAT}


def resolve_json(interp, v):
    """Interpreter value of a JSON scalar of known kind (after branching)."""
    ex = interp.ex
    if jsonv.tag(ex, v, jsonv.STR): return jsonv.json_text(interp, v)
    if jsonv.tag(ex, v, jsonv.NULL): return None
    if jsonv.tag(ex, v, jsonv.BOOL): return mkbool(jsonv.JB(v.z))
    if jsonv.tag(ex, v, jsonv.INT): return mkint(jsonv.JI(v.z))
    return v


class Models(object):
    def __init__(self):
        self.contracts_methods = {}
        self.local = {}

    # ------------------------------------------------------------ functions
    def function_model(self, f):
        r = self.local.get(id(f))
        if r is not None and r[0] is f: return r[1]
        r = FUNCS.get(id(f))
        if r is not None and r[0] is f: return r[1]
        return None

    def native_allowed(self, f):
        m = f.__module__ or ''
        return m.split('.')[0] in ('Cryptodome', 'base64', 'binascii', 'six', 'json', 're', 'struct', 'string')

    # ------------------------------------------------------------ truth
    def truth_term(self, interp, v):
        if isinstance(v, Havoc): raise LoopCarried(v.name)
        if v is None: return False
        if isinstance(v, bool): return v
        if isinstance(v, SBool): return v.z
        if isinstance(v, SInt): return z3.simplify(v.z != 0)
        if isinstance(v, SText):
            n = tlen(v)
            return n != 0 if isinstance(n, int) else z3.simplify(n.z != 0)
        if isinstance(v, PList):
            vw = getattr(v, 'view', None)
            return bool(len(v)) if vw is None else self.truth_term(interp, vw)
        if isinstance(v, View):
            return self.nonempty(interp, v)
        if isinstance(v, SSet):
            return self.nonempty(interp, v.elts) if isinstance(v.elts, View) else bool(v.elts)
        if isinstance(v, Range): return z3.simplify(zint(v.hi) > zint(v.lo))
        if isinstance(v, SObj):
            for nm in ('__bool__', '__len__'):
                r = interp.find_in_class(v.cls, nm)
                if r is not MISSING and isinstance(r, types.FunctionType):
                    return self.truth_term(interp, interp.call(r, [v], {}))
                if nm in v.methods: return self.truth_term(interp, interp.call(v.methods[nm], [v], {}))
            return True
        if isinstance(v, SJson):
            r = resolve_json(interp, v)
            if r is not v: return self.truth_term(interp, r)
            if jsonv.tag(interp.ex, v, jsonv.FLOAT): return UF('JFNZ', jsonv.JV, BS)(v.z)
            return jsonv.JLEN(v.z) != 0
        if isinstance(v, SFrac): return z3.simplify(zint(v.num) != 0)
        if isinstance(v, Ext): return v.truth(interp) if hasattr(v, 'truth') else True
        if isinstance(v, Sym): return True
        return bool(v)

    def nonempty(self, interp, vw):
        ex = interp.ex
        if vw.cond is None: return z3.simplify(vw.n > 0)
        memo = ex.state.setdefault('nonempty', {})
        if id(vw) in memo: return memo[id(vw)][1]
        if ex.choose(2, 'nonempty') == 0:
            j = ex.fresh('wit', IS)
            from .loops import in_range
            ex.assume(in_range(vw, j))
            # the first such element
            ex.add_universal(vw.src, lambda t: z3.Implies(z3.And(t >= 0, t < j), z3.Not(vw.cond(t))))
            self.use_index(interp, vw, j)
            for o in [o for o in ex.state.get('firsts', ()) if o[0] == vw.src]:
                if ex.must(o[1] == j):
                    j = o[1]
                    break
            else: ex.state['firsts'] = ex.state.get('firsts', ()) + ((vw.src, j),)
            vw.ghost['first'] = j
            memo[id(vw)] = (vw, True)
            return True
        ex.add_universal(vw.src, lambda t: z3.Implies(z3.And(t >= 0, t < vw.n), z3.Not(vw.cond(t))))
        ex.assume(vw.n >= 0)
        memo[id(vw)] = (vw, False)
        return False

    def use_index(self, interp, seq, j):
        interp.ex.add_index(seq.src, j)

    # ------------------------------------------------------------ containers
    def resolve_list(self, interp, l):
        vw = getattr(l, 'view', None)
        if isinstance(vw, Havoc): raise Unsupported('list that a loop has changed')
        return vw if vw is not None else l

    def list_append(self, interp, l, v):
        if l.stamp < interp.barrier:
            interp.effects.append(('append', l, v))
            return
        if getattr(l, 'view', None) is not None: raise Unsupported('append to a symbolic list')
        l.append(v)

    def list_extend(self, interp, l, o):
        s = self.iterate(interp, o)
        if isinstance(s, View):
            if len(l) or getattr(l, 'view', None) is not None or l.stamp < interp.barrier:
                raise Unsupported('extend by a symbolic list')
            l.view = s
            return
        for x in list(s): self.list_append(interp, l, x)

    def writable(self, interp, c):
        if isinstance(c, dict): return interp.touch(c)
        if c.stamp < interp.barrier: raise Unsupported('loop writes to an outer container')

    def iterate(self, interp, v):
        if isinstance(v, Havoc): raise LoopCarried(v.name)
        if isinstance(v, PList): return self.resolve_list(interp, v)
        if isinstance(v, (list, tuple)): return v
        if isinstance(v, View): return v
        if isinstance(v, dict): return list(v.keys())
        if isinstance(v, (str, bytes, set, frozenset, range)): return sorted(v) if isinstance(v, (set, frozenset)) else list(v)
        if isinstance(v, Range): return self.range_view(interp, v)
        if isinstance(v, SText):
            n = tlen(v)
            if isinstance(n, int) and n <= 64:
                return [self.getitem(interp, v, i) for i in range(n)]
            z = ztext(v)
            isb = isinstance(v, SBytes)
            nz = zint(n)
            self.byte_facts(interp, v)
            return View(('text', z.get_id(), z), nz, lambda i: self.char_at(interp, v, i))
        if isinstance(v, SSet):
            if isinstance(v.elts, View): raise Unsupported('iteration over a symbolic set')
            return list(v.elts)
        if isinstance(v, SObj):
            it = interp.find_in_class(v.cls, '__iter__')
            if isinstance(it, types.FunctionType) or '__iter__' in v.methods:
                return self.iterate(interp, interp.call(v.methods.get('__iter__', it), [v], {}))
            raise interp.exc(TypeError, 'not iterable')
        if isinstance(v, SJson):
            if jsonv.tag(interp.ex, v, jsonv.LIST):
                z = v.z
                interp.ex.fact(jsonv.JLEN(z) >= 0)
                def at(i):
                    e = jsonv.JAT(z, i)
                    jsonv.well_formed(interp.ex, e)
                    return SJson(e)
                return View(('json', z.get_id(), z), jsonv.JLEN(z), at)
            if jsonv.tag(interp.ex, v, jsonv.STR): return self.iterate(interp, jsonv.json_text(interp, v))
            if jsonv.tag(interp.ex, v, jsonv.DICT):
                z = v.z
                interp.ex.fact(jsonv.JLEN(z) >= 0)
                return View(('jsonkeys', z.get_id(), z), jsonv.JLEN(z),
                            lambda i: mktext(SStr, [UF('JKEY', jsonv.JV, IS, SS)(z, zint(i))]))
            raise interp.exc(TypeError, 'not iterable')
        if isinstance(v, Ext):
            return v.iterate(interp)
        if isinstance(v, Sym): raise Unsupported('iteration over %r' % (v,))
        if isinstance(v, (int, float, type(None), bool)) or isinstance(v, types.FunctionType):
            raise interp.exc(TypeError, 'not iterable')
        try:
            return [interp.lift(x) for x in v]
        except TypeError as e:
            raise interp.exc(TypeError, *e.args)

    def range_view(self, interp, r):
        if r.step != 1: raise Unsupported('symbolic range with a step')
        n = z3.simplify(z3.If(zint(r.hi) > zint(r.lo), zint(r.hi) - zint(r.lo), z3.IntVal(0)))
        lo = zint(r.lo)
        return View(('range', n.get_id(), n, lo), n, lambda i: mkint(lo + i))

    def byte_facts(self, interp, v): pass

    def text_view(self, interp, v):
        z, nz = ztext(v), zint(tlen(v))
        interp.ex.fact(z3.Length(z) == nz)
        return View(('text', z.get_id(), z), nz, lambda i: self.char_at(interp, v if isinstance(v, SText) else
                                                                        mktext_raw(v), i))

    def char_at(self, interp, v, i):
        c = z3.StrToCode(z3.SubString(ztext(v), zint(i), 1))
        if isinstance(v, SBytes):
            interp.ex.fact(z3.Implies(z3.And(zint(i) >= 0, zint(i) < texts.tlen_z(v)), z3.And(c >= 0, c < 256)))
            return mkint(c)
        return mktext(SStr, [z3.SubString(ztext(v), zint(i), 1)])

    def unpack_n(self, interp, v, n):
        s = self.iterate(interp, v)
        if isinstance(s, View):
            if s.cond is not None: raise Unsupported('unpacking a filtered sequence')
            if not interp.ex.branch(s.n == n): raise interp.exc(ValueError, 'values to unpack')
            return [s.val(z3.IntVal(i)) for i in range(n)]
        return list(s)

    def make_set(self, interp, xs):
        xs = list(xs)
        if is_conc(xs): return set(xs)
        return SSet(xs)

    def kwargs_items(self, interp, d):
        if isinstance(d, UnknownDict): return [('**', d)]
        if isinstance(d, SObj) and '**' in d.methods: return interp.call(d.methods['**'], [d], {})
        if isinstance(d, dict):
            for k in d:
                if not isinstance(k, str): raise interp.exc(TypeError, 'keywords must be strings')
            return list(d.items())
        if isinstance(d, SJson):
            if not jsonv.tag(interp.ex, d, jsonv.DICT): raise interp.exc(TypeError, 'argument after ** must be a mapping')
            return [('**', d)]
        raise interp.exc(TypeError, 'argument after ** must be a mapping')

    def dict_update(self, interp, d, o):
        if isinstance(o, dict):
            for k, v in o.items(): self.setitem(interp, d, k, v)
            return
        if isinstance(o, SJson):
            if len(d) or d.stamp < interp.barrier: raise Unsupported('dict update by a JSON value')
            ex = interp.ex
            if not jsonv.tag(ex, o, jsonv.DICT):
                if ex.branch(jsonv.TAG(o.z) < jsonv.STR): raise interp.exc(TypeError, 'not iterable')
                if ex.choose(2, 'update') == 0: raise interp.exc(ValueError, 'dictionary update sequence')
            d.__class__ = UnknownDict
            return
        for x in interp.concrete_iter(o):
            k, v = self.unpack_n(interp, x, 2)
            self.setitem(interp, d, k, v)

    def find_key(self, interp, d, k):
        """Key of concrete-keyed dict d equal to k on this path (MISSING if none)."""
        k = self.keyval(interp, k, d)
        if isinstance(k, SJson): return MISSING
        if not isinstance(k, Sym):
            try:
                return k if k in d else MISSING
            except TypeError as e:
                raise interp.exc(TypeError, *e.args)
        for kk in d:
            t = self.eq_term(interp, kk, k)
            if interp.ex.branch(t): return kk
        return MISSING

    def keyval(self, interp, k, d=(0,)):
        if isinstance(k, (PList, PDict)): raise interp.exc(TypeError, 'unhashable type')
        if isinstance(k, SJson):
            if jsonv.tag(interp.ex, k, jsonv.STR): return jsonv.json_text(interp, k)
            r = resolve_json(interp, k)
            if isinstance(r, SJson):
                if jsonv.tag(interp.ex, r, jsonv.FLOAT):
                    if all(isinstance(x, (str, SStr)) for x in d): return r
                    raise Unsupported('float key')
                raise interp.exc(TypeError, 'unhashable type')
            return r
        return k

    def getitem(self, interp, o, k):
        ex = interp.ex
        if isinstance(o, Havoc): raise LoopCarried(o.name)
        if isinstance(k, Havoc): raise LoopCarried(k.name)
        if isinstance(o, SJson):
            if jsonv.tag(ex, o, jsonv.DICT):
                k = self.keyval(interp, k)
                if not isinstance(k, (str, SStr)): raise interp.exc(KeyError, k)
                if not ex.branch(jsonv.JHAS(o.z, ztext(k))): raise interp.exc(KeyError, k)
                return jsonv.get(interp, o, k)
            if jsonv.tag(ex, o, jsonv.LIST):
                if isinstance(k, slice): raise Unsupported('slice of a JSON list')
                if not is_intlike(k): raise interp.exc(TypeError, 'list indices must be integers')
                n = jsonv.JLEN(o.z)
                iz = zint(k)
                if ex.branch(z3.And(iz >= 0, iz < n)):
                    e = jsonv.JAT(o.z, iz)
                    jsonv.well_formed(ex, e)
                    return SJson(e)
                if ex.branch(z3.And(iz < 0, iz >= -n)): raise Unsupported('negative JSON index')
                raise interp.exc(IndexError, 'list index out of range')
            if jsonv.tag(ex, o, jsonv.STR): return self.getitem(interp, jsonv.json_text(interp, o), k)
            raise interp.exc(TypeError, 'not subscriptable')
        if isinstance(o, dict):
            kk = self.find_key(interp, o, k)
            if kk is MISSING: raise interp.exc(KeyError, k)
            return o[kk]
        if isinstance(o, PList) and getattr(o, 'view', None) is not None: o = o.view
        if isinstance(o, View): return self.view_item(interp, o, k)
        if isinstance(o, (list, tuple)):
            if isinstance(k, slice):
                if is_conc((k.start, k.stop, k.step)):
                    r = o[k]
                    return interp.new_list(r) if isinstance(o, list) else r
                raise Unsupported('symbolic slice of a list')
            if isinstance(k, (SInt, SBool)):
                iz = zint(k)
                for i in range(-len(o), len(o)):
                    if ex.branch(iz == i): return o[i]
                raise interp.exc(IndexError, 'index out of range')
            if isinstance(k, SJson): k = resolve_json(interp, k)
            try:
                return o[k]
            except (IndexError, TypeError) as e:
                raise interp.exc(type(e), *e.args)
        if is_text(o):
            if isinstance(k, slice):
                if not isinstance(o, Sym) and is_conc((k.start, k.stop, k.step)): return o[k]
                return texts.slice_text(ex, o, k.start, k.stop, k.step)
            if not is_intlike(k): raise interp.exc(TypeError, 'indices must be integers')
            if not isinstance(o, Sym) and not isinstance(k, Sym):
                try:
                    return o[k]
                except IndexError as e:
                    raise interp.exc(IndexError, *e.args)
            n = tlen(o)
            nz = n if isinstance(n, int) else n.z
            iz = k if not isinstance(k, Sym) else zint(k)
            if isinstance(iz, int) and isinstance(nz, int):
                if not -nz <= iz < nz: raise interp.exc(IndexError, 'index out of range')
                if iz < 0: iz += nz
            else:
                if isinstance(iz, int) and iz < 0 or (not isinstance(iz, int) and not ex.must(iz >= 0) and ex.branch(iz < 0)):
                    iz = z3.simplify(zint(nz) + iz)
                    if not ex.branch(iz >= 0): raise interp.exc(IndexError, 'index out of range')
                if not ex.must(zint(iz) < zint(nz)) and not ex.branch(zint(iz) < zint(nz)):
                    raise interp.exc(IndexError, 'index out of range')
            end = iz + 1
            ch = texts.slice_text(ex, o, iz if isinstance(iz, int) else mkint(iz), end if isinstance(end, int) else mkint(end))
            if isinstance(o, (bytes, SBytes)):
                if isinstance(ch, bytes): return ch[0]
                if texts.decl_name(ch.z) == 'BE' and z3.is_int_value(ch.z.arg(1)): return mkint(ch.z.arg(0))
                c = z3.StrToCode(ch.z)
                ex.fact(z3.And(c >= 0, c < 256))
                return mkint(c)
            return ch
        if isinstance(o, SObj):
            f = o.methods.get('__getitem__') or interp.find_in_class(o.cls, '__getitem__')
            if f is MISSING: raise interp.exc(TypeError, 'not subscriptable')
            return interp.call(f, [o, k], {})
        if isinstance(o, Ext): return o.getitem(interp, k)
        if isinstance(o, Range):
            raise Unsupported('index of a range')
        if isinstance(o, Sym): raise Unsupported('subscript of %r' % (o,))
        if is_conc(k):
            try:
                return interp.lift(o[unlift(k)])
            except Exception as e:
                raise interp.exc(type(e), *e.args)
        raise Unsupported('subscript of %r' % (o,))

    def view_item(self, interp, o, k):
        ex = interp.ex
        if isinstance(k, slice):
            if o.cond is not None: raise Unsupported('slice of a filtered sequence')
            if k.step not in (None, 1): raise Unsupported('slice step')
            nn = mkint(o.n)
            a = texts.clamp(ex, k.start, nn, 0)
            b = texts.clamp(ex, k.stop, nn, o.n)
            az = zint(a)
            m = z3.simplify(z3.If(zint(b) > az, zint(b) - az, z3.IntVal(0)))
            return View(('slice', o.src, az, m), m, lambda i: o.val(z3.simplify(az + i)), tuplelike=o.tuplelike)
        if not is_intlike(k): raise interp.exc(TypeError, 'indices must be integers')
        iz = zint(k)
        if o.cond is not None:
            if isinstance(k, int) and k == 0:
                if not ex.branch(self.nonempty(interp, o)) : raise interp.exc(IndexError, 'list index out of range')
                return o.val(o.ghost['first'])
            raise Unsupported('index of a filtered sequence')
        if isinstance(k, int) and k < 0:
            if not ex.branch(o.n >= -k): raise interp.exc(IndexError, 'list index out of range')
            j = z3.simplify(o.n + k)
        else:
            if not ex.branch(z3.And(iz >= 0, iz < o.n)):
                if not isinstance(k, int) and ex.branch(z3.And(iz < 0, iz >= -o.n)): raise Unsupported('negative index')
                raise interp.exc(IndexError, 'list index out of range')
            j = iz
        self.use_index(interp, o, j)
        return o.val(j)

    def setitem(self, interp, o, k, v):
        if isinstance(o, dict):
            self.writable(interp, o)
            if isinstance(k, Sym):
                kk = self.find_key(interp, o, k)
                if kk is MISSING: raise Unsupported('symbolic dictionary key')
                k = kk
            try:
                o[k] = v
            except TypeError as e:
                raise interp.exc(TypeError, *e.args)
            return
        if isinstance(o, PList):
            if getattr(o, 'view', None) is not None: raise Unsupported('assignment into a symbolic list')
            self.writable(interp, o)
            if isinstance(k, slice):
                if not is_conc((k.start, k.stop, k.step)): raise Unsupported('slice assignment')
                o[k] = interp.concrete_iter(v)
                return
            if isinstance(k, Sym):
                for i in range(len(o)):
                    if interp.ex.branch(zint(k) == i):
                        o[i] = v
                        return
                raise interp.exc(IndexError, 'list assignment index out of range')
            try:
                o[k] = v
            except (IndexError, TypeError) as e:
                raise interp.exc(type(e), *e.args)
            return
        if isinstance(o, SObj):
            f = o.methods.get('__setitem__') or interp.find_in_class(o.cls, '__setitem__')
            if f is MISSING: raise interp.exc(TypeError, 'item assignment')
            interp.call(f, [o, k, v], {})
            return
        if isinstance(o, Ext): return o.setitem(interp, k, v)
        if isinstance(o, Sym): raise Unsupported('item assignment on %r' % (o,))
        raise interp.exc(TypeError, 'object does not support item assignment')

    def delitem(self, interp, o, k):
        if isinstance(o, dict):
            self.writable(interp, o)
            kk = self.find_key(interp, o, k)
            if kk is MISSING: raise interp.exc(KeyError, k)
            del o[kk]
        elif isinstance(o, PList) and is_conc(k) and getattr(o, 'view', None) is None:
            self.writable(interp, o)
            try:
                del o[k]
            except (IndexError, TypeError) as e:
                raise interp.exc(type(e), *e.args)
        else: raise Unsupported('del item')

    def obj_dict(self, interp, o):
        d = interp.new_dict(o.attrs)
        d.stamp = -1      # a snapshot: writes are not supported
        return d

    # ------------------------------------------------------------ operators
    def unop(self, interp, op, v):
        if isinstance(v, Havoc): raise LoopCarried(v.name)
        if isinstance(v, (SInt, SBool)):
            z = zint(v)
            if op == 'USub': return mkint(-z)
            if op == 'UAdd': return mkint(z)
            if op == 'Invert': return mkint(-z - 1)
        if not isinstance(v, Sym):
            import operator
            try:
                return {'USub': operator.neg, 'UAdd': operator.pos, 'Invert': operator.invert}[op](v)
            except TypeError as e:
                raise interp.exc(TypeError, *e.args)
        if isinstance(v, SFrac) and op == 'USub': return SFrac(mkint(-zint(v.num)), v.den)
        raise Unsupported('unary %s' % op)

    def binop(self, interp, op, a, b):
        import operator
        for v in (a, b):
            if isinstance(v, Havoc): raise LoopCarried(v.name)
        for hook in interp.binop_hooks:
            r = hook(interp, op, a, b)
            if r is not MISSING: return r
        if isinstance(a, SJson): a = resolve_json(interp, a)
        if isinstance(b, SJson): b = resolve_json(interp, b)
        plain = (int, float, str, bytes, bool)
        if isinstance(a, plain) and isinstance(b, plain):
            f = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'Div': operator.truediv,
                 'FloorDiv': operator.floordiv, 'Mod': operator.mod, 'Pow': operator.pow, 'LShift': operator.lshift,
                 'RShift': operator.rshift, 'BitAnd': operator.and_, 'BitOr': operator.or_, 'BitXor': operator.xor}[op]
            if op == 'Pow' and isinstance(b, int) and b > 100000: raise Unsupported('huge power')
            try:
                return f(a, b)
            except Exception as e:
                raise interp.exc(type(e), *e.args)
        if op == 'Mod' and isinstance(a, (str, bytes, SText)): return self.percent_format(interp, a, b)
        if op == 'Add' and is_text(a) and is_text(b):
            ca, cb = texts.cls_of_text(a), texts.cls_of_text(b)
            if ca is not cb: raise interp.exc(TypeError, 'cannot concatenate str and bytes')
            return concat(ca, [a, b])
        if op == 'Mult' and (is_text(a) and is_intlike(b) or is_text(b) and is_intlike(a)):
            if is_text(b): a, b = b, a
            return self.repeat(interp, a, b)
        if op == 'Add' and isinstance(a, (list, View)) and isinstance(b, (list, View)):
            return self.list_concat(interp, a, b)
        if op == 'Add' and isinstance(a, tuple) and isinstance(b, tuple): return a + b
        if op == 'Mult' and isinstance(a, list) and is_intlike(b) or op == 'Mult' and isinstance(b, list) and is_intlike(a):
            if isinstance(b, list): a, b = b, a
            if getattr(a, 'view', None) is not None: raise Unsupported('list repetition')
            if isinstance(b, int): return interp.new_list(list(a) * b)
            if len(a) == 1:
                n = z3.simplify(z3.If(b.z > 0, b.z, z3.IntVal(0)))
                x = a[0]
                return View(('rep', n.get_id(), n), n, lambda i: x)
            raise Unsupported('list repetition')
        if is_intlike(a) and is_intlike(b): return self.int_op(interp, op, a, b)
        if isinstance(a, (SFrac, float)) or isinstance(b, (SFrac, float)):
            return self.frac_op(interp, op, a, b)
        if isinstance(a, (set, SSet)) and isinstance(b, (set, SSet)):
            if is_conc((a, b)):
                return {'BitAnd': operator.and_, 'BitOr': operator.or_, 'Sub': operator.sub,
                        'BitXor': operator.xor}[op](a, b)
            raise Unsupported('symbolic set operation')
        if isinstance(a, SObj):
            nm = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Mod': '__mod__', 'BitOr': '__or__'}.get(op)
            f = interp.find_in_class(a.cls, nm) if nm else MISSING
            if isinstance(f, types.FunctionType): return interp.call(f, [a, b], {})
            raise interp.exc(TypeError, 'unsupported operand')
        if isinstance(a, Ext) and hasattr(a, 'binop'): return a.binop(interp, op, b)
        if isinstance(b, Ext) and hasattr(b, 'rbinop'): return b.rbinop(interp, op, a)
        if any(isinstance(v, (Opaque, Ext, View, SSet, Range, SJson)) for v in (a, b)):
            raise Unsupported('%s on %s and %s' % (op, type(a).__name__, type(b).__name__))
        raise interp.exc(TypeError, 'unsupported operand types for %s' % op)

    def list_concat(self, interp, a, b):
        va, vb = [getattr(x, 'view', None) if isinstance(x, PList) else (x if isinstance(x, View) else None) for x in (a, b)]
        if va is None and vb is None: return interp.new_list(list(a) + list(b))
        if va is not None and vb is None and not len(b): return va
        if vb is not None and va is None and not len(a): return vb
        if (va is not None and va.cond is not None) or (vb is not None and vb.cond is not None):
            raise Unsupported('concatenation of filtered sequences')
        la = va.n if va is not None else z3.IntVal(len(a))
        lb = vb.n if vb is not None else z3.IntVal(len(b))
        n = z3.simplify(la + lb)
        ex = interp.ex

        def val(i):
            i = zint(i)
            if ex.branch(i < la):
                return va.val(i) if va is not None else self.getitem(interp, a, mkint(i))
            k = z3.simplify(i - la)
            return vb.val(k) if vb is not None else self.getitem(interp, b, mkint(k))
        return View(('cat', n.get_id(), n, va.src if va is not None else id(a), vb.src if vb is not None else id(b)), n, val, ghost=dict(cat=(a, b)))

    def repeat(self, interp, a, b):
        if isinstance(b, int) and not isinstance(a, Sym): return a * b
        if isinstance(b, int):
            return concat(texts.cls_of_text(a), [a] * max(b, 0)) if b > 0 else texts.cls_of_text(a).conc()
        cls = texts.cls_of_text(a)
        bz = zint(b)
        # a bounded count becomes a case split
        for k in range(0, 18):
            pass
        lo, hi = self.bounds(interp, bz, 0, 17)
        if lo is not None:
            for k in range(lo, hi + 1):
                if k == hi or interp.ex.branch(bz == k): return self.repeat(interp, a, k)
        if not interp.ex.branch(bz > 0): return cls.conc()
        if tlen(a) != 1: raise Unsupported('symbolic repetition')
        t = UF('REPEAT', SS, IS, SS)(ztext(a), bz)
        texts.LEN['REPEAT'] = lambda t: t.arg(1)
        interp.ex.fact(z3.Length(t) == bz)
        return mktext(cls, [t])

    def bounds(self, interp, z, lo, hi):
        if interp.ex.must(z3.And(z >= lo, z <= hi)): return lo, hi
        return None, None

    def percent_format(self, interp, fmt, args):
        if not isinstance(fmt, Sym) and is_conc(args):
            return interp.native(lambda f, a: f % a, [fmt, args])
        if isinstance(fmt, Sym): raise Unsupported('symbolic format')
        import re as _re
        cls = SStr if isinstance(fmt, str) else SBytes
        if isinstance(fmt, bytes): raise Unsupported('bytes format')
        if isinstance(args, dict): raise Unsupported('mapping format')
        if not isinstance(args, tuple): args = (args,)
        out, i, k = [], 0, 0
        for m in _re.finditer(r'%([0-9.#+ -]*)([a-zA-Z%])', fmt):
            out.append(fmt[i:m.start()])
            i = m.end()
            if m.group(2) == '%':
                out.append('%')
                continue
            if k >= len(args): raise interp.exc(TypeError, 'not enough arguments for format string')
            v = args[k]
            k += 1
            out.append(self.format_one(interp, v, m.group(1), m.group(2)))
        out.append(fmt[i:])
        if k < len(args): raise interp.exc(TypeError, 'not all arguments converted')
        return concat(SStr, out)

    def format_one(self, interp, v, flags, conv):
        if conv == 's' and not flags: return self.to_str(interp, v)
        if conv == 'd' and not flags and is_intlike(v): return self.to_str(interp, v)
        if not isinstance(v, Sym) and is_conc(v): return interp.native(lambda f, a: f % (a,), ['%' + flags + conv, v])
        if conv == 'r' and not flags: return self.opaque_str(interp, 'REPR', v)
        if conv == 'x' and is_intlike(v):
            z = zint(v)
            if not flags and interp.ex.must(z >= 0):
                texts.ALPHA['HEXNUM'] = 'hex'
                texts.LEN['HEXNUM'] = lambda t: UF('HEXNUMLEN', IS, IS)(t.arg(0))
                interp.ex.fact(UF('HEXNUMLEN', IS, IS)(z) >= 1)
                return mktext(SStr, [UF('HEXNUM', IS, SS)(z)])
            t = UF('HEXFMT%s' % flags, IS, SS)(z)
            texts.ALPHA['HEXFMT%s' % flags] = 'hex'
            if flags == '02' and (interp.ex.must(z3.And(z >= 0, z < 256)) or interp.ex.branch(z3.And(z >= 0, z < 256))):
                t = UF('HEX2', IS, SS)(z)
                texts.ALPHA['HEX2'] = 'hex'
            return mktext(SStr, [t])
        raise Unsupported('format %%%s%s' % (flags, conv))

    def opaque_str(self, interp, kind, v):
        if isinstance(v, SText): t = UF(kind + '_t', SS, SS)(ztext(v))
        elif isinstance(v, (SInt, SBool)): t = UF(kind + '_i', IS, SS)(zint(v))
        elif isinstance(v, SJson): t = UF(kind + '_j', jsonv.JV, SS)(v.z)
        elif isinstance(v, Opaque): t = interp.ex.fresh(kind, SS)
        else: t = interp.ex.fresh(kind, SS)
        return mktext(SStr, [t])

    def to_str(self, interp, v):
        if isinstance(v, SStr): return v
        if isinstance(v, SInt):
            texts.ALPHA.setdefault('STR_i', 'ascii')
            return mktext(SStr, [UF('STR_i', IS, SS)(v.z)])
        if isinstance(v, SBool): return 'True' if interp.ex.branch(v.z) else 'False'
        if isinstance(v, SJson):
            r = resolve_json(interp, v)
            if not isinstance(r, SJson): return self.to_str(interp, r)
            return self.opaque_str(interp, 'STR', v)
        if isinstance(v, SObj):
            f = interp.find_in_class(v.cls, '__str__')
            if isinstance(f, types.FunctionType) and not issubclass(v.cls, BaseException):
                return interp.call(f, [v], {})
            return self.opaque_str(interp, 'STR', v)
        if isinstance(v, Sym): return self.opaque_str(interp, 'STR', v)
        if is_conc(v): return interp.native(str, [v])
        return self.opaque_str(interp, 'STR', v)

    def format_value(self, interp, v, spec, conv):
        if spec == '' and conv in (None, 's'): return self.to_str(interp, v)
        if conv == 'r' and spec == '': return self.opaque_str(interp, 'REPR', v) if not is_conc(v) else interp.native(repr, [v])
        if is_conc(v) and is_conc(spec): return interp.native(format, [v, spec])
        raise Unsupported('format spec %r' % (spec,))

    def concat_texts(self, interp, cls, xs): return concat(cls, xs)

    # integers
    def int_op(self, interp, op, a, b):
        ex = interp.ex
        x, y = zint(a), zint(b)
        if op == 'Add': return mkint(x + y)
        if op == 'Sub': return mkint(x - y)
        if op == 'Mult': return mkint(self.product(interp, x, y))
        if op in ('FloorDiv', 'Mod'):
            if z3.is_int_value(y):
                c = y.as_long()
                if c == 0: raise interp.exc(ZeroDivisionError, 'division by zero')
                if c < 0: raise Unsupported('division by a negative constant')
            elif not ex.must(y > 0):
                if not ex.branch(y != 0): raise interp.exc(ZeroDivisionError, 'division by zero')
                if not ex.branch(y > 0): raise Unsupported('division by a negative number')
            return mkint(x / y) if op == 'FloorDiv' else mkint(x % y)
        if op == 'Div':
            if z3.is_int_value(y) and y.as_long() > 0: return SFrac(a, y.as_long())
            raise Unsupported('true division')
        if op == 'Pow':
            if z3.is_int_value(y) and 0 <= y.as_long() <= 16:
                r = z3.IntVal(1)
                for _ in range(y.as_long()): r = r * x
                return mkint(r)
            if z3.is_int_value(x) and x.as_long() == 2: return self.pow2(interp, y)
            raise Unsupported('power')
        if op == 'LShift':
            if z3.is_int_value(y): return mkint(x * (1 << y.as_long()))
            return mkint(x * zint(self.pow2(interp, y)))
        if op == 'RShift':
            if z3.is_int_value(y): return mkint(x / (1 << y.as_long()))
            if not ex.must(y >= 0) and not ex.branch(y >= 0): raise interp.exc(ValueError, 'negative shift count')
            if interp.opaque_products:
                t = UF('SHR', IS, IS, IS)(x, y)
                ex.fact(z3.And(z3.Implies(y == 0, t == x), z3.Implies(x >= 0, t >= 0)))
                return mkint(t)
            return mkint(x / zint(self.pow2(interp, y)))
        if op == 'BitAnd':
            if z3.is_int_value(x): x, y = y, x
            if z3.is_int_value(y):
                c = y.as_long()
                if c == 0: return 0
                if c > 0 and c & (c + 1) == 0: return mkint(x % (c + 1))
                if c > 0 and c & (c - 1) == 0:
                    return mkint(c * ((x / c) % 2))
            if isinstance(a, SBool) and isinstance(b, SBool): return mkbool(z3.And(a.z, b.z))
            r = AND(x, y)
            ex.fact(z3.And(z3.Implies(z3.Or(x == 0, y == 0), r == 0)))
            return mkint(r)
        if op in ('BitOr', 'BitXor'):
            if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
                p, q = [v.z if isinstance(v, SBool) else z3.BoolVal(v) for v in (a, b)]
                return mkbool(z3.Or(p, q) if op == 'BitOr' else z3.Xor(p, q))
            return self.xor_or(interp, op, x, y)
        raise Unsupported('integer %s' % op)

    def xor_or(self, interp, op, x, y):
        ex = interp.ex
        if z3.is_int_value(x) and x.as_long() == 0: return mkint(y)
        if z3.is_int_value(y) and y.as_long() == 0: return mkint(x)
        if op == 'BitOr':
            # x*2^k | y  with 0 <= y < 2^k is a sum
            for p, q in ((x, y), (y, x)):
                k = multiple_pow2(p)
                if k and ex.must(z3.And(q >= 0, q < k)): return mkint(p + q)
            r = OR(x, y)
            ex.fact(z3.Implies(z3.And(x >= 0, y >= 0), z3.And(r >= x, r >= y, (r == 0) == z3.And(x == 0, y == 0))))
            return mkint(r)
        ts = {}
        for t in xor_terms(x) + xor_terms(y):
            k = t.get_id()
            if k in ts: del ts[k]
            else: ts[k] = t
        const = 0
        out = []
        for t in ts.values():
            if z3.is_int_value(t): const ^= t.as_long()
            else: out.append(t)
        if len(out) > 1:
            KEEP.extend(out)        # ids stay unique while the terms live
            out.sort(key=lambda t: t.get_id())
        if const: out.append(z3.IntVal(const))
        if not out: return 0
        r = out[0]
        for t in out[1:]:
            n = XOR(r, t)
            ex.fact(z3.And(z3.Implies(z3.And(r >= 0, t >= 0), n >= 0), (n == 0) == (r == t)))
            for k in (8, 64, 128):
                ex.fact(z3.Implies(z3.And(r >= 0, t >= 0, r < (1 << k), t < (1 << k)), n < (1 << k)))
            r = n
        return mkint(r)

    def pow2(self, interp, y):
        if z3.is_int_value(y): return 1 << y.as_long()
        p = POW2(y)
        interp.ex.fact(z3.And(z3.Implies(y >= 0, p >= 1), z3.Implies(y == 0, p == 1), z3.Implies(y >= 1, p >= 2)))
        return mkint(p)

    def frac_op(self, interp, op, a, b):
        if isinstance(a, SInt) and isinstance(b, float) and op == 'Div' and b == int(b) and b > 0:
            return SFrac(a, int(b))
        if isinstance(a, SInt) and isinstance(b, float) and op == 'Mult' and b == int(b): return SFrac(mkint(a.z * int(b)), 1)
        if isinstance(a, SFrac) and is_intlike(b):
            if op == 'Add': return SFrac(mkint(zint(a.num) + zint(b) * a.den), a.den)
            if op == 'Sub': return SFrac(mkint(zint(a.num) - zint(b) * a.den), a.den)
            if op == 'Mult': return SFrac(mkint(zint(a.num) * zint(b)), a.den)
        raise Unsupported('float arithmetic')

    # ------------------------------------------------------------ comparison
    def compare(self, interp, op, a, b):
        if op in ('Is', 'IsNot', 'Eq', 'NotEq') and (isinstance(a, Unknown) or isinstance(b, Unknown)):
            return SBool(interp.ex.fresh('unknown', BS))
        for v in (a, b):
            if isinstance(v, Havoc): raise LoopCarried(v.name)
        if op == 'Is' or op == 'IsNot':
            r = self.is_term(interp, a, b)
            return r if op == 'Is' else self.neg(r)
        if op == 'Eq' or op == 'NotEq':
            r = self.eq_value(interp, a, b)
            return r if op == 'Eq' else self.neg(r)
        if op == 'In' or op == 'NotIn':
            r = self.contains(interp, b, a)
            return r if op == 'In' else self.neg(r)
        for hook in interp.cmp_hooks:
            r = hook(interp, op, a, b)
            if r is not MISSING: return r
        if isinstance(a, SJson): a = resolve_json(interp, a)
        if isinstance(b, SJson): b = resolve_json(interp, b)
        if is_intlike(a) and is_intlike(b):
            x, y = zint(a), zint(b)
            return mkbool({'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op])
        if isinstance(a, SFrac) or isinstance(b, SFrac):
            na, da = (zint(a.num), a.den) if isinstance(a, SFrac) else (zint(a), 1) if is_intlike(a) else (None, 1)
            nb, db = (zint(b.num), b.den) if isinstance(b, SFrac) else (zint(b), 1) if is_intlike(b) else (None, 1)
            if na is None or nb is None: raise Unsupported('float comparison')
            x, y = na * db, nb * da
            return mkbool({'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op])
        if is_text(a) and is_text(b) and texts.cls_of_text(a) is texts.cls_of_text(b):
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
            x, y = ztext(a), ztext(b)
            return mkbool({'Lt': x < y, 'LtE': x <= y, 'Gt': y < x, 'GtE': y <= x}[op])
        if not isinstance(a, Sym) and not isinstance(b, Sym) and is_conc((a, b)):
            import operator
            try:
                return {'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt, 'GtE': operator.ge}[op](a, b)
            except TypeError as e:
                raise interp.exc(TypeError, *e.args)
        if isinstance(a, (Opaque, Ext, SObj)) or isinstance(b, (Opaque, Ext, SObj)): raise Unsupported('ordering')
        raise interp.exc(TypeError, 'unorderable types')

    def neg(self, r):
        if isinstance(r, bool): return not r
        if isinstance(r, SBool): return mkbool(z3.Not(r.z))
        raise Unsupported('negation')

    def is_term(self, interp, a, b):
        if isinstance(b, SJson) and not isinstance(a, SJson): a, b = b, a
        if isinstance(a, SJson):
            if b is None: return mkbool(jsonv.TAG(a.z) == jsonv.NULL)
            if isinstance(b, bool): return mkbool(z3.And(jsonv.TAG(a.z) == jsonv.BOOL, jsonv.JB(a.z) == b))
            if isinstance(b, SJson) and a.z.eq(b.z): return True
            raise Unsupported('identity of JSON values')
        for x, y in ((a, b), (b, a)):
            if x is None and isinstance(y, Opaque) and y.kind == 'payload': return mkbool(UF('PAYNULL', y.z.sort(), BS)(y.z))
            if x is None: return y is None
            if isinstance(x, bool):
                if isinstance(y, SBool): return mkbool(y.z == x)
                return y is x
        if isinstance(a, SObj) and isinstance(b, SObj) and a.ident is not None and b.ident is not None:
            return mkbool(a.ident == b.ident)
        if isinstance(a, Sym) and isinstance(b, Sym) and type(a) is type(b) and not isinstance(a, (SObj, Ext)):
            if a is b: return True
            raise Unsupported('identity of symbolic values')
        return a is b

    def eq_value(self, interp, a, b):
        t = self.eq_term(interp, a, b)
        return t if isinstance(t, bool) else mkbool(t)

    def eq_term(self, interp, a, b):
        for hook in interp.cmp_hooks:
            r = hook(interp, 'Eq', a, b)
            if r is not MISSING: return r.z if isinstance(r, SBool) else r
        if isinstance(b, SJson) and not isinstance(a, SJson): a, b = b, a
        if isinstance(a, SJson): return jsonv.eq_term(interp, a, b)
        if is_text(a) and is_text(b):
            if texts.cls_of_text(a) is not texts.cls_of_text(b): return False
            if not isinstance(a, Sym) and not isinstance(b, Sym): return a == b
            return texts.eq_term(a, b)
        if is_intlike(a) and is_intlike(b):
            r = octets_eq(zint(a), zint(b))
            if r is not None: return r
            z = z3.simplify(zint(a) == zint(b))
            return True if z3.is_true(z) else False if z3.is_false(z) else z
        if isinstance(a, SFrac) or isinstance(b, SFrac):
            if isinstance(b, SFrac): a, b = b, a
            if is_intlike(b): return zint(a.num) == zint(b) * a.den
            raise Unsupported('float equality')
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            if a.z.sort() != b.z.sort(): return False
            if a.kind == 'payload' and not a.z.eq(b.z): return z3.Or(a.z == b.z, UF('PAYEQ', a.z.sort(), a.z.sort(), BS)(a.z, b.z))
            return True if a.z.eq(b.z) else a.z == b.z
        if isinstance(a, SObj) or isinstance(b, SObj):
            if not isinstance(a, SObj): a, b = b, a
            f = interp.find_in_class(a.cls, '__eq__')
            if isinstance(f, types.FunctionType):
                r = interp.call(f, [a, b], {})
                t = self.truth_term(interp, r)
                return t
            r = self.is_term(interp, a, b)
            return r.z if isinstance(r, SBool) else r
        if isinstance(a, (list, View)) and isinstance(b, (list, View)) or isinstance(a, tuple) and isinstance(b, tuple):
            return self.seq_eq(interp, a, b)
        if isinstance(a, dict) and isinstance(b, dict):
            if set(a) != set(b): return False
            cs = [self.eq_term(interp, a[k], b[k]) for k in a]
            return conj(cs)
        if isinstance(a, (set, SSet)) and isinstance(b, (set, SSet)):
            if is_conc((a, b)): return a == b
            raise Unsupported('set equality')
        if isinstance(a, (Ext,)) and hasattr(a, 'eq'): return a.eq(interp, b)
        if isinstance(b, (Ext,)) and hasattr(b, 'eq'): return b.eq(interp, a)
        if isinstance(a, Sym) or isinstance(b, Sym):
            kinds = ('SText', 'SInt', 'SBool')
            if a is b: return True
            if isinstance(a, (Opaque, Ext, Closure, BoundM, Method)) and isinstance(b, (Opaque, Ext, Closure, BoundM, Method)):
                raise Unsupported('equality of %r and %r' % (a, b))
            return False
        try:
            return bool(a == b)
        except Exception as e:
            raise Unsupported('equality: %s' % e)

    def seq_eq(self, interp, a, b):
        va, vb = [getattr(x, 'view', None) if isinstance(x, PList) else (x if isinstance(x, View) else None) for x in (a, b)]
        if va is None and vb is None:
            if len(a) != len(b): return False
            return conj([self.eq_term(interp, x, y) for x, y in zip(a, b)])
        if va is not None and vb is not None and va is vb: return True
        # a case split: lengths, then an arbitrary element
        ex = interp.ex
        sa, sb = va, vb
        if sa is None or sb is None:
            v, l = (sa, b) if sb is None else (sb, a)
            if v.cond is not None: raise Unsupported('equality of filtered sequences')
            if not ex.branch(v.n == len(l)): return False
            return conj([self.eq_term(interp, v.val(z3.IntVal(i)), l[i]) for i in range(len(l))])
        if sa.cond is not None or sb.cond is not None:
            if sa.src != sb.src: raise Unsupported('equality of filtered sequences')
        elif not ex.branch(sa.n == sb.n): return False
        return self.view_eq(interp, sa, sb)

    def view_eq(self, interp, sa, sb):
        """Case split: there is an index where they differ, or they agree everywhere."""
        from .loops import in_range, Protected, subst
        ex = interp.ex
        nm = ex._name('eq')
        j = z3.Int(nm)
        src = sa.src

        def one():
            with Protected(interp):
                self.use_index(interp, sa, j)
                self.use_index(interp, sb, j)
                ca = sa.cond(j) if sa.cond is not None else z3.BoolVal(True)
                cb = sb.cond(j) if sb.cond is not None else z3.BoolVal(True)
                if sa.cond is not None or sb.cond is not None:
                    if not ex.branch(ca == cb): return 'diff'
                    if not ex.branch(ca): return 'same'
                t = self.eq_term(interp, sa.val(j), sb.val(j))
                return 'same' if ex.branch(t) else 'diff'
        base = ex.pc + [j >= 0, j < sa.n]
        paths = ex.explore(one, base=base, index_vars=ex.frames[-1].index_vars + (j,), prefix=nm + '.')
        nb = len(base)
        D = [since(pc, nb) for pc, r in paths if r == 'diff']
        if not D: return True
        if ex.choose(2, 'vieweq') == 0:
            ex.assume(z3.And(j >= 0, j < sa.n))
            ex.assume(z3.Or(*D))
            return False
        S = [since(pc, nb) for pc, r in paths if r == 'same']
        SF = z3.Or(*S) if S else z3.BoolVal(False)
        for s in {id(sa): sa, id(sb): sb}.values():
            ex.add_universal(s.src, lambda t: z3.Implies(z3.And(t >= 0, t < sa.n), subst(SF, j, t)))
        return True

    def contains(self, interp, c, x):
        ex = interp.ex
        if isinstance(c, SJson):
            if jsonv.tag(ex, c, jsonv.DICT):
                x = self.keyval(interp, x)
                if not isinstance(x, (str, SStr)): return False
                return mkbool(jsonv.JHAS(c.z, ztext(x)))
            if jsonv.tag(ex, c, jsonv.STR): return self.contains(interp, jsonv.json_text(interp, c), x)
            if jsonv.tag(ex, c, jsonv.LIST):
                return self.contains(interp, self.iterate(interp, c), x)
            raise interp.exc(TypeError, 'not a container')
        if isinstance(c, dict):
            x = self.keyval(interp, x)
            if not isinstance(x, Sym): return x in c
            return mkbool(disj([self.eq_term(interp, k, x) for k in c]))
        if isinstance(c, SSet): c = c.elts
        if isinstance(c, PList) and getattr(c, 'view', None) is not None: c = c.view
        if isinstance(c, View):
            from .loops import in_range
            memo = ex.state.setdefault('contains', [])
            if ex.choose(2, 'in') == 0:
                j = ex.fresh('inx', IS)
                ex.assume(in_range(c, j))
                self.use_index(interp, c, j)
                ex.assume(self.eq_term(interp, c.val(j), x))
                return True
            from .loops import Protected
            def no(t):
                with Protected(interp):
                    e = self.eq_term(interp, c.val(t), x)
                return z3.Implies(in_range(c, t), z3.Not(e) if not isinstance(e, bool) else z3.BoolVal(not e))
            ex.add_universal(c.src, no)
            ex.assume(c.n >= 0)
            return False
        if isinstance(c, (list, tuple)):
            return mkbool(disj([self.eq_term(interp, k, x) for k in c]))
        if isinstance(c, (set, frozenset)):
            x = self.keyval(interp, x)
            if not isinstance(x, Sym): return x in c
            return mkbool(disj([self.eq_term(interp, k, x) for k in sorted(c, key=repr)]))
        if is_text(c):
            if isinstance(x, SJson): x = resolve_json(interp, x)
            isb = isinstance(c, (bytes, SBytes))
            if isb and is_intlike(x):
                if isinstance(x, Sym): raise Unsupported('symbolic byte membership')
                x = bytes([x])
            if not is_text(x) or texts.cls_of_text(x) is not texts.cls_of_text(c):
                raise interp.exc(TypeError, 'a string of the same kind is required')
            if not isinstance(c, Sym) and not isinstance(x, Sym): return x in c
            if not isinstance(x, Sym) and len(x) == 1:
                ds = []
                for p in text_parts(c):
                    if not z3.is_expr(p):
                        if x in p: return True
                        continue
                    al = texts.alphabet(p)
                    if al is not None and (x if isinstance(x, str) else x.decode('latin-1')) not in al: continue
                    ds.append(z3.Contains(p, zstr(x)))
                return mkbool(disj(ds))
            return mkbool(z3.Contains(ztext(c), ztext(x)))
        if isinstance(c, SObj):
            f = c.methods.get('__contains__') or interp.find_in_class(c.cls, '__contains__')
            if f is not MISSING:
                t = self.truth_term(interp, interp.call(f, [c, x], {}))
                return t if isinstance(t, bool) else mkbool(t)
            return self.contains(interp, self.iterate(interp, c), x)
        if isinstance(c, Ext): return c.contains(interp, x)
        if isinstance(c, Range):
            if not is_intlike(x): return False
            return mkbool(z3.And(zint(x) >= zint(c.lo), zint(x) < zint(c.hi)))
        if isinstance(c, Sym): raise Unsupported('membership in %r' % (c,))
        if isinstance(c, range): return self.contains(interp, list(c), x)
        raise interp.exc(TypeError, 'not a container')

    # ------------------------------------------------------------ merging (off by default)
    def try_merge_if(self, interp, st, c, env): return False

    def try_merge_ifexp(self, interp, e, c, env): return None

    # ------------------------------------------------------------ attributes and methods
    def builtin_attr(self, interp, o, name):
        if isinstance(o, Havoc): raise LoopCarried(o.name)
        if name == '__class__': return pytype(interp, o)
        t = None
        if isinstance(o, SJson):
            # only string methods and dictionary methods are ever asked for
            cand = [c for c in (str, dict, list, bytes, int, float, bool, type(None)) if hasattr(c, name)]
            for c in cand:
                if c in TAGOF and jsonv.tag(interp.ex, o, TAGOF[c]):
                    if c is str: return Method(jsonv.json_text(interp, o), name)
                    return Method(o, name)
            return MISSING
        if isinstance(o, Sym):
            if isinstance(o, (Opaque, SSet, Range)):
                if isinstance(o, SSet): t = set
                else: raise Unsupported('attribute %s of %r' % (name, o))
            else: t = pytype(interp, o)
        elif isinstance(o, PList): t = list
        elif isinstance(o, PDict): t = dict
        if t is not None:
            return Method(o, name) if hasattr(t, name) else MISSING
        try:
            v = getattr(o, name)
        except AttributeError:
            return MISSING
        except Exception as e:
            raise interp.exc(type(e), *e.args)
        if callable(v) and isinstance(o, (str, bytes, int, float, tuple, set, frozenset, dict, list)) and not isinstance(o, type):
            return Method(o, name)
        if callable(v) and not isinstance(v, (type, types.FunctionType)): return v
        return interp.lift(v)

    def call_method(self, interp, o, name, args, kw):
        for v in args:
            if isinstance(v, Havoc): raise LoopCarried(v.name)
        if isinstance(o, SJson): return self.json_method(interp, o, name, args, kw)
        if isinstance(o, (SStr, SBytes, str, bytes)):
            if not isinstance(o, Sym) and is_conc(args) and is_conc(kw):
                return interp.native(getattr(o, name), args, kw)
            return self.text_method(interp, o, name, args, kw)
        if isinstance(o, (PList, list, View)): return self.list_method(interp, o, name, args, kw)
        if isinstance(o, dict): return self.dict_method(interp, o, name, args, kw)
        if isinstance(o, (SInt, SBool)):
            if name == 'bit_length': return self.bit_length(interp, o)
            if name == 'to_bytes':
                ln = args[0] if args else kw.get('length')
                order = args[1] if len(args) > 1 else kw.get('byteorder', 'big')
                if order != 'big': raise Unsupported('byte order')
                from . import lib
                return lib.int_to_bytes_exact(interp, o, ln)
            raise Unsupported('int.%s' % name)
        if isinstance(o, (set, frozenset)):
            if is_conc(args): 
                if name in ('add', 'update', 'discard', 'remove', 'pop', 'clear') and interp.barrier > 1:
                    raise Unsupported('set mutation in a loop')
                return interp.native(getattr(o, name), args, kw)
            if name == 'issubset':
                cs = []
                for x in sorted(o, key=repr):
                    t = self.contains(interp, args[0], x)
                    cs.append(t.z if isinstance(t, SBool) else t)
                return mkbool(conj(cs))
            if name == 'add': raise Unsupported('symbolic set element')
        if isinstance(o, tuple):
            if name == 'index' or name == 'count': raise Unsupported('tuple.%s' % name)
        if is_conc(o) and is_conc(args) and is_conc(kw): return interp.native(getattr(o, name), args, kw)
        raise Unsupported('%s.%s' % (type(o).__name__, name))

    def bit_length(self, interp, o):
        z = zint(o)
        n = BITLEN(z)
        ex = interp.ex
        p, q = zint(self.pow2(interp, n)), zint(self.pow2(interp, z3.simplify(n - 1)))
        ex.fact(n >= 0)
        ex.fact((n == 0) == (z == 0))
        ex.fact(z3.Implies(z > 0, z3.And(z < p, z >= q, p == 2 * q)))
        return mkint(n)

    def json_method(self, interp, o, name, args, kw):
        ex = interp.ex
        if name == 'get':
            k = self.keyval(interp, args[0])
            d = args[1] if len(args) > 1 else None
            if not isinstance(k, (str, SStr)): return d
            if ex.branch(jsonv.JHAS(o.z, ztext(k))): return jsonv.get(interp, o, k)
            return d
        if name == 'keys': return JsonKeys(o)
        if name == 'copy':
            r = jsonv.MJson(o.z)
            r.stamp = interp.nest
            return r
        if name == 'update' and isinstance(o, jsonv.MJson) and len(args) == 1 and not kw and isinstance(args[0], SJson):
            if o.stamp < interp.barrier: raise Unsupported('loop writes to an outer container')
            p = args[0]
            if not jsonv.tag(ex, p, jsonv.DICT):
                if ex.branch(jsonv.TAG(p.z) < jsonv.STR): raise interp.exc(TypeError, 'not iterable')
                if ex.choose(2, 'update') == 0: raise interp.exc(ValueError, 'dictionary update sequence')
            o.z = UF('JMERGE', jsonv.JV, jsonv.JV, jsonv.JV)(o.z, p.z)
            ex.assume(jsonv.TAG(o.z) == jsonv.DICT)
            return None
        if name == 'items':
            z = o.z
            ex.fact(jsonv.JLEN(z) >= 0)
            KEY = UF('JKEY', jsonv.JV, IS, SS)
            def val(i):
                k = mktext(SStr, [KEY(z, zint(i))])
                ex.assume(jsonv.JHAS(z, KEY(z, zint(i))))
                return (k, jsonv.get(interp, o, k))
            return View(('jsonitems', z.get_id(), z), jsonv.JLEN(z), val)
        raise Unsupported('method %s of a JSON value' % name)

    def list_method(self, interp, l, name, args, kw):
        if isinstance(l, View):
            if name == 'copy': return l
            raise Unsupported('%s of a symbolic list' % name)
        vw = getattr(l, 'view', None)
        if name == 'append':
            self.list_append(interp, l, args[0])
            return None
        if name == 'extend':
            self.list_extend(interp, l, args[0])
            return None
        if vw is not None:
            if name == 'copy': return vw
            raise Unsupported('%s of a symbolic list' % name)
        if name == 'insert':
            self.writable(interp, l)
            if isinstance(args[0], Sym): raise Unsupported('insert at a symbolic place')
            l.insert(args[0], args[1])
            return None
        if name == 'copy': return interp.new_list(l)
        if name in ('pop', 'clear', 'reverse'):
            self.writable(interp, l)
            if not is_conc(args): raise Unsupported('pop at a symbolic place')
            try:
                return getattr(list, name)(l, *args)
            except IndexError as e:
                raise interp.exc(IndexError, *e.args)
        if name == 'sort':
            if is_conc(list(l)) and not kw:
                if sorted(l) == list(l): return None        # already sorted: no write
                self.writable(interp, l)
                l.sort()
                return None
            raise Unsupported('sort of symbolic values')
        if name == 'remove' or name == 'index':
            for i, x in enumerate(list(l)):
                if interp.ex.branch(self.eq_term(interp, x, args[0])):
                    if name == 'index': return i
                    self.writable(interp, l)
                    del l[i]
                    return None
            raise interp.exc(ValueError, 'not in list')
        if name == 'count':
            n = z3.IntVal(0)
            for x in l:
                t = self.eq_term(interp, x, args[0])
                n = n + (z3.If(t, 1, 0) if not isinstance(t, bool) else int(t))
            return mkint(n)
        raise Unsupported('list.%s' % name)

    def dict_method(self, interp, d, name, args, kw):
        if name == 'get':
            k = self.find_key(interp, d, args[0])
            if k is MISSING: return args[1] if len(args) > 1 else None
            return d[k]
        if name == 'keys': return DictKeys(d)
        if name == 'values': return interp.new_list(d.values())
        if name == 'items': return interp.new_list(tuple(x) for x in d.items())
        if name == 'copy': return interp.new_dict(d)
        if name == 'update':
            if args: self.dict_update(interp, d, args[0])
            for k, v in kw.items(): self.setitem(interp, d, k, v)
            return None
        if name == 'setdefault':
            k = self.find_key(interp, d, args[0])
            if k is MISSING:
                v = args[1] if len(args) > 1 else None
                self.setitem(interp, d, args[0], v)
                return v
            return d[k]
        if name == 'pop':
            self.writable(interp, d)
            k = self.find_key(interp, d, args[0])
            if k is MISSING:
                if len(args) > 1: return args[1]
                raise interp.exc(KeyError, args[0])
            return d.pop(k)
        if name == 'clear':
            self.writable(interp, d)
            d.clear()
            return None
        raise Unsupported('dict.%s' % name)

    def text_method(self, interp, o, name, args, kw):
        ex = interp.ex
        cls = texts.cls_of_text(o)
        isb = cls is SBytes

        def same_kind(x):
            if isinstance(x, SJson): x = resolve_json(interp, x)
            if not is_text(x) or texts.cls_of_text(x) is not cls: raise interp.exc(TypeError, 'wrong kind of string')
            return x
        if name == 'encode' and not isb:
            enc = args[0] if args else kw.get('encoding', 'utf-8')
            if not isinstance(enc, str): raise Unsupported('symbolic encoding')
            e = enc.lower().replace('_', '-')
            if e in ('utf-8', 'utf8'): return texts.enc_facts(ex, texts.encode_utf8(o))
            if e in ('ascii', 'us-ascii'):
                for p in text_parts(o):
                    if isinstance(p, str):
                        if not p.isascii(): raise interp.exc(UnicodeEncodeError, 'ascii', p, 0, 1, '')
                    elif not texts.is_ascii_piece(p):
                        if not ex.branch(texts.ISASCII(p)): raise interp.exc(UnicodeEncodeError, 'ascii', '', 0, 1, '')
                out = []
                for p in text_parts(o):
                    q = texts.encode_piece(p)
                    if z3.is_expr(p) and texts.decl_name(q) == 'ENC' and not texts.is_ascii_piece(p): q = p
                    out.append(q)
                return mktext(SBytes, out)
            if e in ('latin-1', 'latin1', 'iso-8859-1'):
                ISL = UF('ISLATIN1', SS, BS)
                for p in text_parts(o):
                    if isinstance(p, str):
                        if any(ord(c) > 255 for c in p): raise interp.exc(UnicodeEncodeError, 'latin-1', p, 0, 1, '')
                    elif not texts.is_ascii_piece(p):
                        if not ex.branch(ISL(p)): raise interp.exc(UnicodeEncodeError, 'latin-1', '', 0, 1, '')
                return mktext(SBytes, [p.encode('latin-1') if isinstance(p, str) else p for p in text_parts(o)])
            raise Unsupported('encoding %s' % enc)
        if name == 'decode' and isb:
            enc = args[0] if args else kw.get('encoding', 'utf-8')
            if not isinstance(enc, str): raise Unsupported('symbolic encoding')
            e = enc.lower().replace('_', '-')
            if e in ('utf-8', 'utf8', 'ascii', 'us-ascii'):
                r = texts.try_decode(ex, o, 'ascii' if 'ascii' in e else 'utf-8')
                if r is None: raise interp.exc(UnicodeDecodeError, 'utf-8', b'', 0, 1, 'invalid')
                return r
            if e in ('latin-1', 'latin1', 'iso-8859-1'):
                return mktext(SStr, [p.decode('latin-1') if isinstance(p, bytes) else p for p in text_parts(o)])
            raise Unsupported('encoding %s' % enc)
        if name in ('lower', 'upper'):
            out = []
            for p in text_parts(o): out.append(texts.lower_piece(p, name == 'upper'))
            r = mktext(cls, out)
            for p, q in zip(text_parts(o), out):
                if z3.is_expr(p): self.case_facts(interp, p, q)
            return r
        if name in ('startswith', 'endswith'):
            x = args[0]
            if isinstance(x, tuple):
                return mkbool(disj([truth_z(self.text_method(interp, o, name, [y], {})) for y in x]))
            x = same_kind(x)
            if not isinstance(x, Sym):
                # use constant ends
                p = text_parts(o)[0 if name == 'startswith' else -1]
                if not z3.is_expr(p):
                    k = min(len(p), len(x))
                    if name == 'startswith' and p[:k] != x[:k]: return False
                    if name == 'endswith' and p[len(p) - k:] != x[len(x) - k:]: return False
                    if k == len(x): return True
                else:
                    al = texts.alphabet(p)
                    if al is not None and x:
                        ch = x[0] if name == 'startswith' else x[-1]
                        ch = chr(ch) if isinstance(ch, int) else ch
                        if ch not in al:
                            n = texts.zlen(p)
                            if isinstance(n, int) and n > 0: return False
            f = z3.PrefixOf if name == 'startswith' else z3.SuffixOf
            return mkbool(f(ztext(x), ztext(o)))
        if name == 'join':
            seq = self.iterate(interp, args[0])
            if isinstance(seq, View): return self.join_view(interp, cls, o, seq)
            out = []
            for i, x in enumerate(seq):
                if i: out.append(o)
                out.append(same_kind(x))
            return concat(cls, out)
        if name in ('rstrip', 'lstrip', 'strip'):
            chars = args[0] if args else None
            return self.strip(interp, o, name, chars)
        if name == 'count':
            return self.count(interp, o, same_kind(args[0]))
        if name == 'split':
            return self.split(interp, o, args, kw)
        if name == 'format' and not isb:
            if isinstance(o, Sym): raise Unsupported('symbolic format string')
            import string
            out, auto = [], 0
            for lit, field, spec, conv in string.Formatter().parse(o):
                out.append(lit)
                if field is None: continue
                if field == '':
                    field = auto
                    auto += 1
                elif field.isdigit(): field = int(field)
                if isinstance(field, int):
                    if field >= len(args): raise interp.exc(IndexError, 'Replacement index')
                    v = args[field]
                elif field in kw: v = kw[field]
                else: raise Unsupported('format field %s' % field)
                out.append(self.format_value(interp, v, spec, conv))
            return concat(SStr, out)
        if name == 'replace':
            a, b = same_kind(args[0]), same_kind(args[1])
            if len(args) > 2: raise Unsupported('replace count')
            if not isinstance(a, Sym) and len(a) == 1 and not isinstance(b, Sym):
                out = []
                for p in text_parts(o):
                    if not z3.is_expr(p): out.append(p.replace(a, b))
                    else:
                        al = texts.alphabet(p)
                        ch = a if isinstance(a, str) else a.decode('latin-1')
                        if al is not None and ch not in al: out.append(p)
                        else:
                            out.append(UF('REPLACE_ALL', SS, SS, SS, SS)(p, zstr(a), zstr(b)))
                return mktext(cls, out)
            raise Unsupported('replace')
        if name == 'hex' and isb:
            from . import lib
            return lib.hexlify_text(interp, o)
        if name in ('find', 'index') and len(args) == 1:
            x = same_kind(args[0])
            r = z3.IndexOf(ztext(o), ztext(x), 0)
            if name == 'index' and ex.branch(r < 0): raise interp.exc(ValueError, 'substring not found')
            return mkint(r)
        if name in ('partition', 'rpartition') and not isinstance(args[0], Sym) and len(args[0]) == 1 and name == 'partition':
            v = self.split_view(interp, o, args[0])
            if isinstance(v, list):
                if len(v) == 1: return (o, cls.conc(), cls.conc())
                return (v[0], args[0], self.text_method(interp, args[0], 'join', [interp.new_list(v[1:])], {}))
            raise Unsupported('partition')
        if name in ('isdigit', 'isalnum', 'isalpha', 'isspace', 'isupper', 'islower', 'isascii', 'isdecimal', 'isnumeric'):
            return mkbool(UF(name.upper(), SS, BS)(ztext(o)))
        if name in ('title', 'capitalize', 'swapcase', 'casefold'):
            return mktext(cls, [UF(name.upper(), SS, SS)(ztext(o))])
        if name == 'translate' or name == 'ljust' or name == 'rjust' or name == 'zfill':
            if name in ('rjust', 'zfill', 'ljust') and isinstance(args[0], int):
                fill = '0' if name == 'zfill' else (args[1] if len(args) > 1 else ' ')
                if isb and isinstance(fill, str): fill = fill.encode()
                n = tlen(o)
                if isinstance(n, int):
                    pad = fill * max(0, args[0] - n)
                    return concat(cls, [o, pad] if name == 'ljust' else [pad, o])
                nz = n.z
                if ex.branch(nz >= args[0]): return o
                pad = self.repeat(interp, fill, mkint(args[0] - nz))
                return concat(cls, [o, pad] if name == 'ljust' else [pad, o])
            raise Unsupported(name)
        raise Unsupported('%s.%s' % (cls.conc.__name__, name))

    def case_facts(self, interp, p, q):
        nm = texts.decl_name(q)
        ex = interp.ex
        # constants of fixed case survive; idempotent
        f = texts.LOWER if nm == 'LOWER' else texts.UPPER
        ex.fact(f(q) == q)
        seen = ex.state.setdefault('casefacts', [])
        seen.append((nm, p, q))
        for c in CASE_CONSTS:
            cl = c.lower() if nm == 'LOWER' else c.upper()
            ex.fact(z3.Implies(p == zstr(c), q == zstr(cl)))
        ex.fact((z3.Length(p) == 0) == (z3.Length(q) == 0))

    def strip(self, interp, o, name, chars):
        ex = interp.ex
        cls = texts.cls_of_text(o)
        if chars is None:
            ws = ' \t\n\r\x0b\x0c'
            chars = ws if cls is SStr else ws.encode()
        if isinstance(chars, Sym): raise Unsupported('strip of symbolic characters')
        cs = set(chars if isinstance(chars, str) else chars.decode('latin-1'))
        parts = list(text_parts(o))
        for side in (('l', 'r') if name == 'strip' else (name[0],)):
            while parts:
                i = 0 if side == 'l' else -1
                p = parts[i]
                if not z3.is_expr(p):
                    q = p.lstrip(chars) if side == 'l' else p.rstrip(chars)
                    if q:
                        parts[i] = q
                        break
                    parts.pop(i)
                    continue
                al = texts.alphabet(p)
                if al is not None and not (al & cs):
                    n = texts.zlen(p)
                    if isinstance(n, int): break
                    if len(parts) == 1: break
                    if ex.branch(n == 0): parts.pop(i); continue
                    break
                key = ''.join(sorted(cs))
                nm = '%sSTRIP[%s]' % (side.upper(), key)
                f = UF(nm, SS, SS)
                r = f(p)
                if len(parts) > 1:
                    # an unknown piece that may be stripped away entirely
                    if ex.branch(z3.Length(r) == 0):
                        ex.fact(only_chars(p, cs))
                        parts.pop(i)
                        continue
                self.strip_facts(interp, p, r, cs, side)
                parts[i] = r
                break
        return mktext(cls, parts)

    def strip_facts(self, interp, p, r, cs, side):
        ex = interp.ex
        k = ex.fresh('strip', SS)
        ex.fact(p == (z3.Concat(r, k) if side == 'r' else z3.Concat(k, r)))
        ex.fact(only_chars(k, cs))
        for c in cs:
            ex.fact(z3.Not((z3.SuffixOf if side == 'r' else z3.PrefixOf)(zstr(c), r)))
        ends = [(z3.SuffixOf if side == 'r' else z3.PrefixOf)(zstr(c), p) for c in cs]
        ex.fact(z3.Or(r == p, *ends))

    def count(self, interp, o, x):
        if isinstance(x, Sym) or len(x) != 1: raise Unsupported('count')
        v = self.split_view(interp, o, x)
        if isinstance(v, View): return mkint(v.n - 1)
        return len(v) - 1

    def split(self, interp, o, args, kw):
        sep = args[0] if args else kw.get('sep')
        mx = args[1] if len(args) > 1 else kw.get('maxsplit', -1)
        if sep is None or isinstance(sep, Sym) or len(sep) != 1 or not isinstance(mx, int):
            raise Unsupported('split')
        v = self.split_view(interp, o, sep)
        if mx >= 0:
            if isinstance(v, View): raise Unsupported('split with a limit')
            if len(v) > mx + 1:
                rest = self.text_method(interp, sep, 'join', [interp.new_list(v[mx:])], {}) if True else None
                v = list(v[:mx]) + [rest]
        if isinstance(v, View):
            ex = interp.ex
            for k in (3, 1, 2, 4, 5):
                if ex.branch(v.n == k): return interp.new_list([v.val(z3.IntVal(i)) for i in range(k)])
            return v
        return interp.new_list(v)

    def without(self, interp, p, ch):
        """Does the path say that character ch is not in text p?"""
        want = UF('NPARTS_%x' % ord(ch), SS, IS)(p)
        for c in interp.ex.pc:
            if z3.is_eq(c):
                for a, b in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                    if z3.is_int_value(b) and (a.eq(want) and b.as_long() == 1 or a.eq(want - 1) and b.as_long() == 0): return True
        return False

    def split_view(self, interp, o, sep):
        """Pieces of o between separators: list if known, else a View."""
        cls = texts.cls_of_text(o)
        ch = sep if isinstance(sep, str) else sep.decode('latin-1')
        cur, out, known = [], [], True
        for p in text_parts(o):
            if not z3.is_expr(p):
                segs = p.split(sep)
                cur.append(segs[0])
                for s in segs[1:]:
                    out.append(mktext(cls, cur))
                    cur = [s]
                continue
            al = texts.alphabet(p)
            if al is not None and ch not in al or self.without(interp, p, ch):
                cur.append(p)
                continue
            known = False
            break
        if known:
            out.append(mktext(cls, cur))
            return out
        z = ztext(o)
        key = '%x' % ord(ch)
        n = UF('NPARTS_' + key, SS, IS)(z)
        PART = UF('PART_' + key, SS, IS, SS)
        ex = interp.ex
        ex.fact(n >= 1)
        memo = ex.state.setdefault('split', {})
        if (key, z.get_id()) not in memo:
            memo[(key, z.get_id())] = z
            for k in range(1, 6):
                ps = []
                for i in range(k):
                    if i: ps.append(zstr(ch))
                    ps.append(PART(z, z3.IntVal(i)))
                ex.fact(z3.Implies(n == k, z == (z3.Concat(*ps) if len(ps) > 1 else ps[0])))

        def val(i):
            t = PART(z, zint(i))
            ex.fact(z3.Implies(z3.And(zint(i) >= 0, zint(i) < n), z3.Not(z3.Contains(t, zstr(ch)))))
            return mktext(cls, [t])
        return View(('split', z.get_id(), z, ch), n, val)

    def join_view(self, interp, cls, sep, seq):
        """sep.join(view): an uninterpreted function of the view's elements."""
        g = seq.ghost.get('join')
        if g is not None: return g(interp, cls, sep)
        if seq.cond is None and interp.ex.must(seq.n <= 6):
            ex = interp.ex
            for k in range(0, 7):
                if k == 6 or ex.branch(seq.n == k):
                    out = []
                    for i in range(k):
                        if i: out.append(sep)
                        out.append(seq.val(z3.IntVal(i)))
                    return concat(cls, out)
        if not isinstance(sep, Sym) and len(sep) == 0:
            from . import octets
            r = octets.mapped(interp, cls, seq)
            if r is not None: return r
        raise Unsupported('join of a symbolic sequence')

    # ------------------------------------------------------------ built-in functions
    def call_builtin(self, interp, f, args, kw):
        for v in args:
            if isinstance(v, Havoc): raise LoopCarried(v.name)
        nm = getattr(f, '__name__', '')
        if f is getattr(builtins, nm, None):
            m = getattr(self, 'b_' + nm, None)
            if m is not None: return m(interp, *args, **kw)
        if isinstance(f, types.BuiltinMethodType) and isinstance(f.__self__, (str, bytes, list, dict, tuple, int)) \
                and not isinstance(f.__self__, type):
            return self.call_method(interp, interp.lift(f.__self__), f.__name__, args, kw)
        own = getattr(f, '__self__', None)
        if own is int and nm == 'from_bytes':
            order = args[1] if len(args) > 1 else kw.get('byteorder', 'big')
            if order == 'big' and not kw.get('signed'):
                from . import lib
                return lib.os2ip_term(interp.ex, lib.need_bytes(interp, args[0]))
        if own is not None and not isinstance(own, (type, types.ModuleType)):
            from . import lib
            if isinstance(own, lib.re.Pattern):
                if is_conc(args) and is_conc(kw): return interp.native(f, args, kw)
                if nm in ('match', 'fullmatch', 'search') and len(args) == 1 and not kw:
                    return lib.re_match(interp, own, nm, args[0])
                raise Unsupported('pattern.%s' % nm)
            r = lib.bound_method(interp, f, own, nm, args, kw)
            if r is not MISSING: return r
        if is_conc(args) and is_conc(kw) and self.builtin_native(f): return interp.native(f, args, kw)
        return MISSING

    def builtin_native(self, f):
        m = getattr(f, '__module__', None) or ''
        if m in ('builtins', 'math', '_operator', 'operator', 'binascii', '_struct', 'struct', 'itertools', '_json', 're', '_sre'): return True
        s = getattr(f, '__self__', None)
        return isinstance(s, types.ModuleType) and s.__name__ in ('builtins', 'math', 'binascii', '_struct') or \
            type(s).__module__ in ('_struct', 'struct', 're', '_sre')

    def b_len(self, interp, v):
        if isinstance(v, SText): return tlen(v)
        if isinstance(v, PList):
            vw = getattr(v, 'view', None)
            return len(v) if vw is None else self.b_len(interp, vw)
        if isinstance(v, View):
            if v.cond is not None:
                if 'count' not in v.ghost:
                    c = interp.ex.fresh('count', IS)
                    interp.ex.assume(z3.And(c >= 0, c <= v.n))
                    ne = self.nonempty(interp, v)
                    interp.ex.assume((c > 0) if ne else (c == 0))
                    v.ghost['count'] = c
                return mkint(v.ghost['count'])
            interp.ex.fact(v.n >= 0)
            return mkint(v.n)
        if isinstance(v, (list, tuple, dict, str, bytes, set, frozenset)): return len(v)
        if isinstance(v, SObj):
            g = v.methods.get('__len__') or interp.find_in_class(v.cls, '__len__')
            if g is MISSING: raise interp.exc(TypeError, 'object has no len()')
            return interp.call(g, [v], {})
        if isinstance(v, SJson):
            ex = interp.ex
            if jsonv.tag(ex, v, jsonv.STR): return tlen(jsonv.json_text(interp, v))
            if ex.branch(jsonv.TAG(v.z) >= jsonv.LIST):
                ex.fact(jsonv.JLEN(v.z) >= 0)
                return mkint(jsonv.JLEN(v.z))
            raise interp.exc(TypeError, 'object has no len()')
        if isinstance(v, SSet):
            if isinstance(v.elts, list) and len(v.elts) <= 1: return len(v.elts)
            raise Unsupported('len of a symbolic set')
        if isinstance(v, Range): return mkint(self.range_view(interp, v).n)
        if isinstance(v, Ext): return v.length(interp)
        if isinstance(v, DictKeys): return len(v.d)
        if isinstance(v, Sym) and isinstance(v, (SInt, SBool)): raise interp.exc(TypeError, 'object has no len()')
        if isinstance(v, Sym): raise Unsupported('len of %r' % (v,))
        try:
            return len(v)
        except TypeError as e:
            raise interp.exc(TypeError, *e.args)

    def b_isinstance(self, interp, v, c):
        if isinstance(v, SJson):
            cs = flat(c)
            tags = set()
            for k in cs:
                for t, g in TAGOF.items():
                    if isinstance(k, type) and issubclass(t, k): tags.add(g)
            if not tags: return False
            return mkbool(z3.Or(*[jsonv.TAG(v.z) == t for t in sorted(tags)]))
        if isinstance(v, SObj) and '__isinstance__' in v.methods:
            return interp.call(v.methods['__isinstance__'], [v, c], {})
        t = pytype(interp, v)
        return any(isinstance(k, type) and (issubclass(t, k)) for k in flat(c))

    def b_issubclass(self, interp, a, b): return issubclass(a, b)

    def b_type(self, interp, v): return pytype(interp, v)

    def b_str(self, interp, v='', enc=None, errors=None):
        if enc is not None: return self.call_method(interp, v, 'decode', [enc], {})
        if isinstance(v, SBytes): return self.opaque_str(interp, 'STRB', v)
        return self.to_str(interp, v)

    def b_repr(self, interp, v):
        if is_conc(v): return interp.native(repr, [v])
        if isinstance(v, SObj) and isinstance(interp.find_in_class(v.cls, '__repr__'), types.FunctionType):
            return interp.call(interp.find_in_class(v.cls, '__repr__'), [v], {})
        return self.opaque_str(interp, 'REPR', v)

    def b_bytes(self, interp, v=b'', enc=None, errors=None):
        if enc is not None: return self.call_method(interp, v, 'encode', [enc], {})
        if isinstance(v, (bytes, SBytes)): return v
        if isinstance(v, (str, SStr)): raise interp.exc(TypeError, 'string argument without an encoding')
        if isinstance(v, int): return bytes(v)
        if isinstance(v, SInt): return self.repeat(interp, b'\0', v)
        if v is None or isinstance(v, (float, SBool)): raise interp.exc(TypeError, 'cannot convert to bytes')
        if isinstance(v, SJson):
            r = resolve_json(interp, v)
            if not isinstance(r, SJson): return self.b_bytes(interp, r)
        s = self.iterate(interp, v)
        from . import lib
        if isinstance(s, View):
            from . import octets
            o = octets.octets_of(interp, v if isinstance(v, Ext) else s)
            if o is None: raise Unsupported('bytes of a symbolic list')
            return o
        return concat(SBytes, [lib.byte_of(interp, x) for x in s])

    b_bytearray = b_bytes

    def b_int(self, interp, v=0, base=None):
        if base is None:
            if isinstance(v, SInt): return v
            if isinstance(v, SBool): return mkint(zint(v))
            if isinstance(v, SFrac):
                if interp.ex.must(zint(v.num) >= 0): return mkint(zint(v.num) / v.den)
                raise Unsupported('int of a negative fraction')
            if isinstance(v, SJson):
                r = resolve_json(interp, v)
                if not isinstance(r, SJson): return self.b_int(interp, r)
                raise Unsupported('int of a JSON value')
        if is_conc((v, base)):
            return interp.native(int, [v] if base is None else [v, base])
        from . import lib
        if is_text(v) and base == 16: return lib.int_of_hex(interp, v)
        if is_text(v) and base is None:
            if not interp.ex.branch(UF('ISINT', SS, BS)(ztext(v))): raise interp.exc(ValueError, 'invalid literal')
            return mkint(UF('INTOF', SS, IS)(ztext(v)))
        if isinstance(v, (SObj, PDict, PList)) or v is None: raise interp.exc(TypeError, 'int() argument')
        raise Unsupported('int(%r)' % (v,))

    def b_float(self, interp, v=0.0):
        if isinstance(v, SInt): return SFrac(v, 1)
        if is_conc(v): return interp.native(float, [v])
        raise Unsupported('float')

    def b_bool(self, interp, v=False):
        t = self.truth_term(interp, v)
        return t if isinstance(t, bool) else mkbool(t)

    def b_list(self, interp, v=()):
        s = self.iterate(interp, v)
        if isinstance(s, View):
            l = interp.new_list()
            l.view = s
            return l
        return interp.new_list(s)

    def b_tuple(self, interp, v=()):
        s = self.iterate(interp, v)
        if isinstance(s, View):
            return View(s.src, s.n, s.val, s.cond, tuplelike=True, ghost=s.ghost)
        return tuple(s)

    def b_dict(self, interp, *a, **kw):
        d = interp.new_dict()
        if a:
            if isinstance(a[0], SJson): return a[0]
            self.dict_update(interp, d, a[0])
        for k, v in kw.items(): d[k] = v
        return d

    def b_set(self, interp, v=()):
        s = self.iterate(interp, v)
        if isinstance(s, View): return SSet(s)
        return self.make_set(interp, s)

    def b_frozenset(self, interp, v=()): return self.b_set(interp, v)

    def b_range(self, interp, *a):
        if is_conc(a): return interp.native(range, a)
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        if not all(is_intlike(x) for x in (lo, hi, st)): raise interp.exc(TypeError, 'range arguments')
        if isinstance(st, Sym): raise Unsupported('range step')
        # a small bounded range is a case split
        return Range(lo, hi, st)

    def b_zip(self, interp, *seqs, **kw):
        ss = [self.iterate(interp, s) for s in seqs]
        if any(isinstance(s, View) for s in ss):
            ss = [self.text_view(interp, o) if isinstance(o, (SText, bytes, str)) else s for o, s in zip(seqs, ss)]
            if any(isinstance(s, View) and s.cond is not None for s in ss): raise Unsupported('zip of a filtered sequence')
            ns = [s.n if isinstance(s, View) else z3.IntVal(len(s)) for s in ss]
            n = ns[0]
            for m in ns[1:]:
                if not texts.same(n, m):
                    if interp.ex.must(m == n): continue
                    n = z3.If(m < n, m, n)
            n = z3.simplify(n)
            ts = [o for o in seqs if isinstance(o, (SText, bytes, str))]
            if len(ts) == len(seqs) == 2 and cls_of_text(ts[0]) is cls_of_text(ts[1]): ex2 = (ts[0], ts[1])
            else: ex2 = None
            vs = [(lambda s: (lambda i: s.val(i)) if isinstance(s, View) else (lambda i: self.getitem(interp, s, mkint(zint(i)))))(s) for s in ss]
            src = ss[0].src if all(isinstance(s, View) and s.src == getattr(ss[0], 'src', None) and texts.same(s.n, n) for s in ss) else None
            return View(src or ('zip', n.get_id(), n) + tuple(getattr(s, 'src', id(s)) for s in ss), n,
                        lambda i: tuple(g(i) for g in vs), ghost=dict(zip=ss, texts=ex2))
        return interp.new_list(tuple(x) for x in zip(*ss))

    def b_enumerate(self, interp, seq, start=0):
        s = self.iterate(interp, seq)
        if isinstance(s, View):
            if s.cond is not None: raise Unsupported('enumerate of a filtered sequence')
            return View(s.src, s.n, lambda i: (mkint(zint(i) + zint(start)), s.val(i)))
        return interp.new_list((start + i, x) for i, x in enumerate(s))

    def b_reversed(self, interp, seq):
        s = self.iterate(interp, seq)
        if isinstance(s, View):
            if s.cond is not None: raise Unsupported('reversed of a filtered sequence')
            return View(('rev', s.src), s.n, lambda i: s.val(z3.simplify(s.n - 1 - zint(i))))
        return interp.new_list(reversed(list(s)))

    def b_map(self, interp, f, *seqs):
        ss = [self.iterate(interp, s) for s in seqs]
        if any(isinstance(s, View) for s in ss):
            if len(ss) != 1: raise Unsupported('map of symbolic sequences')
            s = ss[0]
            return View(s.src, s.n, lambda i: interp.call(f, [s.val(i)], {}), s.cond)
        return interp.new_list(interp.call(f, list(x), {}) for x in zip(*ss))

    def b_filter(self, interp, f, seq):
        s = self.iterate(interp, seq)
        if isinstance(s, View): raise Unsupported('filter of a symbolic sequence')
        return interp.new_list(x for x in s if interp.truth(interp.call(f, [x], {}) if f is not None else x))

    def b_sum(self, interp, seq, start=0):
        s = self.iterate(interp, seq)
        if isinstance(s, View): raise Unsupported('sum of a symbolic sequence')
        for x in s: start = interp.binop('Add', start, x)
        return start

    def b_any(self, interp, seq):
        s = self.iterate(interp, seq)
        if isinstance(s, View): raise Unsupported('any of a symbolic sequence')
        return any(interp.truth(x) for x in s)

    def b_all(self, interp, seq):
        s = self.iterate(interp, seq)
        if isinstance(s, View): raise Unsupported('all of a symbolic sequence')
        return all(interp.truth(x) for x in s)

    def product(self, interp, x, y):
        """x*y; where the contract says so, an uninterpreted function that only
        the polynomial back end reads as multiplication."""
        if not interp.opaque_products or z3.is_int_value(x) or z3.is_int_value(y): return x * y
        if x.get_id() > y.get_id(): x, y = y, x
        t = UF('PROD', IS, IS, IS)(x, y)
        ex = interp.ex
        ex.fact(z3.Implies(z3.And(x >= 0, y >= 0), t >= 0))
        return t

    def minmax(self, interp, which, args, kw):
        xs = args if len(args) > 1 else interp.concrete_iter(args[0])
        if kw: raise Unsupported('min/max key')
        if is_conc(xs): return interp.native(min if which == 'min' else max, [list(xs)])
        r = xs[0]
        for x in xs[1:]:
            if not (is_intlike(r) and is_intlike(x)): raise Unsupported('min/max')
            c = zint(x) < zint(r) if which == 'min' else zint(x) > zint(r)
            r = mkint(z3.If(c, zint(x), zint(r)))
        return r

    def b_min(self, interp, *a, **kw): return self.minmax(interp, 'min', a, kw)

    def b_max(self, interp, *a, **kw): return self.minmax(interp, 'max', a, kw)

    def b_sorted(self, interp, v, **kw):
        s = self.iterate(interp, v)
        if isinstance(s, View): raise Unsupported('sorted')
        if is_conc(list(s)) and not kw: return interp.native(sorted, [list(s)])
        ks = [x[0] if isinstance(x, tuple) and x else x for x in s]
        if is_conc(ks) and not kw and len(set(map(repr, ks))) == len(ks) and all(isinstance(x, tuple) for x in s):
            return interp.new_list(sorted(s, key=lambda x: x[0]))
        raise Unsupported('sorted of symbolic values')

    def b_abs(self, interp, v):
        if isinstance(v, Sym): return mkint(z3.If(zint(v) < 0, -zint(v), zint(v)))
        return interp.native(abs, [v])

    def b_divmod(self, interp, a, b):
        if is_conc((a, b)): return interp.native(divmod, [a, b])
        return (interp.binop('FloorDiv', a, b), interp.binop('Mod', a, b))

    def b_pow(self, interp, a, b, m=None):
        if is_conc((a, b, m)): return interp.native(pow, [a, b] if m is None else [a, b, m])
        if m is None: return interp.binop('Pow', a, b)
        if b == -1:
            from . import curve
            r = curve.inverse(interp, a, m)
            if r is not MISSING: return r
        raise Unsupported('modular power')

    def b_ord(self, interp, c):
        if isinstance(c, SText):
            if not interp.ex.branch(texts.tlen_z(c) == 1): raise interp.exc(TypeError, 'ord() expected a character')
            return mkint(z3.StrToCode(c.z))
        if isinstance(c, Sym) or not isinstance(c, (str, bytes)): raise interp.exc(TypeError, 'ord() expected string of length 1')
        return interp.native(ord, [c])

    def b_chr(self, interp, c):
        if isinstance(c, SInt): return mktext(SStr, [z3.StrFromCode(c.z)])
        return interp.native(chr, [c])

    def b_hex(self, interp, v):
        if isinstance(v, SInt):
            from . import lib
            return lib.hex_of(interp, v)
        return interp.native(hex, [v])

    def b_hash(self, interp, v):
        if isinstance(v, SObj):
            f = interp.find_in_class(v.cls, '__hash__')
            if isinstance(f, types.FunctionType): return interp.call(f, [v], {})
        if isinstance(v, Sym): raise Unsupported('hash')
        return interp.native(hash, [v])

    def b_id(self, interp, v): raise Unsupported('id')

    def b_getattr(self, interp, o, name, *d):
        if isinstance(name, Sym): raise Unsupported('getattr of a symbolic name')
        return interp.getattr(o, name, *d)

    def b_hasattr(self, interp, o, name):
        try:
            interp.getattr(o, name)
            return True
        except PyExc as e:
            if issubclass(e.value.cls, AttributeError): return False
            raise

    def b_setattr(self, interp, o, name, v):
        if isinstance(name, Sym): raise Unsupported('setattr of a symbolic name')
        interp.setattr(o, name, v)

    def b_delattr(self, interp, o, name): raise Unsupported('delattr')

    def b_iter(self, interp, v):
        s = self.iterate(interp, v)
        return s if isinstance(s, View) else Iter(list(s))

    def b_next(self, interp, it, *d):
        if isinstance(it, Iter):
            if it.pos < len(it.xs):
                it.pos += 1
                return it.xs[it.pos - 1]
            if d: return d[0]
            raise interp.exc(StopIteration)
        if isinstance(it, View):
            if not interp.truth(it):
                if d: return d[0]
                raise interp.exc(StopIteration)
            j = it.ghost['first'] if it.cond is not None else z3.IntVal(0)
            self.use_index(interp, it, j)
            return it.val(j)
        if isinstance(it, PList):
            if getattr(it, 'view', None) is not None: return self.b_next(interp, it.view, *d)
            if len(it): return it[0]       # a generator that has just been made
            if d: return d[0]
            raise interp.exc(StopIteration)
        raise Unsupported('next')

    def b_callable(self, interp, v):
        return isinstance(v, (BoundM, Method, Closure)) or callable(v)

    def b_print(self, interp, *a, **kw): return None

    def b_round(self, interp, *a): raise Unsupported('round')

    def b_super(self, interp, cls, obj): return Super(cls, obj)

    def b_object(self, interp): return SObj(object)

    def b_format(self, interp, v, spec=''): return self.format_value(interp, v, spec, None)


class Iter(Sym):
    __slots__ = ('xs', 'pos')

    def __init__(self, xs): self.xs, self.pos = xs, 0


class DictKeys(Ext):
    def __init__(self, d): self.d = d
    pyclass = type({}.keys())

    def iterate(self, interp): return list(self.d.keys())

    def length(self, interp): return len(self.d)

    def contains(self, interp, x): return interp.models.contains(interp, self.d, x)

    def truth(self, interp): return bool(self.d)

    def get(self, interp, name): raise Unsupported('dict_keys.%s' % name)


class JsonKeys(Ext):
    def __init__(self, j): self.j = j

    def iterate(self, interp): return interp.models.iterate(interp, self.j)

    def contains(self, interp, x): return interp.models.contains(interp, self.j, x)

    def length(self, interp): return interp.models.b_len(interp, self.j)

    def truth(self, interp): return interp.models.truth_term(interp, self.j)


CASE_CONSTS = {'none', 'None', 'NONE', 'nOnE', 'jwt', 'JWT', 'jwe', 'JWE', 'rsa', 'RSA', 'ec', 'EC', 'oct', 'OCT', ''}


def mktext_raw(v):
    """A constant as a symbolic text."""
    return (SBytes if isinstance(v, bytes) else SStr)([zstr(v)])


def truth_z(v): return v.z if isinstance(v, SBool) else v


def conj(cs):
    out = []
    for c in cs:
        if c is True: continue
        if c is False: return False
        out.append(c.z if isinstance(c, SBool) else c)
    if not out: return True
    return z3.And(*out) if len(out) > 1 else out[0]


def disj(cs):
    out = []
    for c in cs:
        if c is False: continue
        if c is True: return True
        out.append(c.z if isinstance(c, SBool) else c)
    if not out: return False
    return z3.Or(*out) if len(out) > 1 else out[0]


def flat(c):
    if isinstance(c, tuple): return [y for x in c for y in flat(x)]
    return [c]


def only_chars(z, cs):
    return z3.InRe(z, z3.Star(z3.Union(*[z3.Re(zstr(c)) for c in sorted(cs)]) if len(cs) > 1 else z3.Re(zstr(list(cs)[0]))))


KEEP = []


def octets_eq(x, y):
    """Equality of integers read from octet strings of one known length: that of the strings."""
    if texts.decl_name(x) != 'OS2IP': x, y = y, x
    if texts.decl_name(x) != 'OS2IP': return None
    v = mktext(SBytes, [x.arg(0)])
    n = tlen(v)
    if not isinstance(n, int): return None
    if z3.is_int_value(y):
        c = y.as_long()
        if c < 0 or c >= 256 ** n: return False
        return texts.eq_term(v, c.to_bytes(n, 'big'))
    if texts.decl_name(y) == 'OS2IP':
        w = mktext(SBytes, [y.arg(0)])
        if tlen(w) == n: return texts.eq_term(v, w)
    return None


def xor_terms(x):
    if z3.is_app(x) and x.decl().eq(XOR): return xor_terms(x.arg(0)) + xor_terms(x.arg(1))
    return [x]


def multiple_pow2(p):
    """2^k if the term is a visible multiple of it (k >= 1)."""
    if z3.is_int_value(p):
        v = p.as_long()
        return v & -v if v > 0 else 0
    if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_MUL:
        r = 1
        for c in p.children():
            if z3.is_int_value(c) and c.as_long() > 0: r *= c.as_long() & -c.as_long()
        return r if r > 1 else 0
    if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_ADD:
        ks = [multiple_pow2(c) for c in p.children()]
        return min(ks) if all(ks) else 0
    return 0
