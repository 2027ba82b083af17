"""Symbolic interpreter for Python function bodies."""
import ast
import builtins
import sys
import types
import z3
from . import source
from .core import *
from .values import *

sys.setrecursionlimit(20000)
MISSING = object()


class Signal(object):
    pass


BREAK, CONTINUE = Signal(), Signal()


class Ret(object):
    def __init__(self, v): self.v = v


class Env(object):
    __slots__ = ('vars', 'parent', 'fi', 'globals', 'func', 'yields')

    def __init__(self, fi, globals_, parent=None, func=None):
        self.vars, self.parent, self.fi, self.globals, self.func = {}, parent, fi, globals_, func
        self.yields = None


class Closure(Sym):
    """A function made by interpreted code."""
    __slots__ = ('fi', 'env', 'globals', 'defaults', 'kwdefaults', 'cls', 'stamp')

    def __init__(self, fi, env, globals_, defaults, kwdefaults):
        self.fi, self.env, self.globals, self.defaults, self.kwdefaults = fi, env, globals_, defaults, kwdefaults


class BoundM(Sym):
    __slots__ = ('func', 'self_')

    def __init__(self, func, self_): self.func, self.self_ = func, self_


class Method(Sym):
    """A method of a built-in or modelled value: dispatched to models."""
    __slots__ = ('self_', 'name')

    def __init__(self, self_, name): self.self_, self.name = self_, name

    def __repr__(self): return '<method %s of %r>' % (self.name, self.self_)


class Super(Sym):
    __slots__ = ('cls', 'obj')

    def __init__(self, cls, obj): self.cls, self.obj = cls, obj


class Ext(Sym):
    """A modelled library object; subclasses define get(interp, name)."""
    def get(self, interp, name): raise Unsupported('attribute %s of %s' % (name, type(self).__name__))

    def set(self, interp, name, v): raise Unsupported('set %s of %s' % (name, type(self).__name__))


class Cell(object):
    """A z3 function of one argument as a callable model."""


def is_conc(v, depth=6):
    if isinstance(v, Sym): return False
    if isinstance(v, (list, tuple, set, frozenset)):
        return all(is_conc(x, depth - 1) for x in v) if depth else False
    if isinstance(v, dict):
        return all(is_conc(x, depth - 1) for x in v.values()) and all(is_conc(x, depth - 1) for x in v)
    return True


def unlift(v):
    """Plain Python value for a concrete interpreter value."""
    if isinstance(v, PList): return [unlift(x) for x in v]
    if isinstance(v, PDict): return {k: unlift(x) for k, x in v.items()}
    if isinstance(v, tuple) and type(v) is tuple: return tuple(unlift(x) for x in v)
    return v


class LeavesLoop(Exception):
    """The iteration being summarised ends the loop (pv/loops.py)."""


class Interp(object):
    def __init__(self, ex, models, contracts=None, templates=()):
        self.ex = ex
        self.models = models
        self.contracts = contracts or {}
        self.active = []            # functions whose contract is being verified (not to be replaced)
        self.templates = list(templates)
        self.barrier = 0
        self.any_iteration = False      # running one arbitrary iteration of a loop that has an invariant
        self.opaque_products = False
        self.nest = 1
        self.leaving = frozenset()
        self.effects = None
        self.undo = []
        self.depth = 0
        self.spec_mode = 0
        self.notes = set()
        self.inlined = set()
        self.used_contracts = set()
        self.loops = []
        self.modelled = set()
        self.binop_hooks = []
        self.cmp_hooks = []

    # ------------------------------------------------------------------ util
    def exc(self, cls, *args):
        return PyExc(SObj(cls, {'args': tuple(args)}))

    def some_exc(self):
        """An exception of any class: every narrower handler may catch it or not."""
        return PyExc(SObj(Exception, {'args': (), '?': True}))

    def new_list(self, xs=()):
        r = PList(xs)
        r.stamp = self.nest
        return r

    def new_dict(self, items=()):
        r = PDict(items)
        r.stamp = self.nest
        return r

    def lift(self, v):
        """Values of the imported program, copied per path where mutable."""
        t = type(v)
        if isinstance(v, (PList, PDict, Sym)): return v
        if v is None or t in (bool, int, str, bytes, float): return v
        if t is tuple: return tuple(self.lift(x) for x in v)
        memo = self.ex.state.setdefault('lift', {})
        if t in (list, dict) or self.is_repo_instance(v):
            k = id(v)
            r = memo.get(k)
            if r is not None: return r[1]
            if t is list:
                r = PList()
                memo[k] = (v, r)
                r.extend(self.lift(x) for x in v)
            elif t is dict:
                r = PDict()
                memo[k] = (v, r)
                for a, b in v.items(): r[a] = self.lift(b)
            else:
                r = SObj(type(v))
                memo[k] = (v, r)
                for a, b in v.__dict__.items(): r.attrs[a] = self.lift(b)
            return r
        return v

    def is_repo_instance(self, v):
        c = type(v)
        return not isinstance(v, type) and self.is_repo_class(c)

    def is_repo_class(self, c):
        m = sys.modules.get(getattr(c, '__module__', None))
        fn = getattr(m, '__file__', None)
        if not fn: return False
        import os
        fn = os.path.realpath(fn)
        return any(fn.startswith(r + os.sep) for r in source.ROOTS)

    def native(self, f, args, kw=None):
        try:
            r = f(*[unlift(a) for a in args], **{k: unlift(v) for k, v in (kw or {}).items()})
        except (PyExc, Unsupported, PathDead):
            raise
        except RecursionError:
            raise Unsupported('recursion in native call')
        except Exception as e:
            raise PyExc(SObj(type(e), {'args': tuple(e.args)}))
        return self.lift(r)

    def branch(self, v):
        return self.ex.branch(v.z if isinstance(v, SBool) else v)

    # ------------------------------------------------------------ statements
    def block(self, stmts, env):
        if self.leaving and id(stmts) in self.leaving: raise LeavesLoop()
        for st in stmts:
            r = self.stmt(st, env)
            if r is not None: return r
        return None

    def stmt(self, st, env):
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None: raise Unsupported('statement %s' % type(st).__name__)
        return m(st, env)

    def s_Expr(self, st, env):
        v = st.value
        if isinstance(v, ast.Constant): return None
        if isinstance(v, ast.Yield):
            self.do_yield(self.ev(v.value, env) if v.value else None, env)
            return None
        if isinstance(v, ast.YieldFrom):
            src = self.ev(v.value, env)
            for x in self.concrete_iter(src): self.do_yield(x, env)
            return None
        self.ev(v, env)

    def do_yield(self, v, env):
        e = env
        while e is not None and e.yields is None: e = e.parent
        if e is None: raise Unsupported('yield')
        self.models.list_append(self, e.yields, v)

    def s_Pass(self, st, env): return None

    def s_Return(self, st, env):
        return Ret(self.ev(st.value, env) if st.value is not None else None)

    def s_Break(self, st, env): return BREAK

    def s_Continue(self, st, env): return CONTINUE

    def s_Assign(self, st, env):
        v = self.ev(st.value, env)
        for t in st.targets: self.assign(t, v, env)

    def s_AnnAssign(self, st, env):
        if st.value is not None: self.assign(st.target, self.ev(st.value, env), env)

    def s_AugAssign(self, st, env):
        t = st.target
        op = type(st.op).__name__
        if isinstance(t, ast.Name):
            old = self.load(t.id, env)
            self.assign(t, self.iop(op, old, self.ev(st.value, env)), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            nm = self.mangle(t.attr, env)
            self.setattr(o, nm, self.iop(op, self.getattr(o, nm), self.ev(st.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev_index(t.slice, env)
            self.models.setitem(self, o, k, self.iop(op, self.models.getitem(self, o, k), self.ev(st.value, env)))
        else:
            raise Unsupported('augmented assignment target')

    def iop(self, op, a, b):
        if op == 'Add' and isinstance(a, PList):
            self.models.list_extend(self, a, b)
            return a
        return self.binop(op, a, b)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), self.mangle(t.attr, env), v)
        elif isinstance(t, ast.Subscript):
            self.models.setitem(self, self.ev(t.value, env), self.ev_index(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, env)
        else:
            raise Unsupported('assignment target %s' % type(t).__name__)

    def unpack(self, elts, v, env):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if star:
            xs = self.concrete_iter(v)
            i = star[0]
            after = len(elts) - i - 1
            if len(xs) < len(elts) - 1: raise self.exc(ValueError, 'not enough values to unpack')
            for e, x in zip(elts[:i], xs[:i]): self.assign(e, x, env)
            self.assign(elts[i].value, self.new_list(xs[i:len(xs) - after]), env)
            for e, x in zip(elts[i + 1:], xs[len(xs) - after:]): self.assign(e, x, env)
            return
        xs = self.models.unpack_n(self, v, len(elts))
        if len(xs) != len(elts): raise self.exc(ValueError, 'values to unpack')
        for e, x in zip(elts, xs): self.assign(e, x, env)

    def store(self, name, v, env):
        e = env
        if e.fi is not None and name in e.fi.globals_decl:
            raise Unsupported('assignment to a global')
        if e.fi is not None and name in e.fi.nonlocals:
            e = e.parent
            while e is not None and name not in e.vars: e = e.parent
            if e is None: raise Unsupported('nonlocal %s' % name)
        e.vars[name] = v

    def s_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                if t.id in env.vars: del env.vars[t.id]
                else: raise self.exc(NameError, t.id)
            elif isinstance(t, ast.Subscript):
                self.models.delitem(self, self.ev(t.value, env), self.ev_index(t.slice, env))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                if isinstance(o, SObj) and t.attr in o.attrs:
                    self.touch(o, t.attr)
                    del o.attrs[t.attr]
                else: raise Unsupported('del attribute')
            else: raise Unsupported('del')

    def s_If(self, st, env):
        c = self.ev(st.test, env)
        merged = self.models.try_merge_if(self, st, c, env)
        if merged: return None
        if self.truth(c): return self.block(st.body, env)
        return self.block(st.orelse, env)

    def s_Assert(self, st, env):
        if not self.truth(self.ev(st.test, env)):
            raise self.exc(AssertionError)

    def s_Raise(self, st, env):
        if st.exc is None:
            cur = self.ex.state.get('handling')
            if not cur: raise self.exc(RuntimeError, 'No active exception to reraise')
            raise PyExc(cur[-1])
        v = self.ev(st.exc, env)
        if isinstance(v, type) and issubclass(v, BaseException): v = self.call(v, [], {})
        if isinstance(v, SObj) and issubclass(v.cls, BaseException): raise PyExc(v)
        if isinstance(v, BaseException): raise PyExc(SObj(type(v), {'args': v.args}))
        raise self.exc(TypeError, 'exceptions must derive from BaseException')

    def exc_matches(self, val, spec):
        if isinstance(spec, tuple): return any(self.exc_matches(val, s) for s in spec)
        if isinstance(spec, type):
            if val.attrs.get('?') and issubclass(spec, Exception) and spec is not Exception: return self.ex.choose(2, 'handler') == 0
            return issubclass(val.cls, spec)
        raise Unsupported('except clause')

    def s_Try(self, st, env):
        pend = None
        try:
            try:
                r = self.block(st.body, env)
            except PyExc as e:
                for h in st.handlers:
                    if h.type is None or self.exc_matches(e.value, self.ev(h.type, env)):
                        if h.name: env.vars[h.name] = e.value
                        stack = self.ex.state.setdefault('handling', [])
                        stack.append(e.value)
                        try:
                            r = self.block(h.body, env)
                        finally:
                            stack.pop()
                            if h.name: env.vars.pop(h.name, None)
                        break
                else:
                    raise
            else:
                if r is None and st.orelse: r = self.block(st.orelse, env)
        except PyExc as e:
            pend = e
            r = None
        if st.finalbody:
            f = self.block(st.finalbody, env)
            if f is not None: return f
        if pend: raise pend
        return r

    def s_With(self, st, env):
        vals = []
        for it in st.items:
            c = self.ev(it.context_expr, env)
            v = self.call(self.getattr(c, '__enter__'), [], {})
            if it.optional_vars is not None: self.assign(it.optional_vars, v, env)
            vals.append(c)
        r = self.block(st.body, env)
        for c in reversed(vals): self.call(self.getattr(c, '__exit__'), [None, None, None], {})
        return r

    def s_FunctionDef(self, st, env):
        fi = source.FuncInfo()
        fi.node, fi.cls, fi.filename = st, env.fi.cls if env.fi else None, env.fi.filename if env.fi else ''
        fi.qualname = (env.fi.qualname if env.fi else '') + '.<locals>.' + st.name
        source.analyse(fi)
        f = self.make_closure(fi, st.args, env)
        for d in reversed(st.decorator_list): f = self.call(self.ev(d, env), [f], {})
        self.store(st.name, f, env)

    def make_closure(self, fi, args, env):
        d = tuple(self.ev(x, env) for x in args.defaults)
        kd = {a.arg: self.ev(x, env) for a, x in zip(args.kwonlyargs, args.kw_defaults) if x is not None}
        return Closure(fi, env, env.globals, d, kd)

    def s_Import(self, st, env):
        import importlib
        for a in st.names:
            m = importlib.import_module(a.name)
            self.store((a.asname or a.name).split('.')[0], m if a.asname else sys.modules[a.name.split('.')[0]], env)

    def s_ImportFrom(self, st, env):
        import importlib
        try:
            m = importlib.import_module('.' * st.level + (st.module or ''), env.globals.get('__package__'))
        except ImportError as e:
            raise self.exc(ImportError, *e.args)
        for a in st.names:
            try:
                v = getattr(m, a.name)
            except AttributeError:
                raise self.exc(ImportError, a.name)
            self.store(a.asname or a.name, self.lift(v), env)

    def s_Global(self, st, env): return None
    s_Nonlocal = s_Global

    def s_While(self, st, env):
        from . import invariants
        if invariants.wanted(self, st, env): return self.sym_while(st, env)
        fuel = 0
        while True:
            c = self.ev(st.test, env)
            d = self.decide_now(c)
            if d is None:
                if fuel and fuel < 3: pass
                return self.sym_while(st, env)
            if not d:
                return self.block(st.orelse, env) if st.orelse else None
            r = self.block(st.body, env)
            if r is BREAK: return None
            if isinstance(r, Ret): return r
            fuel += 1
            if fuel > 3000: raise Unsupported('loop does not end within 3000 iterations')

    def decide_now(self, c):
        """True/False if the condition is determined, None if symbolic."""
        t = self.models.truth_term(self, c)
        if t is True or t is False: return t
        z = z3.simplify(t)
        if z3.is_true(z): return True
        if z3.is_false(z): return False
        from . import solver
        if not self.ex.feasible(t): return False
        if not self.ex.feasible(z3.Not(t)): return True
        return None

    def sym_while(self, st, env):
        from . import loops
        return loops.sym_while(self, st, env)

    def s_For(self, st, env):
        it = self.ev(st.iter, env)
        seq = self.models.iterate(self, it)
        if isinstance(seq, View):
            from . import loops
            return loops.sym_for(self, st, seq, env)
        if isinstance(it, range) and len(it) >= 16 and it.step == 1:
            from . import loops
            if loops.long_range(self, st, it, env): return self.block(st.orelse, env) if st.orelse else None
        for x in list(seq):
            self.assign(st.target, x, env)
            r = self.block(st.body, env)
            if r is BREAK: return None
            if isinstance(r, Ret): return r
        return self.block(st.orelse, env) if st.orelse else None

    # ----------------------------------------------------------- expressions
    def ev(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None: raise Unsupported('expression %s' % type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env): return e.value

    def load(self, name, env):
        e = env
        while e is not None:
            if name in e.vars: return e.vars[name]
            if e.fi is not None and name in e.fi.locals_ and e is env:
                raise self.exc(UnboundLocalError, name)
            e = e.parent
        g = env.globals
        if name in g: return self.lift(g[name])
        b = getattr(builtins, name, MISSING)
        if b is not MISSING: return b
        raise self.exc(NameError, "name '%s' is not defined" % name)

    def e_Name(self, e, env): return self.load(e.id, env)

    def mangle(self, name, env):
        if name.startswith('__') and not name.endswith('__'):
            f = env
            while f is not None and f.fi is None: f = f.parent
            cls = f.fi.cls if f is not None else None
            if cls: return '_%s%s' % (cls.lstrip('_'), name)
        return name

    def e_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), self.mangle(e.attr, env))

    def e_Subscript(self, e, env):
        return self.models.getitem(self, self.ev(e.value, env), self.ev_index(e.slice, env))

    def ev_index(self, s, env):
        if isinstance(s, ast.Slice):
            f = lambda x: self.ev(x, env) if x is not None else None
            return slice(f(s.lower), f(s.upper), f(s.step))
        return self.ev(s, env)

    def e_Tuple(self, e, env): return tuple(self.ev_elts(e.elts, env))

    def e_List(self, e, env): return self.new_list(self.ev_elts(e.elts, env))

    def e_Set(self, e, env): return self.models.make_set(self, self.ev_elts(e.elts, env))

    def ev_elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred): out.extend(self.concrete_iter(self.ev(x.value, env)))
            else: out.append(self.ev(x, env))
        return out

    def e_Dict(self, e, env):
        d = self.new_dict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.models.dict_update(self, d, self.ev(v, env))
            else:
                kk = self.ev(k, env)
                self.models.setitem(self, d, kk, self.ev(v, env))
        return d

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, env)
            if i == len(e.values) - 1: return v
            # keep pure boolean combinations as formulas when both sides are SBool
            t = self.truth(v)
            if isand and not t: return v if not isinstance(v, SBool) else False
            if not isand and t: return v if not isinstance(v, SBool) else True
        return v

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        op = type(e.op).__name__
        if op == 'Not':
            t = self.models.truth_term(self, v)
            if t is True or t is False: return not t
            return mkbool(z3.Not(t))
        return self.models.unop(self, op, v)

    def e_BinOp(self, e, env):
        a = self.ev(e.left, env)
        b = self.ev(e.right, env)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b): return self.models.binop(self, op, a, b)

    def e_Compare(self, e, env):
        left = self.ev(e.left, env)
        res = None
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, env)
            res = self.models.compare(self, type(op).__name__, left, right)
            if i == len(e.ops) - 1: return res
            if not self.truth(res): return False
            left = right
        return res

    def e_IfExp(self, e, env):
        c = self.ev(e.test, env)
        r = self.models.try_merge_ifexp(self, e, c, env)
        if r is not None: return r[0]
        if self.truth(c): return self.ev(e.body, env)
        return self.ev(e.orelse, env)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        x = env
        while x.fi is None and x.parent is not None: x = x.parent
        self.store(e.target.id, v, x)
        return v

    def e_Lambda(self, e, env):
        fi = source.FuncInfo()
        fi.node, fi.cls, fi.filename = e, env.fi.cls if env.fi else None, env.fi.filename if env.fi else ''
        fi.qualname = (env.fi.qualname if env.fi else '') + '.<locals>.<lambda>'
        source.analyse(fi)
        return self.make_closure(fi, e.args, env)

    def e_JoinedStr(self, e, env):
        out = []
        for p in e.values:
            if isinstance(p, ast.Constant): out.append(p.value)
            else:
                v = self.ev(p.value, env)
                spec = self.ev(p.format_spec, env) if p.format_spec is not None else ''
                out.append(self.models.format_value(self, v, spec, {115: 's', 114: 'r', 97: 'a'}.get(p.conversion)))
        return self.models.concat_texts(self, SStr, out)

    def e_ListComp(self, e, env):
        return self.comp(e, env, 'list')

    def e_GeneratorExp(self, e, env):
        return self.comp(e, env, 'gen')

    def e_SetComp(self, e, env):
        return self.models.make_set(self, self.concrete_iter(self.comp(e, env, 'list')))

    def e_DictComp(self, e, env):
        pairs = self.comp(e, env, 'dict')
        d = self.new_dict()
        for k, v in self.concrete_iter(pairs): self.models.setitem(self, d, k, v)
        return d

    def comp(self, e, env, kind):
        sub = Env(None, env.globals, env)
        out = self.new_list()
        elt = (lambda: (self.ev(e.key, sub), self.ev(e.value, sub))) if kind == 'dict' else \
            (lambda: self.ev(e.elt, sub))
        r = self.comp_level(e.generators, 0, sub, elt, out)
        return r if r is not None else out

    def comp_level(self, gens, i, sub, elt, out):
        if i == len(gens):
            self.models.list_append(self, out, elt())
            return None
        g = gens[i]
        seq = self.models.iterate(self, self.ev(g.iter, sub if i else sub.parent if False else sub))
        if isinstance(seq, View):
            from . import loops
            return loops.sym_comp(self, gens, i, seq, sub, elt, out)
        for x in list(seq):
            self.assign(g.target, x, sub)
            if all(self.truth(self.ev(c, sub)) for c in g.ifs):
                self.comp_level(gens, i + 1, sub, elt, out)
        return None

    def e_Starred(self, e, env): raise Unsupported('starred')

    def e_Call(self, e, env):
        f = e.func
        if isinstance(f, ast.Name) and f.id == 'super' and not e.args and 'super' not in env.globals:
            x = env
            while x.fi is None or (x.fi.cls is None): x = x.parent
            while x.parent is not None and x.func is None: x = x.parent
            first = x.fi.node.args.args[0].arg
            obj = x.vars[first]
            cls = x.globals.get(x.fi.cls)
            return Super(cls, obj)
        if isinstance(f, ast.Name) and f.id in ('locals', 'globals', 'eval', 'exec', 'vars', 'dir'):
            raise Unsupported('%s()' % f.id)
        if isinstance(f, ast.Name) and f.id in ('any', 'all') and len(e.args) == 1 and \
                isinstance(e.args[0], ast.GeneratorExp) and f.id not in env.globals:
            r = self.quant(f.id, e.args[0], env)
            if r is not MISSING: return r
        fn = self.ev(f, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                sv = self.models.iterate(self, self.ev(a.value, env))
                if isinstance(sv, View):
                    from . import lib
                    args.append(lib.StarView(sv))
                else: args.extend(sv)
            else: args.append(self.ev(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                for kk, vv in self.models.kwargs_items(self, d):
                    if kk in kw: raise self.exc(TypeError, 'multiple values for keyword argument')
                    kw[kk] = vv
            else:
                kw[k.arg] = self.ev(k.value, env)
        return self.call(fn, args, kw)

    def quant(self, which, g, env):
        """any/all over a concrete iterable, short-circuiting like Python."""
        if len(g.generators) != 1: return MISSING
        gen = g.generators[0]
        sub = Env(None, env.globals, env)
        seq = self.models.iterate(self, self.ev(gen.iter, env))
        if isinstance(seq, View):
            from . import loops
            return loops.sym_quant(self, which, g, seq, sub)
        acc = []
        for x in list(seq):
            self.assign(gen.target, x, sub)
            if not all(self.truth(self.ev(c, sub)) for c in gen.ifs): continue
            v = self.ev(g.elt, sub)
            t = self.models.truth_term(self, v)
            if t is True or t is False:
                if which == 'any' and t: return True
                if which == 'all' and not t: return False
            else:
                # short-circuit by path
                b = self.ex.branch(t)
                if which == 'any' and b: return True
                if which == 'all' and not b: return False
        return which == 'all'

    def concrete_iter(self, v):
        s = self.models.iterate(self, v)
        if isinstance(s, View): raise Unsupported('symbolic sequence where a concrete one is needed')
        return list(s)

    def truth(self, v):
        t = self.models.truth_term(self, v)
        if t is True or t is False: return t
        return self.ex.branch(t)

    # -------------------------------------------------------------- attributes
    def getattr(self, o, name, default=MISSING):
        try:
            return self._getattr(o, name)
        except PyExc as e:
            if default is not MISSING and issubclass(e.value.cls, AttributeError): return default
            raise

    def find_in_class(self, cls, name, after=None):
        mro = cls.__mro__
        if after is not None: mro = mro[mro.index(after) + 1:]
        for c in mro:
            if name in c.__dict__: return c.__dict__[name]
        return MISSING

    def _getattr(self, o, name):
        if isinstance(o, SObj):
            if name in o.methods: return BoundM(o.methods[name], o)
            v = self.read_attr(o, name)
            if v is not MISSING: return v
            if name == '__class__': return o.cls
            if name == '__dict__': return self.models.obj_dict(self, o)
            r = self.find_in_class(o.cls, name)
            if r is not MISSING: return self.bind(r, o, o.cls)
            h = o.attrs.get('*')
            if h is True or (h and name in h): raise Unsupported('attribute %s of an object in an unknown state' % name)
            g = self.find_in_class(o.cls, '__getattr__')
            if g is not MISSING and isinstance(g, types.FunctionType): return self.call(g, [o, name], {})
            raise self.exc(AttributeError, name)
        if isinstance(o, Super):
            obj = o.obj
            cls = obj.cls if isinstance(obj, SObj) else type(obj)
            r = self.find_in_class(cls, name, o.cls)
            if r is MISSING: raise self.exc(AttributeError, name)
            return self.bind(r, obj, cls)
        if isinstance(o, Ext): return o.get(self, name)
        if isinstance(o, types.ModuleType):
            try:
                return self.lift(getattr(o, name))
            except AttributeError as e:
                raise self.exc(AttributeError, *e.args)
        if isinstance(o, type):
            if self.is_repo_class(o):
                r = self.find_in_class(o, name)
                if r is not MISSING:
                    if isinstance(r, staticmethod): return r.__func__
                    if isinstance(r, classmethod): return BoundM(r.__func__, o)
                    if isinstance(r, types.FunctionType): return r
                    return self.lift(getattr(o, name))
            try:
                return self.lift(getattr(o, name))
            except AttributeError as e:
                raise self.exc(AttributeError, *e.args)
        if isinstance(o, (Closure,)) or isinstance(o, types.FunctionType):
            if name == '__name__': return o.fi.node.name if isinstance(o, Closure) else o.__name__
        m = self.models.builtin_attr(self, o, name)
        if m is not MISSING: return m
        raise self.exc(AttributeError, "no attribute %s" % name)

    def read_attr(self, o, name): return o.attrs.get(name, MISSING)

    def touch(self, o, name=None):
        """Called before an object or dictionary changes: an iteration of a loop
        that is being summarised is undone, and changes of older objects noted."""
        if o.stamp >= self.barrier: return
        if isinstance(o, SObj):
            self.undo.append((o, dict(o.attrs), None))
            h = o.attrs.get('*')
            if h is True or (h and name in h): return
        else:
            self.undo.append((o, dict(dict.items(o)), o.__class__))
            if isinstance(o, LaxDict): return
        self.effects.append(('state', o, name))

    def undo_all(self, log):
        for o, old, cls in reversed(log):
            if cls is None:
                o.attrs.clear()
                o.attrs.update(old)
            else:
                o.__class__ = PDict
                dict.clear(o)
                dict.update(o, old)
                o.__class__ = cls

    def bind(self, r, obj, cls):
        if isinstance(r, types.FunctionType): return BoundM(r, obj)
        if isinstance(r, staticmethod): return r.__func__
        if isinstance(r, classmethod): return BoundM(r.__func__, cls)
        if isinstance(r, property): return self.call(r.fget, [obj], {})
        if isinstance(r, (types.WrapperDescriptorType, types.MethodDescriptorType)): return BoundM(r, obj)
        return self.lift(r)

    def setattr(self, o, name, v):
        if isinstance(o, SObj):
            s = self.find_in_class(o.cls, '__setattr__')
            if isinstance(s, types.FunctionType): return self.call(s, [o, name, v], {})
            p = self.find_in_class(o.cls, name)
            if isinstance(p, property):
                if p.fset is None: raise self.exc(AttributeError, name)
                return self.call(p.fset, [o, v], {})
            self.raw_setattr(o, name, v)
            return
        if isinstance(o, Ext): return o.set(self, name, v)
        raise Unsupported('attribute assignment on %s' % type(o).__name__)

    def raw_setattr(self, o, name, v):
        self.touch(o, name)
        o.attrs[name] = v

    def havoc(self, o):
        """The attributes of o may have changed in any way."""
        self.touch(o)
        self.havoc_attrs([o])

    def havoc_attrs(self, objs, names=None):
        """The attributes of the objects (those named, or all) may have changed."""
        from .loops import Havoc
        saved = []
        for o in objs:
            saved.append((o, dict(o.attrs), None))
            for k in list(o.attrs) if names is None else sorted(names):
                v = o.attrs.get(k)
                if k == '*': continue
                if isinstance(v, PDict):
                    # another dictionary, or this one with other contents
                    if v.__class__ is PDict:
                        saved.append((v, dict(dict.items(v)), PDict))
                        dict.clear(v)
                        v.__class__ = UnknownDict
                    o.attrs[k] = LaxDict()
                    o.attrs[k].stamp = o.stamp
                else: o.attrs[k] = Havoc('%s.%s' % (o.cls.__name__, k))
            h = o.attrs.get('*', frozenset())
            o.attrs['*'] = True if names is None or h is True else h | frozenset(names)
        return saved

    def restore_attrs(self, saved): self.undo_all(saved)

    # ------------------------------------------------------------------- calls
    def call(self, f, args, kw):
        self.depth += 1
        try:
            if self.depth > 120: raise Unsupported('call depth')
            return self._call(f, args, kw)
        finally:
            self.depth -= 1

    def _call(self, f, args, kw):
        if isinstance(f, BoundM):
            return self.call(f.func, [f.self_] + list(args), kw)
        if isinstance(f, Method):
            return self.models.call_method(self, f.self_, f.name, args, kw)
        if isinstance(f, Closure):
            return self.run_body(f.fi, f.globals, args, kw, f.defaults, f.kwdefaults, f.env, f)
        if isinstance(f, Ext):
            if hasattr(f, 'invoke'): return f.invoke(self, list(args), kw)
            return self.call(f.get(self, '__call__'), args, kw)
        m = self.models.function_model(f)
        if m is not None:
            if '**' in kw: raise Unsupported('** of an unknown mapping')
            if getattr(m, 'native_ok', True) and not isinstance(f, type) and is_conc(args) and is_conc(kw) \
                    and getattr(m, 'pure', True):
                return self.native(f, args, kw)
            self.modelled.add(getattr(f, '__module__', '') or '')
            return m(self, *args, **kw)
        if isinstance(f, types.FunctionType):
            fi = source.info(f)
            if fi is not None:
                c = self.contracts.get(self.fkey(f))
                if c is not None and f not in self.active:
                    r = c.apply(self, f, args, kw)
                    if r is not MISSING:
                        self.used_contracts.add(self.fkey(f))
                        return r
                defaults = tuple(self.lift(d) for d in (f.__defaults__ or ()))
                kd = {k: self.lift(v) for k, v in (f.__kwdefaults__ or {}).items()}
                if f.__closure__:
                    env = Env(None, f.__globals__)
                    for n, c in zip(f.__code__.co_freevars, f.__closure__):
                        if n != '__class__': env.vars[n] = self.lift(c.cell_contents)
                else: env = None
                self.inlined.add(self.fkey(f))
                return self.run_body(fi, f.__globals__, args, kw, defaults, kd, env, f)
            if is_conc(args) and is_conc(kw) and self.models.native_allowed(f):
                return self.native(f, args, kw)
            raise Unsupported('call of %s.%s' % (f.__module__, f.__qualname__))
        if isinstance(f, type):
            return self.instantiate(f, args, kw)
        if isinstance(f, SObj):
            c = self.find_in_class(f.cls, '__call__')
            if c is MISSING and '__call__' in f.methods: c = f.methods['__call__']
            if c is MISSING: raise self.exc(TypeError, 'not callable')
            return self.call(c, [f] + list(args), kw)
        if isinstance(f, types.WrapperDescriptorType) and args and isinstance(args[0], SObj):
            o = args[0]
            if f.__name__ == '__init__':
                if issubclass(o.cls, BaseException): self.raw_setattr(o, 'args', tuple(args[1:]))
                elif len(args) > 1 or kw: raise self.exc(TypeError, 'object.__init__() takes no arguments')
                return None
            if f.__name__ == '__setattr__': return self.raw_setattr(o, *args[1:])
            if f.__name__ in ('__str__', '__repr__'): return self.models.opaque_str(self, 'OBJ', o) if False else '<object>'
        if callable(f) and not isinstance(f, Sym):
            r = self.models.call_builtin(self, f, args, kw)
            if r is not MISSING: return r
            if isinstance(f, types.MethodType):
                return self.call(f.__func__, [self.lift(f.__self__)] + list(args), kw)
            raise Unsupported('call of %r' % (f,))
        if isinstance(f, Sym): raise Unsupported('call of %r' % (f,))
        raise self.exc(TypeError, 'not callable')

    def fkey(self, f): return '%s:%s' % (f.__module__, f.__qualname__)

    def instantiate(self, cls, args, kw):
        m = self.models.function_model(cls)
        if m is not None: return m(self, *args, **kw)
        if self.is_repo_class(cls):
            c = self.contracts.get('%s:%s' % (cls.__module__, cls.__qualname__))
            if c is not None and cls not in self.active:
                r = c.apply(self, cls, args, kw)
                if r is not MISSING: return r
            o = SObj(cls, stamp=self.nest)
            init = self.find_in_class(cls, '__init__')
            if issubclass(cls, BaseException): o.attrs['args'] = tuple(args)
            if isinstance(init, types.FunctionType):
                self.call(init, [o] + list(args), kw)
            elif (args or kw) and not issubclass(cls, BaseException):
                raise self.exc(TypeError, '%s() takes no arguments' % cls.__name__)
            return o
        if issubclass(cls, BaseException):
            return SObj(cls, {'args': tuple(args)}, stamp=self.nest)
        r = self.models.call_builtin(self, cls, args, kw)
        if r is not MISSING: return r
        raise Unsupported('instance of %r' % cls)

    def bind_args(self, fi, args, kw, defaults, kwdefaults):
        if '**' in kw: raise Unsupported('** of an unknown mapping')
        for v in args:
            if type(v).__name__ == 'StarView': raise Unsupported('* of a symbolic sequence')
        a = fi.node.args
        pos = a.posonlyargs + a.args
        names = [x.arg for x in pos]
        vals = {}
        args = list(args)
        if len(args) > len(pos):
            if a.vararg is None: raise self.exc(TypeError, 'too many positional arguments')
            vals[a.vararg.arg] = tuple(args[len(pos):])
            args = args[:len(pos)]
        elif a.vararg is not None:
            vals[a.vararg.arg] = ()
        for n, v in zip(names, args): vals[n] = v
        extra = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if (k in names and k not in [x.arg for x in a.posonlyargs]) or k in kwonly:
                if k in vals: raise self.exc(TypeError, 'multiple values for argument %s' % k)
                vals[k] = v
            elif a.kwarg is not None: extra[k] = v
            else: raise self.exc(TypeError, 'unexpected keyword argument %s' % k)
        off = len(pos) - len(defaults)
        for i, n in enumerate(names):
            if n not in vals:
                if i >= off: vals[n] = defaults[i - off]
                else: raise self.exc(TypeError, 'missing argument %s' % n)
        for n in kwonly:
            if n not in vals:
                if n in kwdefaults: vals[n] = kwdefaults[n]
                else: raise self.exc(TypeError, 'missing keyword argument %s' % n)
        if a.kwarg is not None: vals[a.kwarg.arg] = self.new_dict(extra)
        return vals

    def run_body(self, fi, globals_, args, kw, defaults, kwdefaults, parent, func):
        vals = self.bind_args(fi, args, kw, defaults, kwdefaults)
        env = Env(fi, globals_, parent, func)
        env.vars.update(vals)
        if isinstance(fi.node, ast.Lambda): return self.ev(fi.node.body, env)
        if fi.is_gen: env.yields = self.new_list()
        saved, self.leaving = self.leaving, frozenset()
        try: r = self.block(fi.node.body, env)
        finally: self.leaving = saved
        if fi.is_gen:
            y = env.yields
            rep = self.ex.state.get('replaced', {}).get(id(y))
            return self.models.resolve_list(self, y)
        return r.v if isinstance(r, Ret) else None
