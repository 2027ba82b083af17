"""The symbolic run of a contract: obligations, verdicts and models."""
import os
import time
import types
import z3
from . import api, core, solver, texts, jsonv, source
from .core import *
from .values import *
from .interp import Interp, MISSING, Ext
from . import models
from .models import Models, model, FUNCS
from . import lib


@model(api.requires, pure=False)
def m_requires(interp, c):
    t = interp.models.truth_term(interp, c)
    if t is True: return None
    if t is False or not interp.ex.branch(t): raise PathDead()


@model(api.note, pure=False)
def m_note(interp, *a): return None


@model(api.natively, pure=False)
def m_natively(interp): return False


class Obligations(object):
    def __init__(self):
        self.by = {}        # label -> list of (status, backend, secs, reason)
        self.failed = []    # (label, pc, model, goal)

    def add(self, label, res, ex, goal, run):
        self.by.setdefault(label, []).append((res.status, res.backend, res.secs, res.reason))
        if res.status != 'proved':
            self.failed.append(dict(label=label, status=res.status, backend=res.backend, reason=res.reason,
                                    inputs=run.concretise(res.model) if res.model is not None else None,
                                    goal=str(goal)[:600]))


@model(api.ensures, pure=False)
def m_ensures(interp, label, c):
    ex = interp.ex
    run = ex.state['run']
    t = interp.models.truth_term(interp, c)
    goal = z3.BoolVal(t) if isinstance(t, bool) else t
    for h in run.hints: h(interp, goal)
    from . import invariants
    res = invariants.prove(interp, ex.pc, goal, run.prove_ms)
    run.obl.add(label, res, ex, goal, run)
    if res.status == 'proved': return None
    if z3.is_false(z3.simplify(goal)): raise PathDead()
    ex.assume(goal)


@model(api.outcome, pure=False)
def m_outcome(interp, f, *args, **kw):
    try:
        return ('ok', interp.call(f, list(args), kw))
    except PyExc as e:
        return ('exc', e.value.cls)


# ------------------------------------------------------------ symbolic inputs
MAXLEN = 2 ** 40      # assumption: no text is longer


def sym_bytes(t, interp, name):
    ex = interp.ex
    z = z3.Const('in_' + name, SS)
    nm = z.decl().name()
    if t.n is not None:
        texts.LEN[nm] = t.n
        ex.assume(z3.Length(z) == t.n)
        if t.n == 0: return b''
    else:
        texts.LEN.pop(nm, None)
        if t.lo: ex.assume(z3.Length(z) >= t.lo)
        ex.assume(z3.Length(z) <= t.hi if t.hi is not None else z3.Length(z) < MAXLEN)
    return mktext(SBytes, [z])


def sym_str(t, interp, name):
    z = z3.Const('in_' + name, SS)
    nm = z.decl().name()
    texts.ALPHA.pop(nm, None)
    if t.ascii:
        texts.ALPHA[nm] = 'ascii'
    if t.alphabet is not None:
        an = 'set:' + ''.join(sorted(t.alphabet))
        texts.ALPHABETS[an] = frozenset(t.alphabet)
        texts.ALPHA[nm] = an
    if t.lo: interp.ex.assume(z3.Length(z) >= t.lo)
    interp.ex.assume(z3.Length(z) <= t.hi if t.hi is not None else z3.Length(z) < MAXLEN)
    return mktext(SStr, [z])


def sym_int(t, interp, name):
    z = z3.Int('in_' + name)
    if t.lo is not None: interp.ex.assume(z >= t.lo)
    if t.hi is not None: interp.ex.assume(z <= t.hi)
    return SInt(z)


def sym_json(t, interp, name):
    z = z3.Const('in_' + name, jsonv.JV)
    jsonv.well_formed(interp.ex, z)
    if t.kind is not None:
        k = {'dict': jsonv.DICT, 'list': jsonv.LIST, 'str': jsonv.STR, 'int': jsonv.INT}[t.kind]
        interp.ex.assume(jsonv.TAG(z) == k)
    return SJson(z)


SJson = jsonv.SJson


def sym_input(t, interp, name):
    if isinstance(t, api.Bytes): return sym_bytes(t, interp, name)
    if isinstance(t, api.Str): return sym_str(t, interp, name)
    if isinstance(t, api.Int): return sym_int(t, interp, name)
    if isinstance(t, api.Bool): return SBool(z3.Bool('in_' + name))
    if isinstance(t, api.Json): return sym_json(t, interp, name)
    if isinstance(t, api.OneOf):
        i = interp.ex.choose(len(t.xs), 'in_' + name)
        return interp.lift(t.xs[i])
    if isinstance(t, api.Union):
        i = interp.ex.choose(len(t.ts), 'in_' + name)
        v = sym_input(t.ts[i], interp, '%s_%d' % (name, i))
        return v
    if hasattr(t, 'sym_make'): return t.sym_make(interp, name)
    raise Unsupported('input type %r' % t)


# ------------------------------------------------------------- concretisation
class Conc(object):
    """Python values of symbolic ones under a model."""

    def __init__(self, m, run): self.m, self.run, self.ok = m, run, True

    def ev(self, z): return self.m.eval(z, model_completion=True)

    def text(self, v):
        out = ''
        for p in text_parts(v):
            if isinstance(p, bytes): out += p.decode('latin-1')
            elif isinstance(p, str): out += p
            else:
                s = unzstr(self.ev(p))
                if s is None:
                    self.ok = False
                    return b'' if isinstance(v, SBytes) else ''
                out += s
        if isinstance(v, (SBytes, bytes)):
            return bytes(ord(c) & 255 for c in out)
        return ''.join(c if not 0xd800 <= ord(c) < 0xe000 and ord(c) < 0x110000 else 'x' for c in out)

    def json(self, z, depth=0):
        if depth > 3: return None
        t = self.ev(jsonv.TAG(z))
        t = t.as_long() if z3.is_int_value(t) else 0
        if t == jsonv.NULL: return None
        if t == jsonv.BOOL: return z3.is_true(self.ev(jsonv.JB(z)))
        if t == jsonv.INT: return self.ev(jsonv.JI(z)).as_long()
        if t == jsonv.FLOAT: return 0.5
        if t == jsonv.STR: return self.text(mktext(SStr, [self.ev(jsonv.JS(z))]))
        if t == jsonv.LIST:
            n = self.ev(jsonv.JLEN(z)).as_long()
            return [self.json(jsonv.JAT(z, z3.IntVal(i)), depth + 1) for i in range(max(0, min(n, 6)))]
        d = {}
        for k in self.run.json_keys():
            if z3.is_true(self.ev(jsonv.JHAS(z, zstr(k)))): d[k] = self.json(jsonv.JGET(z, zstr(k)), depth + 1)
        return d

    def value(self, v):
        if isinstance(v, SText): return self.text(v)
        if isinstance(v, SInt): return self.ev(v.z).as_long()
        if isinstance(v, SBool): return z3.is_true(self.ev(v.z))
        if isinstance(v, SJson): return self.json(v.z)
        if isinstance(v, PList): return [self.value(x) for x in v]
        if isinstance(v, PDict): return {k: self.value(x) for k, x in v.items()}
        if isinstance(v, tuple): return tuple(self.value(x) for x in v)
        if isinstance(v, Sym): raise ValueError('no concrete value for %r' % (v,))
        return v


class Run(object):
    def __init__(self, contract, deadline, prove_ms=None, extra_contracts=None, templates=(), path_inputs=True, fix=None):
        self.contract, self.fix = contract, fix or {}
        self.deadline = deadline
        self.prove_ms = prove_ms
        self.obl = Obligations()
        self.hints = []
        self.paths = []         # per path: outcome, reason
        self.cases = []         # concrete inputs reaching each path
        self.inputs = {}
        self.path_inputs, self.misses = path_inputs, 0
        self.ex = Explorer(deadline, contract.max_paths)
        self.models = Models()
        self.interp = Interp(self.ex, self.models, dict(extra_contracts or {}), templates)
        self.error = None

    def json_keys(self):
        ks = set()
        for c in self.ex.pc + [z3.BoolVal(True)]:
            stack, seen = [c], set()
            while stack:
                t = stack.pop()
                if t.get_id() in seen: continue
                seen.add(t.get_id())
                if z3.is_string_value(t): ks.add(unzstr(t))
                stack.extend(t.children())
        return sorted(k for k in ks if k is not None and len(k) < 40)

    def concretise(self, m):
        try:
            c = Conc(m, self)
            d = {}
            for n, v in self.inputs.items():
                t = self.contract.inputs[n]
                if hasattr(t, 'conc_make'): d[n] = t.conc_make(c, v)
                else: d[n] = c.value(v)
            return d
        except Exception as e:
            return None

    def one(self):
        ex, c = self.ex, self.contract
        ex.state['run'] = self
        self.inputs = {}
        try:
            for n, t in c.inputs.items():
                if n in self.fix: self.inputs[n] = self.interp.lift(t.xs[self.fix[n]])
                else: self.inputs[n] = sym_input(t, self.interp, n)
            if c.setup is not None: c.setup(self.interp)
            out = ('ok', '')
            try:
                self.interp.call(c.fn, [], dict(self.inputs))
            except PyExc as e:
                res = solver.prove(ex.pc, z3.BoolVal(False), self.prove_ms)
                if res.status == 'proved': raise PathDead()
                res.reason = 'escapes: %s %s' % (e.value.cls.__name__, str(e.value.attrs.get('args', ''))[:200])
                self.obl.add('no-exception', res, ex, z3.BoolVal(False), self)
                out = ('exc', e.value.cls.__name__)
        except Unsupported as e:
            if isinstance(e, OutOfBudget): raise
            out = ('unsupported', str(e)[:300])
        if self.path_inputs and len(self.cases) < 400 and self.misses < 6:
            s = solver.new_solver(600)
            for q in ex.pc: s.add(q)
            self.misses += 1
            if s.check() == z3.sat:
                d = self.concretise(s.model())
                if d is not None:
                    self.cases.append(d)
                    self.misses = max(0, self.misses - 2)
        self.paths.append(out)
        return out

    def go(self):
        t = time.time()
        try:
            self.ex.explore(self.one)
        except Unsupported as e:
            self.error = str(e)
        except z3.Z3Exception as e:
            self.error = 'z3: %s' % str(e)[:200]
        except (RecursionError, AttributeError, TypeError, ValueError, KeyError, IndexError, AssertionError, NameError, ArithmeticError, NotImplementedError) as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.error = 'engine: %s: %s (%s:%d)' % (type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno)
        self.secs = time.time() - t
        return self

    def verdict(self):
        """label -> status over all paths."""
        out = {}
        bad = [r for k, r in self.paths if k == 'unsupported']
        for lab, rs in self.obl.by.items():
            st = [r[0] for r in rs]
            s = 'refuted' if 'refuted' in st else 'unknown' if 'unknown' in st else 'proved'
            out[lab] = s
        complete = not self.error and not bad
        if not complete:
            for k in out:
                if out[k] == 'proved': out[k] = 'incomplete'
        return out, complete, sorted(set(bad))
