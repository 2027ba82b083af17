"""Loops with invariants given by a specification.

@invariant('module:function', loop number, shapes) decorates a specification
function whose parameters are names: variables of the loop's function, `i` (of
a for loop: the number of elements done), `name0` (value of a variable when the
loop was reached).  It returns the conjuncts of the invariant.  shapes says
what kind of value each variable that the loop changes holds; other variables
that the loop assigns hold nothing known at the loop head.

Rule: the conjuncts hold when the loop is reached (proved); they hold after an
iteration that starts in any state where they hold (proved); after the loop
they hold and the condition does not.  An iteration that leaves the loop
starts in any such state.
"""
import ast
import inspect
import types
import z3
from . import api, source, solver
from .core import *
from .values import *
from .loops import Havoc, assigned, in_range
from .interp import BREAK, CONTINUE, Ret, PList

TABLE = []


class Inv(object):
    def __init__(self, where, n, shapes, fn): self.where, self.n, self.shapes, self.fn = where, n, shapes, fn

    def loop(self):
        """The loop statement it belongs to, or None."""
        f = api.target(self.where) if isinstance(self.where, str) else self.where
        if not isinstance(f, types.FunctionType): return None
        fi = source.info(f)
        if fi is None: return None
        ls = sorted((n for n in ast.walk(fi.node) if isinstance(n, (ast.For, ast.While))), key=lambda n: (n.lineno, n.col_offset))
        return ls[self.n] if self.n < len(ls) else None


def invariant(where, n=0, /, **shapes):
    def deco(fn):
        TABLE.append(Inv(where, n, shapes, fn))
        return fn
    return deco


_FOUND = {}


def find(st):
    k = (id(st), len(TABLE))
    if k not in _FOUND:
        _FOUND[k] = None
        for v in reversed(TABLE):
            if v.loop() is st:
                _FOUND[k] = v
                break
    return _FOUND[k]


def wanted(interp, st, env):
    """Is there an invariant for this loop, and something symbolic in it?"""
    if not TABLE or find(st) is None: return False
    for n in ast.walk(st):
        if isinstance(n, ast.Name) and isinstance(env.vars.get(n.id), Sym): return True
    return False


def make(interp, shape, name):
    ex = interp.ex
    if callable(shape): return shape(interp, name)
    if shape == 'int': return SInt(ex.fresh(name, IS))
    if shape == 'nat':
        z = ex.fresh(name, IS)
        ex.assume(z >= 0)
        return SInt(z)
    if shape == 'bool': return SBool(ex.fresh(name, BS))
    if shape == 'int or None':
        if ex.choose(2, name) == 0: return None
        return SInt(ex.fresh(name, IS))
    raise Unsupported('shape %r' % (shape,))


def conjuncts(interp, v, env, start, i):
    args = {}
    for n in inspect.signature(v.fn).parameters:
        if n == 'i' and i is not None: args[n] = i
        elif n in env.vars: args[n] = env.vars[n]
        elif n.endswith('0') and n[:-1] in start: args[n] = start[n[:-1]]
        else: raise Unsupported('loop invariant: no variable %s' % n)
    for a in args.values():
        if isinstance(a, Havoc): raise Unsupported('loop invariant: %s is not known' % a.name)
    r = interp.call(v.fn, [], args)
    return r if isinstance(r, (tuple, list)) else [r]


def holds(interp, v, env, start, i, what):
    ex = interp.ex
    for k, c in enumerate(conjuncts(interp, v, env, start, i)):
        t = interp.models.truth_term(interp, c)
        g = z3.BoolVal(t) if isinstance(t, bool) else t
        run = ex.state.get('run')
        res = prove(interp, ex.pc, g, run.prove_ms if run else None)
        if res.status != 'proved': raise Unsupported('loop invariant of %s, part %d: %s (%s)' % (v.where if isinstance(v.where, str) else v.where.__name__, k, what, res.status))
        ex.assume(g)


def prove(interp, pc, g, ms):
    from . import lemmas
    if lemmas.try_prove(interp, pc, g): return solver.Result('proved', 'lemma')
    r = solver.prove(pc, g, ms)
    if r.status == 'refuted' and interp.opaque_products: return solver.Result('unknown', r.backend, None, 'refuted only with products as uninterpreted functions', r.secs)
    if r.status == 'refuted' and (interp.ex.universals or interp.loops): return solver.Result('unknown', r.backend, None, 'refuted only with an abstraction of a loop', r.secs)
    return r


def suppose(interp, v, env, start, i):
    for c in conjuncts(interp, v, env, start, i):
        t = interp.models.truth_term(interp, c)
        if t is False: raise PathDead()
        if t is not True: interp.ex.assume(t)


def forget(interp, v, env, W):
    for x in sorted(W):
        if x in v.shapes: env.vars[x] = make(interp, v.shapes[x], x)
        else: env.vars[x] = Havoc(x)
    for x in sorted(set(v.shapes) - set(W)):
        # changed in place
        if x not in env.vars: raise Unsupported('loop invariant: no variable %s' % x)
        old = env.vars[x]
        new = v.shapes[x](interp, x, old)
        if new is not None:
            # the old object may be known elsewhere by another name: no more use of it
            if not isinstance(old, PList) or len(old): raise Unsupported('loop invariant: %s' % x)
            old.view = Havoc(x)
            env.vars[x] = new


def run_loop(interp, st, env, seq=None):
    """None (no invariant given), or (result,)."""
    v = find(st)
    if v is None: return None
    ex = interp.ex
    W = assigned(st.body) | (set(n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)) if isinstance(st, ast.For) else set())
    W |= set(n.target.id for s in st.body for n in ast.walk(s) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name))
    start = dict(env.vars)
    if seq is not None and seq.cond is not None: raise Unsupported('loop invariant over a filtered sequence')
    if seq is not None: ex.assume(seq.n >= 0)
    holds(interp, v, env, start, 0 if seq is not None else None, 'does not hold at first')
    interp.loops.append(('invariant', getattr(st, 'lineno', 0)))
    more = ex.choose(2, 'iterate') == 0
    forget(interp, v, env, W)
    if seq is not None:
        j = ex.fresh('it', IS) if more else seq.n
        if more:
            ex.assume(z3.And(j >= 0, j < seq.n))
            interp.models.use_index(interp, seq, j)
        i = mkint(j)
    else: i = None
    suppose(interp, v, env, start, i)
    if seq is None:
        c = interp.truth(interp.ev(st.test, env))
        if c is not more: raise PathDead()
    if not more:
        return (interp.block(st.orelse, env) if st.orelse else None,)
    if seq is not None: interp.assign(st.target, seq.val(j), env)
    saved = interp.nest, interp.barrier, interp.effects, interp.any_iteration
    interp.effects, interp.any_iteration = [], True
    interp.nest_counter = getattr(interp, 'nest_counter', 1) + 1
    interp.nest = interp.barrier = interp.nest_counter
    try:
        r = interp.block(st.body, env)
        if interp.effects: raise Unsupported('loop with an invariant changes other objects')
    finally:
        interp.nest, interp.barrier, interp.effects, interp.any_iteration = saved
    if r is BREAK: return (None,)
    if isinstance(r, Ret): return (r,)
    holds(interp, v, env, start, mkint(j + 1) if seq is not None else None, 'is not kept')
    raise PathDead()
