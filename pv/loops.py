"""Loops over symbolic sequences and symbolic conditions.

A for loop over a symbolic sequence is summarised when an iteration that does
not leave the loop changes nothing but appends to lists: the summary is the
formula "element i falls through" and, per list, "element i is appended".
The iteration that leaves the loop (if any) is executed once for an arbitrary
index all of whose predecessors fall through.  This is the usual rule for a
for loop with the invariant "every element seen so far fell through", found
from the body itself, so it follows the code through rewrites.

Loops that carry state need an invariant from a template (see templates.py).
"""
import ast
import z3
from . import solver
from .core import *
from .interp import LeavesLoop
from .values import *


class Havoc(Sym):
    """Value of a variable after iterations that may have changed it."""
    __slots__ = ('name',)

    def __init__(self, name): self.name = name


class Unknown(Havoc):
    """Value of a carried variable about which nothing is known: comparisons
    with it may go either way."""
    __slots__ = ()


class LoopCarried(Unsupported):
    def __init__(self, name):
        Unsupported.__init__(self, 'loop-carried variable %s' % name)
        self.name = name


class CarriedState(Unsupported):
    """An iteration changes a variable that later iterations read."""

    def __init__(self, name, obj=False):
        Unsupported.__init__(self, 'loop-carried variable %s' % name)
        self.name, self.obj = name, obj


class StateChange(Unsupported):
    """An iteration changes the state of an object in ways not described."""

    def __init__(self, obj):
        Unsupported.__init__(self, 'loop changes the state of %r' % (obj,))
        self.obj = obj


def assigned(stmts):
    out = set()
    for st in stmts:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): out.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name: out.add(n.name)
            elif isinstance(n, ast.FunctionDef): out.add(n.name)
    return out


class Protected(object):
    """Run code so that writes to older objects are recorded, not done."""

    def __init__(self, interp): self.i = interp

    def __enter__(self):
        i = self.i
        self.saved = (i.nest, i.barrier, i.effects, i.undo)
        i.nest_counter = getattr(i, 'nest_counter', 1) + 1
        i.nest = i.barrier = i.nest_counter
        i.effects, i.undo = [], []
        return i

    def __exit__(self, *a):
        i = self.i
        i.undo_all(i.undo)
        i.nest, i.barrier, i.effects, i.undo = self.saved


def in_range(seq, j):
    c = [j >= 0, j < seq.n]
    if seq.cond is not None: c.append(seq.cond(j))
    return z3.And(*c)


def leaving(stmts):
    """Blocks of a loop body that end the loop whatever happens in them: the
    last statement is return, break or raise, nothing in them continues the
    loop, and no handler of the body sees their exceptions."""
    out = set()

    def ends(b): return isinstance(b[-1], (ast.Return, ast.Break)) and not any(isinstance(n, (ast.Continue, ast.Break)) for s in b[:-1] for n in ast.walk(s))

    def walk(b, caught):
        if not caught and ends(b):
            out.add(id(b))
            return
        for s in b:
            if isinstance(s, ast.If):
                walk(s.body, caught)
                if s.orelse: walk(s.orelse, caught)
            elif isinstance(s, ast.Try):
                walk(s.body, caught or bool(s.handlers) or bool(s.finalbody))
                for h in s.handlers: walk(h.body, caught or bool(s.finalbody))
                if s.orelse: walk(s.orelse, caught or bool(s.finalbody))
            elif isinstance(s, ast.With): walk(s.body, True)
    for s in stmts: walk([s], False) if isinstance(s, (ast.If, ast.Try)) else None
    return out


def owner(vars, o, name):
    """The (variable, attribute) whose value changes when attribute name of the
    object o, or the dictionary o, changes."""
    out = set()
    for x, v in vars.items():
        if v is o and isinstance(v, SObj): out.add((x, name))
        elif isinstance(v, SObj) and isinstance(o, dict): out.update((x, k) for k, a in v.attrs.items() if a is o)
    return out


def havoc_objects(interp, objs, vars):
    saved = []
    for x in sorted(set(x for x, k in objs)):
        names = [k for y, k in objs if y == x]
        saved += interp.havoc_attrs([vars[x]], None if None in names else names)
    return saved


def subst(f, j, t):
    return z3.substitute(f, (j, t))


class Summary(object):
    pass


def summarise(interp, seq, env, W, run, leave=frozenset(), element=(None,), anys=(), objs=()):
    """run(j) executes one iteration for index j in a protected state and
    returns 'fall' / other; returns Summary."""
    ex = interp.ex
    nm = ex._name('ix')
    j = z3.Int(nm)
    places = {id(v): k for k, v in env.vars.items() if isinstance(v, list)}
    start = dict(env.vars)

    def find():
        unchanged = set()
        while True:
            saved_vars = dict(env.vars)
            for x in W:
                if x in anys: env.vars[x] = Unknown(x)
                elif x not in unchanged: env.vars[x] = Havoc(x)
            havoced = havoc_objects(interp, objs, env.vars)
            inner_vars = dict(env.vars)
            try:
                def one():
                    env.vars.clear()
                    env.vars.update(inner_vars)
                    with Protected(interp):
                        interp.models.use_index(interp, seq, j)
                        saved_leaving, interp.leaving = interp.leaving, leave
                        try:
                            r = run(j)
                        except (PyExc, LeavesLoop):
                            r = 'exit'
                        finally:
                            interp.leaving = saved_leaving
                        eff = list(interp.effects)
                        vals = dict(env.vars)
                    return r, [e + ((e[2] is element[0]),) if e[0] == 'append' else e for e in eff], vals
                try:
                    paths = ex.explore(one, base=ex.pc + [in_range(seq, j)],
                                       index_vars=(ex.frames[-1].index_vars if ex.frames else ()) + (j,),
                                       prefix=nm + '.')
                finally:
                    env.vars.clear()
                    env.vars.update(saved_vars)
                    interp.restore_attrs(havoced)
                break
            except LoopCarried as e:
                if e.name in unchanged or e.name not in W or e.name not in saved_vars: raise
                unchanged.add(e.name)
        base = len(ex.pc) + 1
        falls, appends, temps, anyexit = [], {}, set(), False
        changed = set()
        for pc, (r, eff, vals) in paths:
            delta = since(pc, base)
            if r != 'fall':
                anyexit = True
                continue
            falls.append(delta)
            seen = set()
            for e in eff:
                if e[0] == 'state':
                    changed.update(owner(start, e[1], e[2]) - objs or [None])
                    if None in changed: raise StateChange(e[1])
                    continue
                if e[0] != 'append': raise Unsupported('loop changes state: %s' % (e[0],))
                if id(e[1]) in seen: raise Unsupported('two appends to one list in an iteration')
                seen.add(id(e[1]))
                appends.setdefault(places.get(id(e[1]), e[1]) if id(e[1]) in places else Obj(e[1]), []).append((delta, e[3]))
            for x in W:
                v = vals.get(x)
                if x in anys: continue
                if x in unchanged:
                    if v is not start.get(x): raise CarriedState(x)
                elif not isinstance(v, Havoc):
                    temps.add(x)
        if changed: raise CarriedState(changed, True)
        return falls, appends, temps, anyexit, unchanged
    elsewhere = []

    class Obj(object):
        def __init__(self, o): self.o = elsewhere.append(o) or o
        def __hash__(self): return id(self.o)
        def __eq__(self, o): return isinstance(o, Obj) and o.o is self.o
    key = ('for', nm, tuple(sorted(anys)), tuple(sorted(objs, key=str)))
    falls, appends, temps, anyexit, unchanged = ex.once(key, find)
    if elsewhere or any(not isinstance(k, str) for k in appends):
        # a list that no variable of this frame holds: its identity is of one execution only
        ex.nested.pop((key,) + ex.here(), None)
    s = Summary()
    F = z3.Or(*falls) if falls else z3.BoolVal(False)
    s.fall = lambda t: subst(F, j, t)
    s.appends = {}
    for k, ds in appends.items():
        l = start[k] if isinstance(k, str) else k.o
        s.appends[id(l)] = (l, (lambda D: (lambda t: subst(D, j, t)))(z3.Or(*[d for d, p in ds])), all(p for d, p in ds))
    s.anyexit, s.temps, s.j, s.unchanged = anyexit, temps, j, unchanged
    s.anyfall = bool(falls)
    return s


def sym_for(interp, st, seq, env):
    ex = interp.ex
    from . import invariants
    r = invariants.run_loop(interp, st, env, seq)
    if r is not None: return r[0]
    W = assigned(st.body) | assigned([st.target] if isinstance(st.target, ast.stmt) else [ast.Expr(value=st.target)])
    for n in ast.walk(st.target):
        if isinstance(n, ast.Name): W.add(n.id)
    from .interp import BREAK, CONTINUE, Ret

    element = [None]

    def run(j):
        element[0] = seq.val(j)
        interp.assign(st.target, element[0], env)
        r = interp.block(st.body, env)
        if r is None or r is CONTINUE: return 'fall'
        return 'exit'
    anys, objs = set(), set()
    while True:
        try:
            s = summarise(interp, seq, env, W, run, leaving(st.body), element, anys, objs)
            break
        except CarriedState as e:
            if not e.obj and not anys and not objs and sticky(interp, st, seq, env, W, run, e.name):
                return interp.block(st.orelse, env) if st.orelse else None
            if e.obj: objs.update(e.name)
            elif e.name in anys: raise
            else: anys.add(e.name)
    interp.loops.append(('summarised', getattr(st, 'lineno', 0)))
    start = dict(env.vars)
    havoc_objects(interp, objs, env.vars)
    for x in W:
        if x in anys: env.vars[x] = Unknown(x)
        elif x not in s.unchanged: env.vars[x] = Havoc(x)

    def fresh_start():
        env.vars.clear()
        env.vars.update(start)
        for x in W:
            if x in anys: env.vars[x] = Unknown(x)
            elif x not in s.unchanged: env.vars[x] = Havoc(x)

    def guarded(t):
        return z3.Implies(in_range(seq, t), s.fall(t))

    def make_view(l, C, plain, upto=None):
        cond = lambda t: z3.And(*([in_range(seq, t), C(t)] + ([t < upto] if upto is not None else [])))

        def val(t):
            # the value appended in the iteration for index t
            if plain:
                ex.assume(cond(t))
                return seq.val(t)
            cur = dict(env.vars)
            fresh_start()
            try:
                ex.assume(cond(t))
                with Protected(interp):
                    r = run(t)
                    got = [e[2] for e in interp.effects if e[0] == 'append' and e[1] is l]
            finally:
                env.vars.clear()
                env.vars.update(cur)
            if not got: raise PathDead()
            return got[0]
        return View(seq.src, seq.n, val, cond, ghost=dict(base=seq))
    k = ex.choose(2, 'loop') if s.anyexit else 1
    if k == 0:
        j = s.j
        ex.assume(in_range(seq, j))
        if not s.anyfall: ex.assume(j == 0) if seq.cond is None else None
        u = lambda t: z3.Implies(z3.And(in_range(seq, t), t < j), s.fall(t))
        ex.add_universal(seq.src, u)
        for l, C, plain in s.appends.values(): attach(interp, l, make_view(l, C, plain, j))
        interp.models.use_index(interp, seq, j)
        for x in W:
            if x in anys: env.vars[x] = Unknown(x)
            elif x in s.temps: env.vars[x] = Havoc(x)
            elif x in start: env.vars[x] = start[x]
            else: env.vars.pop(x, None)
        r = run_exit(interp, st, seq, j, env)
        if r is None or r is CONTINUE: raise PathDead()
        if r is BREAK: return None
        return r
    ex.add_universal(seq.src, guarded)
    ex.assume(seq.n >= 0)
    if not s.anyfall and seq.cond is None: ex.assume(seq.n == 0)
    carried = {}
    for x in sorted(anys):
        # the value it started with, or the one that some iteration gave it
        keep = ex.choose(2, 'carried') == 0
        if keep: carried[x] = start[x]
        if not keep or ex.branch(seq.n > 0):
            # kept: the first iteration, started with that value, leaves it
            k = z3.IntVal(0) if keep else ex.fresh('last', IS)
            if not keep: ex.assume(in_range(seq, k))
            elif seq.cond is not None: raise Unsupported('carried variable of a filtered loop')
            interp.models.use_index(interp, seq, k)
            cur = dict(env.vars)
            fresh_start()
            if keep: env.vars[x] = start[x]
            try:
                with Protected(interp):
                    if run(k) != 'fall': raise PathDead()
                if keep and env.vars[x] is not start[x]: raise PathDead()
                carried[x] = env.vars[x]
            except PyExc:
                raise PathDead()
            finally:
                env.vars.clear()
                env.vars.update(cur)
            if isinstance(carried[x], Havoc): raise PathDead()
    for l, C, plain in s.appends.values(): attach(interp, l, make_view(l, C, plain))
    for x in W:
        if x in anys: env.vars[x] = carried[x]
        elif x in s.temps: env.vars[x] = Havoc(x)
        elif x in start: env.vars[x] = start[x]
        else: env.vars.pop(x, None)
    return interp.block(st.orelse, env) if st.orelse else None


def sticky(interp, st, seq, env, W, run, x):
    """A for loop with one carried variable x, a flag or a mask that starts at a
    constant g and, once it differs from g, never comes back to it.  With
    P(i) := "iteration i leaves x at g when x is g", the invariant is
    x == g  iff  P(k) for all k < i.  It is checked here for an arbitrary
    iteration, from any x of the type that differs from g."""
    ex = interp.ex
    g = env.vars.get(x)
    if type(g) not in (int, bool) or seq.cond is not None: return None
    nm = ex._name('ix')
    j = z3.Int(nm)
    any_x = SBool(z3.Bool(nm + '.x')) if isinstance(g, bool) else SInt(z3.Int(nm + '.x'))
    dom = lambda v: z3.BoolVal(True) if isinstance(g, bool) else zint(v) >= 0
    if isinstance(g, int) and not isinstance(g, bool) and g < 0: return None
    saved = dict(env.vars)

    def step(start, base):
        def one():
            env.vars.clear()
            env.vars.update(saved)
            for y in W:
                if y != x: env.vars[y] = Havoc(y)
            env.vars[x] = start
            with Protected(interp):
                interp.models.use_index(interp, seq, j)
                try: r = run(j)
                except PyExc: r = 'exit'
                if r != 'fall' or interp.effects: return ('exit', None)
                v = env.vars.get(x)
                if isinstance(g, bool):
                    ok = isinstance(v, (bool, SBool))
                else:
                    ok = isinstance(v, (int, SInt)) and not isinstance(v, (bool, SBool))
                return ('fall', v) if ok else ('exit', None)
        try:
            return ex.explore(one, base=base, index_vars=(ex.frames[-1].index_vars if ex.frames else ()) + (j,), prefix=nm + '.')
        finally:
            env.vars.clear()
            env.vars.update(saved)
    here = ex.pc + [in_range(seq, j)]
    good = lambda v: zbool_eq(v, g)
    other = step(any_x, here + [dom(any_x), z3.Not(good(any_x))])
    for pc, (k, v) in other:
        if k != 'fall': return None
        if solver.prove(pc, z3.And(dom(v), z3.Not(good(v))), 2000).status != 'proved': return None
    first = step(g, here)
    base = len(here)
    hold, fail = [], []
    for pc, (k, v) in first:
        if k != 'fall' or solver.prove(pc, dom(v), 2000).status != 'proved': return None
        d = since(pc, base)
        hold.append(z3.And(d, good(v)))
        fail.append(z3.And(d, z3.Not(good(v))))
    interp.loops.append(('accumulator', getattr(st, 'lineno', 0)))
    P = z3.Or(*hold) if hold else z3.BoolVal(False)
    p = lambda t: subst(P, j, t)
    for y in W:
        if y != x: env.vars[y] = Havoc(y)
    ex.assume(seq.n >= 0)
    if ex.choose(2, 'flag') == 0:
        env.vars[x] = g
        ex.add_universal(seq.src, lambda t: z3.Implies(in_range(seq, t), p(t)))
        two = seq.ghost.get('texts')
        for a, b in indexed_pairs(P, j):
            # extensionality: equal, or different somewhere
            k = ex.fresh('diff', IS)
            ex.assume(z3.Or(a == b, z3.Length(a) != z3.Length(b),
                            z3.And(0 <= k, k < z3.Length(a), z3.StrToCode(a.at(k)) != z3.StrToCode(b.at(k)))))
            ex.add_index(seq.src, k)
        if two:
            k = ex.fresh('diff', IS)
            m = interp.models
            a, b = [m.text_view(interp, t).val(k) for t in two]
            zt = [ztext(t) for t in two]
            ex.assume(z3.Or(zt[0] == zt[1], z3.Length(zt[0]) != z3.Length(zt[1]),
                            z3.And(in_range(seq, k), (zint(a) if not isinstance(a, SStr) else a.z) != (zint(b) if not isinstance(b, SStr) else b.z))))
            ex.add_index(seq.src, k)
    else:
        env.vars[x] = any_x = SBool(ex.fresh('acc', BS)) if isinstance(g, bool) else SInt(ex.fresh('acc', IS))
        ex.assume(z3.And(dom(any_x), z3.Not(good(any_x)), in_range(seq, j), z3.Or(*fail) if fail else z3.BoolVal(False)))
        interp.models.use_index(interp, seq, j)
    return True


def long_range(interp, st, rng, env):
    """A loop over many numbers that gathers flags in one variable: the rule of
    sticky instead of its unrolling, if it applies."""
    W = assigned(st.body) | set(n.target.id for s in st.body for n in ast.walk(s) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name))
    masks = [n for s in st.body for n in ast.walk(s) if isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.BitOr, ast.BitAnd)) and isinstance(n.target, ast.Name)]
    if len(masks) != 1 or len(st.body) != 1 or not isinstance(st.target, ast.Name) or type(env.vars.get(masks[0].target.id)) not in (int, bool): return False
    x = masks[0].target.id
    n = z3.IntVal(len(rng))
    seq = View(('range', n.get_id(), n, z3.IntVal(rng.start)), n, lambda i: mkint(z3.simplify(rng.start + zint(i))))
    W.add(st.target.id)

    def run(j):
        interp.assign(st.target, seq.val(j), env)
        r = interp.block(st.body, env)
        return 'fall' if r is None else 'exit'
    try: return bool(sticky(interp, st, seq, env, W, run, x))
    except Unsupported as e:
        if isinstance(e, OutOfBudget): raise
        return False


def indexed_pairs(P, j):
    """The pairs of texts that P looks at in place j."""
    seen, found, todo = set(), [], [P]
    while todo:
        t = todo.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        todo += t.children()
        if z3.is_app(t) and t.num_args() == 2 and t.arg(1).eq(j) and t.decl().kind() == z3.Z3_OP_SEQ_AT:
            if not any(t.arg(0).eq(s) for s in found): found.append(t.arg(0))
    return [(a, b) for n, a in enumerate(found) for b in found[n + 1:]][:3]


def zbool_eq(v, g):
    if isinstance(g, bool):
        z = v.z if isinstance(v, SBool) else z3.BoolVal(v)
        return z if g else z3.Not(z)
    return zint(v) == g


def run_exit(interp, st, seq, j, env):
    interp.assign(st.target, seq.val(j), env)
    return interp.block(st.body, env)


def attach(interp, l, view):
    """List l (empty so far) gets the elements of view."""
    if len(l) or getattr(l, 'view', None) is not None: raise Unsupported('append loop on a non-empty list')
    if l.stamp < interp.barrier: raise Unsupported('append loop on an outer list')
    l.view = view


def sym_comp(interp, gens, i, seq, sub, elt, out):
    """[elt for target in seq if ...] over a symbolic sequence: a View."""
    if i != len(gens) - 1: raise Unsupported('nested comprehension over a symbolic sequence')
    g = gens[i]
    ex = interp.ex

    def run(j):
        interp.assign(g.target, seq.val(j), sub)
        for c in g.ifs:
            if not interp.truth(interp.ev(c, sub)): return 'skip'
        elt()
        return 'fall'
    if len(out) or i: raise Unsupported('comprehension mixes concrete and symbolic')
    nm = ex._name('ix')
    j = z3.Int(nm)

    def one():
        with Protected(interp):
            interp.models.use_index(interp, seq, j)
            r = run(j)
            if interp.effects: raise Unsupported('comprehension with side effects')
        return r
    bad = []

    def one_or_exc():
        try:
            return one()
        except PyExc as e:
            return ('exc', e.value.cls)
    paths = ex.once(('comp', nm), lambda: ex.explore(one_or_exc, base=ex.pc + [in_range(seq, j)],
                                                     index_vars=ex.frames[-1].index_vars + (j,), prefix=nm + '.'))
    base = len(ex.pc) + 1
    keep = [since(pc, base) for pc, r in paths if r == 'fall']
    skip = [since(pc, base) for pc, r in paths if r == 'skip']
    excs = [(since(pc, base), r[1]) for pc, r in paths if isinstance(r, tuple)]
    K = z3.Or(*keep) if keep else z3.BoolVal(False)
    OK = z3.Or(*(keep + skip)) if (keep or skip) else z3.BoolVal(False)
    if excs:
        c = ex.choose(len(excs) + 1, 'compexc')
        if c < len(excs):
            ex.assume(in_range(seq, j))
            ex.assume(excs[c][0])
            raise interp.exc(excs[c][1])
        ex.add_universal(seq.src, lambda t: z3.Implies(in_range(seq, t), subst(OK, j, t)))
    cond = lambda t: z3.And(in_range(seq, t), subst(K, j, t))
    svars = dict(sub.vars)

    def val(t):
        cur = dict(sub.vars)
        sub.vars.clear()
        sub.vars.update(svars)
        ex.assume(cond(t))
        try:
            interp.assign(g.target, seq.val(t), sub)
            return capture(interp, elt, out)
        finally:
            sub.vars.clear()
            sub.vars.update(cur)
    return View(seq.src, seq.n, val, cond if skip or seq.cond is not None else None,
                ghost=dict(base=seq))


def capture(interp, elt, out):
    return elt()


def sym_quant(interp, which, g, seq, sub):
    gen = g.generators[0]
    ex = interp.ex
    nm = ex._name('ix')
    j = z3.Int(nm)

    def one():
        with Protected(interp):
            interp.models.use_index(interp, seq, j)
            interp.assign(gen.target, seq.val(j), sub)
            for c in gen.ifs:
                if not interp.truth(interp.ev(c, sub)): return 'n/a'
            r = interp.truth(interp.ev(g.elt, sub))
            if interp.effects: raise Unsupported('side effects in a generator')
            return 'yes' if r else 'no'

    def one_or_exc():
        try:
            return one()
        except PyExc as e:
            return ('exc', e.value.cls)
    paths = ex.once(('quant', nm), lambda: ex.explore(one_or_exc, base=ex.pc + [in_range(seq, j)],
                                                      index_vars=ex.frames[-1].index_vars + (j,), prefix=nm + '.'))
    base = len(ex.pc) + 1
    hit = 'yes' if which == 'any' else 'no'
    H = [since(pc, base) for pc, r in paths if r == hit]
    HF = z3.Or(*H) if H else z3.BoolVal(False)
    excs = [(since(pc, base), r[1]) for pc, r in paths if isinstance(r, tuple)]
    if excs:
        c = ex.choose(len(excs) + 1, 'quantexc')
        if c < len(excs):
            ex.assume(in_range(seq, j))
            ex.assume(excs[c][0])
            interp.models.use_index(interp, seq, j)
            raise interp.exc(excs[c][1])
    if ex.choose(2, 'quant') == 0:
        ex.assume(in_range(seq, j))
        ex.assume(HF)
        interp.models.use_index(interp, seq, j)
        return which == 'any'
    E = [since(pc, base, False) for pc, r in paths if r == hit or isinstance(r, tuple)]
    E = z3.Or(*E) if E else z3.BoolVal(False)
    ex.add_universal(seq.src, lambda t: z3.Implies(in_range(seq, t), z3.Not(subst(E, j, t))))
    ex.assume(seq.n >= 0)
    return which == 'all'


def sym_while(interp, st, env):
    from . import invariants
    r = invariants.run_loop(interp, st, env)
    if r is not None: return r[0]
    raise Unsupported('no invariant for the while loop at line %d' % st.lineno)
