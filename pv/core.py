"""Path exploration and the state shared by interpreter and models."""
import time
import z3
from . import solver, lens, ranges
from .values import *


class Unsupported(Exception):
    """The code uses something the verifier has no meaning for (no verdict)."""


class PathDead(Exception):
    pass


class OutOfBudget(Unsupported):
    pass


class PyExc(Exception):
    """An exception raised by the interpreted program."""

    def __init__(self, value):
        Exception.__init__(self)
        self.value = value

    def __str__(self):
        return 'PyExc(%s%r)' % (self.value.cls.__name__, self.value.attrs.get('args', ()))


class Decision(object):
    __slots__ = ('choice', 'alt', 'z')

    def __init__(self, choice, alt, z): self.choice, self.alt, self.z = choice, alt, z


class Frame(object):
    outer = 0

    def __init__(self, prefix, base, index_vars):
        self.prefix, self.base, self.index_vars = prefix, list(base), tuple(index_vars)
        self.trail = []
        self.pos = 0


class Universal(object):
    """forall i in [0, n): f(i), over one source sequence."""

    def __init__(self, src, f): self.src, self.f = src, f


class Lazy(object):
    """The solvers of a path, filled when a question is really asked."""

    def __init__(self, ex):
        self.ex, self.s, self.n = ex, None, 0

    def full(self):
        if self.s is None: self.s = solver.new_solver(solver.FEAS_MS)
        for c in self.ex.pc[self.n:]: self.s.add(c)
        self.n = len(self.ex.pc)
        return self.s


class PathPC(list):
    """A path condition; `given` are the places of instances of universals that
    hold outside the exploration: true anyway, no part of the condition."""

    def __init__(self, pc, given, facts):
        list.__init__(self, pc)
        self.given, self.facts = frozenset(given), frozenset(facts)


def since(pc, base, facts=True):
    """What the path condition says after its first base conjuncts, with or
    without what is true of all values (the two are equivalent; without is
    what to negate)."""
    given = getattr(pc, 'given', frozenset())
    if not facts: given = given | getattr(pc, 'facts', frozenset())
    r = [c for k, c in enumerate(pc) if k >= base and k not in given]
    return z3.And(*r) if len(r) > 1 else r[0] if r else z3.BoolVal(True)


def equations(c):
    if z3.is_and(c): return [q for x in c.children() for q in equations(x)]
    if z3.is_eq(c):
        a, b = c.arg(0), c.arg(1)
        if z3.is_string_value(b) and not z3.is_string_value(a): return [(a.get_id(), b)]
        if z3.is_string_value(a) and not z3.is_string_value(b): return [(b.get_id(), a)]
    return []


class Explorer(object):
    def __init__(self, deadline=None, max_paths=4000):
        self.frames = []
        self.deadline = deadline or time.time() + 600
        self.max_paths = max_paths
        self.pc = []
        self.solver = None
        self.state = {}         # per path scratch (lifted objects, traces, ...)
        self.npaths = 0
        self.node = 0           # interned path condition (memo of feasibility answers)
        self.chain = {}
        self.memo = {}
        self.nested = {}        # results of loop summaries, by position
        self.alive = []
        self.nodes = []         # node after each element of the path condition
        self.lens = lens.LenSolver()
        self.eqs = {}
        self.known = {}         # conditions that hold or fail by themselves

    # -- running ---------------------------------------------------------
    def explore(self, fn, base=(), index_vars=(), prefix=''):
        """All paths of fn: list of (pc, outcome). Nested calls are allowed."""
        saved = (self.pc, self.solver, self.pos if self.frames else 0, self.counter if self.frames else 0,
                 dict(self.state), self.universals if self.frames else [], self.index_terms if self.frames else [],
                 self.node, self.nodes, (self.given, self.facts) if self.frames else (set(), set()))
        nested = bool(self.frames)
        if nested: self.frames[-1].pos = self.pos
        fr = Frame(prefix, list(base), index_vars)
        self.frames.append(fr)
        results = []
        n = 0
        try:
            while True:
                n += 1
                self.npaths += 1
                if n > self.max_paths: raise OutOfBudget('more than %d paths' % self.max_paths)
                if time.time() > self.deadline: raise OutOfBudget('time budget exhausted')
                self.pos = 0
                self.counter = 0
                self.pc = list(fr.base)
                self.solver = Lazy(self)
                self.node, self.nodes = 0, []
                for c in self.pc: self._step(c)
                self.state = dict(saved[4]) if nested else {}
                self.given, self.facts = set(), set()
                self.universals = list(saved[5])
                fr.outer = len(self.universals) if nested else 0
                self.index_terms = list(saved[6])
                out = None
                try:
                    out = fn()
                except PathDead:
                    out = None
                if out is not None:
                    results.append((PathPC(self.pc, self.given, self.facts), out))
                while fr.trail and not fr.trail[-1].alt: fr.trail.pop()
                if not fr.trail: break
                d = fr.trail[-1]
                d.choice, d.alt = not d.choice, False
        finally:
            self.frames.pop()
            self.pc, self.solver, self.pos, self.counter, self.state, self.universals, self.index_terms, self.node, self.nodes, (self.given, self.facts) = saved
        return results

    def here(self):
        """The position on this path: execution is deterministic, so equal
        positions are equal states (paths are re-executed from the start)."""
        last = len(self.frames) - 1
        return tuple((fr.prefix, tuple(d.choice for d in fr.trail[:self.pos if k == last else fr.pos]))
                     for k, fr in enumerate(self.frames)) + (self.counter,)

    def once(self, what, fn):
        """fn() at this position; remembered across re-executions."""
        k = (what,) + self.here()
        r = self.nested.get(k)
        if r is None:
            try: r = ('ok', fn())
            except OutOfBudget: raise
            except (Unsupported, PathDead) as e: r = ('exc', e)
            self.nested[k] = r
        if r[0] == 'exc': raise r[1]
        return r[1]

    # -- decisions --------------------------------------------------------
    def branch(self, z):
        if z is True or z is False: return z
        if isinstance(z, SBool): z = z.z
        q = self.always(z)
        if q is not None: return q
        fr = self.frames[-1]
        if self.pos < len(fr.trail):
            d = fr.trail[self.pos]
            self.pos += 1
            self._add(z if d.choice else z3.Not(z))
            return d.choice
        if time.time() > self.deadline: raise OutOfBudget('time budget exhausted')
        t = self.feasible(z)
        f = self.feasible(z3.Not(z)) if t else True
        if not t and not f: raise PathDead()
        q = None
        if t and f and 'residues' in self.state:
            from . import lemmas
            q = lemmas.decide(self, z)
        if q is not None: d = Decision(q, False, z)
        elif t and f:
            d = Decision(True, True, z)
        else:
            d = Decision(t, False, z)
        fr.trail.append(d)
        self.pos += 1
        self._add(z if d.choice else z3.Not(z))
        return d.choice

    def always(self, z):
        """True, False, or None where it depends."""
        r = self.known.get(z.get_id())
        if r is None:
            zs = z3.simplify(z)
            if z3.is_true(zs): q = True
            elif z3.is_false(zs): q = False
            else:
                q = ranges.decide(z)
                if q is None: q = ranges.decide(zs)
            r = self.known[z.get_id()] = (z, zs, q)
        return r[2]

    def choose(self, n, label='choice'):
        """Nondeterministic choice 0..n-1 (all explored)."""
        for i in range(n - 1):
            v = z3.Bool('%s!%s' % (label, self._name('ch')))
            fr = self.frames[-1]
            if self.pos < len(fr.trail):
                d = fr.trail[self.pos]
            else:
                d = Decision(True, True, v)
                fr.trail.append(d)
            self.pos += 1
            if d.choice: return i
        return n - 1

    def _step(self, z):
        k = (self.node, z.get_id())
        n = self.chain.get(k)
        if n is None:
            n = self.chain[k] = len(self.chain) + 1
            self.alive.append(z)
        self.node = n
        self.nodes.append(n)

    def _add(self, z):
        self.pc.append(z)
        self._step(z)

    def feasible(self, z, whole=False):
        """May z hold here?  Infeasible only by proof: the abstraction first,
        then the string solver on the part of the path condition that speaks
        about the same texts, then (whole) on all of it."""
        r = self.always(z)
        if r is not None: return r
        k = (self.node, z.get_id(), whole)
        r = self.memo.get(k)
        if r is None:
            q, deeper = self.lens.check(self.pc, self.nodes, z)
            if q == z3.unsat: r = False
            elif q == z3.sat and not deeper: r = True
            else:
                part = self.lens.part(self.pc, z)
                pk = frozenset(c.get_id() for c in part) | {-1 - z.get_id()}
                r = self.memo.get(pk)
                if r is None:
                    s = solver.new_solver(solver.FEAS_MS)
                    for c in part: s.add(c)
                    r = self.memo[pk] = solver.feasible(s, z)
                    self.alive.extend(part)
                if r and whole: r = solver.feasible(self.solver.full(), z)
            self.memo[k] = r
            self.alive.append(z)
        return r

    def assume(self, z):
        if z is True: return
        if isinstance(z, SBool): z = z.z
        if z is False: raise PathDead()
        q = self.always(z)
        if q is True and z3.is_true(self.known[z.get_id()][1]): return
        if q is False: raise PathDead()
        self._add(z)

    def literal(self, t):
        """The literal that the path condition equates t with, or None."""
        i = t.get_id()
        for c in self.pc:
            k = c.get_id()
            e = self.eqs.get(k)
            if e is None: e = self.eqs[k] = (c, equations(c))
            for a, b in e[1]:
                if a == i: return b
        return None

    def fact(self, z):
        """Something true of every value: no part of what a nested exploration found."""
        n = len(self.pc)
        self.assume(z)
        self.facts.update(range(n, len(self.pc)))

    def must(self, z, ms=2000):
        """Does z hold on this path (by proof)?"""
        if z is True or z is False: return z
        if isinstance(z, SBool): z = z.z
        q = self.always(z)
        if q is not None: return q
        a, b = z.get_id(), self.known[z.get_id()][1].get_id()
        for c in self.pc:
            i = c.get_id()
            if i == a or i == b: return True
        return not self.feasible(z3.Not(z), True)

    # -- names --------------------------------------------------------------
    def _name(self, name):
        self.counter += 1
        return '%s!%s%d' % (name, self.frames[-1].prefix if self.frames else '', self.counter)

    def fresh(self, name, sort):
        iv = self.frames[-1].index_vars if self.frames else ()
        nm = self._name(name)
        if iv:
            f = z3.Function(nm, *([IS] * len(iv) + [sort]))
            return f(*iv)
        return z3.Const(nm, sort)

    # -- universally quantified facts, instantiated at index terms ---------
    def add_universal(self, src, f):
        u = Universal(src, f)
        self.universals.append(u)
        for s, t in list(self.index_terms):
            if s == src: self.assume(f(t))

    def add_index(self, src, t):
        for s, o in self.index_terms:
            if s == src and o.eq(t): return
        self.index_terms.append((src, t))
        outer = self.frames[-1].outer
        for k, u in enumerate(list(self.universals)):
            if u.src == src:
                n = len(self.pc)
                self.assume(u.f(t))
                if k < outer: self.given.update(range(n, len(self.pc)))
