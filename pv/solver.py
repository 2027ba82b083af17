"""Deciding obligations: z3, then cvc5, with statistics."""
import os
import time
import z3
from . import poly

STATS = dict(z3=0, z3_s=0.0, cvc5=0, cvc5_s=0.0, syntactic=0, poly=0, feas=0, feas_s=0.0, unknown=0)
FEAS_MS = int(os.environ.get('PV_FEAS_MS', '250'))
PROVE_MS = int(os.environ.get('PV_PROVE_MS', '8000'))


def new_solver(ms):
    s = z3.Solver()
    s.set('timeout', ms)
    return s


def check(s):
    """check(), where giving up is an answer (running out of memory is not)."""
    try: return s.check()
    except z3.Z3Exception as e:
        if 'memory' in str(e): raise
        return z3.unknown


def feasible(solver, z):
    t = time.time()
    solver.set('timeout', FEAS_MS)
    solver.push()
    solver.add(z)
    r = check(solver)
    solver.pop()
    STATS['feas'] += 1
    STATS['feas_s'] += time.time() - t
    return r != z3.unsat


class Result(object):
    def __init__(self, status, backend, model=None, reason='', secs=0.0):
        self.status, self.backend, self.model, self.reason, self.secs = status, backend, model, reason, secs

    def __repr__(self): return 'Result(%s,%s,%s)' % (self.status, self.backend, self.reason)


def _cvc5(smt2, ms):
    import cvc5
    try:
        slv = cvc5.Solver()
        slv.setOption('tlimit-per', str(ms))
        slv.setOption('strings-exp', 'true')
        ip = cvc5.InputParser(slv)
        ip.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt2, 'q')
        sm = ip.getSymbolManager()
        res = None
        while True:
            cmd = ip.nextCommand()
            if cmd.isNull(): break
            out = cmd.invoke(slv, sm)
            if out and out.strip() in ('sat', 'unsat', 'unknown'): res = out.strip()
        return res or 'unknown'
    except Exception as e:
        return 'error: %s' % str(e)[:200]


def untrue(m, cs):
    """A conjunct that the model makes false, or None."""
    for c in cs:
        try: v = m.eval(c, model_completion=True)
        except z3.Z3Exception: return c
        if z3.is_false(z3.simplify(v)): return c
    return None


def prove(pc, goal, ms=None, facts=()):
    """Is goal valid under pc?"""
    ms = ms or PROVE_MS
    t0 = time.time()
    if goal is True: goal = z3.BoolVal(True)
    if goal is False: goal = z3.BoolVal(False)
    g = z3.simplify(goal)
    if z3.is_true(g):
        STATS['syntactic'] += 1
        return Result('proved', 'syntactic')
    for c in pc:
        if c.eq(goal) or c.eq(g):
            STATS['syntactic'] += 1
            return Result('proved', 'syntactic')
    if poly.try_prove(pc, goal):
        STATS['poly'] += 1
        return Result('proved', 'poly', secs=time.time() - t0)
    s = new_solver(ms)
    for c in pc: s.add(c)
    for c in facts: s.add(c)
    s.add(z3.Not(goal))
    r = check(s)
    dt = time.time() - t0
    STATS['z3'] += 1
    STATS['z3_s'] += dt
    if r == z3.unsat: return Result('proved', 'z3', secs=dt)
    if r == z3.sat:
        m = s.model()
        bad = untrue(m, list(pc) + list(facts) + [z3.Not(goal)])
        if bad is None: return Result('refuted', 'z3', m, secs=dt)
        STATS['unknown'] += 1
        return Result('unknown', 'z3', m, 'the model of z3 does not satisfy %s' % str(bad)[:100], secs=dt)
    t1 = time.time()
    out = _cvc5('(set-logic ALL)\n' + s.to_smt2(), ms)
    dt = time.time() - t1
    STATS['cvc5'] += 1
    STATS['cvc5_s'] += dt
    if out == "unsat": return Result('proved', 'cvc5', secs=time.time() - t0)
    if out == 'sat': return Result('refuted', 'cvc5', None, 'cvc5 says sat', secs=time.time() - t0)
    STATS['unknown'] += 1
    return Result('unknown', 'z3+cvc5', None, 'z3: %s; cvc5: %s' % (s.reason_unknown(), out), secs=time.time() - t0)
