"""Modular arithmetic: facts that z3 does not find by itself.

The path keeps (in ex.state) the inverse pairs it has met: (a, i, n) with
a*i = 1 modulo the prime n.  t = u (mod n) is proved by polynomial arithmetic
modulo n with these relations, where needed after multiplication of both sides
by an invertible a or i.
"""
import z3
from . import poly
from .core import *
from .values import *


def add_inverse(ex, a, i, n):
    l = list(ex.state.get('inverses', ()))
    l.append((a, i, n))
    ex.state['inverses'] = l


def path(ex):
    for c in ex.pc:
        while z3.is_not(c) and z3.is_not(c.arg(0)): c = c.arg(0).arg(0)
        yield c


def congruent(ex, a, b, n):
    """Is a = b modulo the prime n, by the inverse pairs of this path?"""
    rels, units = [], []
    defs = definitions(ex, n)

    def expand(t):
        for _ in defs: t = z3.substitute(t, *defs)
        return t
    a, b = expand(a), expand(b)
    for x, i, m in ex.state.get('inverses', ()):
        if m.eq(n):
            x, i = expand(x), expand(i)
            rels.append(x * i - 1)
            units += [x, i]
    for c in path(ex):
        if z3.is_eq(c) and c.arg(0).sort() == IS and (nonlinear(c.arg(0)) or nonlinear(c.arg(1))): rels.append(expand(c.arg(0)) - expand(c.arg(1)))
    d = a - b
    if poly.zero_mod(d, n, rels): return True
    for u in units:
        if poly.zero_mod(d * u, n, rels): return True
    for k, u in enumerate(units):
        for v in units[k:]:
            if poly.zero_mod(d * u * v, n, rels): return True
    return False


def nonlinear(t):
    """Is it a sum with a product of unknowns?"""
    if not z3.is_app(t): return False
    k = t.decl().kind()
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS): return any(map(nonlinear, t.children()))
    if k == z3.Z3_OP_MUL: return sum(not z3.is_int_value(c) for c in t.children()) > 1
    return k == z3.Z3_OP_UNINTERPRETED and t.decl().name() == 'PROD'


def halves(ex, a, b):
    """a = b, where numbers are halved whose parity the path knows, and powers
    of two of sums occur; by the nonlinear equations of the path."""
    eqs = [c.arg(0) - c.arg(1) for c in path(ex) if z3.is_eq(c) and c.arg(0).sort() == IS and (nonlinear(c.arg(0)) or nonlinear(c.arg(1)))]
    goal = a - b
    for t in list(subterms(goal)):
        if t.decl().kind() == z3.Z3_OP_IDIV and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() == 2:
            x = t.arg(0)
            r = 0 if ex.must(x % 2 == 0) else 1 if ex.must(x % 2 == 1) else None
            if r is None: return False
            v = [c for c in [x] + list(x.children()) if z3.is_const(c) and not z3.is_int_value(c)]
            if not v: return False
            q = z3.FreshConst(IS, 'half')
            goal = z3.substitute(goal, (t, q))
            d = 2 * q + r - x + v[0]            # x = 2q + r, solved for the variable
            if poly_has(d, v[0]): return False
            d = z3.simplify(d)
            goal = z3.substitute(goal, (v[0], d))
            eqs = [z3.substitute(e, (v[0], d)) for e in eqs]
    out = []
    for e in [goal] + eqs:
        sub = []
        for t in subterms(e):
            if t.decl().name() == 'POW2' and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.arg(0).decl().kind() == z3.Z3_OP_ADD:
                cs = [c for c in t.arg(0).children() if z3.is_int_value(c) and c.as_long() > 0]
                rest = [c for c in t.arg(0).children() if not z3.is_int_value(c)]
                if len(cs) == 1 and rest:
                    u = z3.Sum(rest) if len(rest) > 1 else rest[0]
                    if ex.must(u >= 0): sub.append((t, (1 << cs[0].as_long()) * t.decl()(u)))
        out.append(z3.substitute(e, *sub) if sub else e)
    return poly.zero_by(out[0], out[1:])


def leaves(t):
    if z3.is_app(t) and t.num_args(): return [x for c in t.children() for x in leaves(c)]
    return [t]


def subterms(t):
    seen, todo = {}, [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen or not z3.is_app(x): continue
        seen[x.get_id()] = x
        todo += x.children()
    return seen.values()


def poly_has(t, v):
    try:
        cx = poly.Ctx()
        p = cx.norm(t)
        k = list(cx.norm(v))[0][0]
        return any(k in m for m in p)
    except poly.TooBig:
        return True


def definitions(ex, n, variables=False):
    """Equations  variable == term % n  of the path, as substitutions (and variable == variable)."""
    out, done = [], set()
    for c in path(ex):
        if not (z3.is_eq(c) and c.arg(0).sort() == IS): continue
        if variables:
            d = c.arg(0) - c.arg(1)
            if any(x.num_args() and x.decl().kind() not in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL) for x in subterms(d)): d = None
        if variables and d is not None:
            for y in out: d = z3.substitute(d, y)
            try: p = poly.Ctx().norm(d)
            except poly.TooBig: continue
            if all(len(m) <= 1 for m in p):
                xs = [x for x in subterms(d) if z3.is_const(x) and not z3.is_int_value(x) and x.get_id() not in done]
                for x in xs:
                    cx = poly.Ctx()
                    q = cx.norm(d)
                    k = q.get(list(cx.norm(x))[0], 0)
                    if abs(k) == 1 and sum(x.eq(y) for y in leaves(d)) == 1:
                        done.add(x.get_id())
                        out.append((x, z3.simplify(x - k * d)))
                        break
                if xs: continue
        for x, t in (c.children(), c.children()[::-1]):
            if z3.is_const(x) and not z3.is_int_value(x) and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MOD and t.arg(1).eq(n) and x.get_id() not in done:
                done.add(x.get_id())
                out.append((x, t))
                break
    return out


# ------------------------------------------------------------ residues of a prime field
def residue(ex, z):
    """(t, n) where z says t = 0 modulo the numeral n."""
    if not z3.is_eq(z) or z.arg(0).sort() != IS: return None
    a, b = z.children()
    for x, c in ((a, b), (b, a)):
        if not (z3.is_app(x) and x.decl().kind() == z3.Z3_OP_MOD and z3.is_int_value(x.arg(1))): continue
        n = x.arg(1)
        if z3.is_int_value(c): return (x.arg(0) - c, n) if 0 <= c.as_long() < n.as_long() else None
        if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_MOD and c.arg(1).eq(n): return x.arg(0) - c.arg(0), n
        if ex.must(z3.And(c >= 0, c < n)): return x.arg(0) - c, n
    return None


def decide(ex, z):
    """Truth of  t = 0 (mod n)  or its negation, n prime: by polynomial
    arithmetic, and by a factorisation into units; None where neither helps."""
    neg = False
    while z3.is_not(z): z, neg = z.arg(0), not neg
    tn = residue(ex, z)
    if tn is None: return None
    t, n = tn
    if vanishes(ex, t, n): return not neg
    if is_unit(ex, t, n): return neg
    return None


def cleared(ex, t, n):
    """(polynomial context, polynomial) of t times units, without inverses, for t modulo the prime n."""
    defs = definitions(ex, n, True)

    def expand(x):
        for _ in defs: x = z3.substitute(x, *defs)
        return x
    cx = poly.Ctx(modulus=n)
    k = n.as_long()
    p = {m: c % k for m, c in cx.norm(expand(t)).items() if c % k}
    inv = []
    for x, i, m in ex.state.get('inverses', ()):
        if m.eq(n):
            a = list(cx.norm(expand(i)))
            if len(a) == 1 and len(a[0]) == 1: inv.append((a[0][0], cx.norm(expand(x))))
    for _ in range(3):
        for a, x in reversed(inv):
            d = max([m.count(a) for m in p] or [0])
            if not d: continue
            powers = [{(): 1}]
            for _ in range(d): powers.append({m: c % k for m, c in poly.mul(powers[-1], x).items() if c % k})
            out = {}
            for m, c in p.items():
                j = m.count(a)
                rest = tuple(b for b in m if b != a)
                poly.add_into(out, poly.mul({rest: c}, powers[d - j]), 1)
            p = {m: c % k for m, c in out.items() if c % k}
        if not any(a in m for a, _ in inv for m in p): break
    return cx, p


def vanishes(ex, t, n):
    try:
        return not cleared(ex, t, n)[1]
    except poly.TooBig:
        return False


_FACTORS = {}


def is_unit(ex, t, n):
    """Is t the product of terms that are known not to be 0 modulo n?"""
    try:
        cx, p = cleared(ex, t, n)
    except poly.TooBig:
        return False
    if not p or len(p) > 300: return False
    import sympy
    names = {v[0]: v[1] for v in cx.atoms.values()}
    if any(names.get(a) is None for m in p for a in m): return False
    k = n.as_long()
    key = (frozenset(p.items()), k)
    if key not in _FACTORS:
        syms = {a: sympy.Symbol('a%d' % a) for m in p for a in m}
        # coefficients near p stand for negative numbers
        e = sympy.Add(*[sympy.Mul(c if c <= k // 2 else c - k, *[syms[a] for a in m]) for m, c in p.items()])
        _FACTORS[key] = sympy.factor_list(e)
    c, fs = _FACTORS[key]
    if int(c) % k == 0: return False
    for f, _ in fs:
        g = to_z3(f, names)
        if ex.must(g % n != 0): continue
        if known_nonzero(ex, g, n): continue
        return False
    return True


def known_nonzero(ex, g, n):
    """Does a condition of the path say so (up to the sign)?"""
    for c in path(ex):
        if not z3.is_not(c): continue
        r = residue(ex, c.arg(0))
        if r is not None and r[1].eq(n) and (vanishes(ex, g - r[0], n) or vanishes(ex, g + r[0], n)): return True
    return False


def to_z3(f, names):
    import sympy
    p = sympy.Poly(f, *sorted(f.free_symbols, key=str)) if f.free_symbols else None
    if p is None: return z3.IntVal(int(f))
    out = []
    for mon, c in p.terms():
        t = z3.IntVal(int(c))
        for s, e in zip(p.gens, mon):
            for _ in range(e): t = t * names[int(s.name[1:])]
        out.append(t)
    return z3.simplify(z3.Sum(out)) if len(out) > 1 else z3.simplify(out[0])


def try_prove(interp, pc, g):
    """Goals a % n == b % n, and t % n == 0."""
    if 'residues' in interp.ex.state:
        if decide(interp.ex, g): return True
        if z3.is_and(g): return all(try_prove(interp, pc, c) for c in g.children())
    if not z3.is_eq(g): return False
    a, b = g.children()
    if a.sort() != IS: return False
    if (nonlinear(a) or nonlinear(b)) and halves(interp.ex, a, b): return True
    n = None
    for t in (a, b):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MOD:
            if n is not None and not n.eq(t.arg(1)): return False
            n = t.arg(1)
    if n is None: return False
    for t in (a, b):
        if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MOD) and not (z3.is_int_value(t) and z3.is_int_value(n) and 0 <= t.as_long() < n.as_long()) \
                and not interp.ex.must(z3.And(t >= 0, t < n)): return False
    if 'residues' in interp.ex.state and z3.is_int_value(n) and vanishes(interp.ex, a - b, n): return True
    return congruent(interp.ex, a, b, n)
