"""Integer polynomial identities, exactly and modulo n.

Terms are z3 Int terms; everything that is not +, -, *, unary minus or a
numeral is an atom.  A polynomial is a dict {monomial: coefficient}, a
monomial a sorted tuple of atom keys with repetition.
"""
import z3

LIMIT = 60000


class TooBig(Exception):
    pass


class Ctx(object):
    def __init__(self, modulus=None, subst=None):
        self.atoms = {}
        self.modulus = modulus      # z3 term: x % modulus is congruent to x
        self.cache = {}
        self.subst = subst or {}    # id -> z3 term  (definitional rewriting)

    def norm(self, t):
        k = t.get_id()
        r = self.cache.get(k)
        if r is None:
            r = self.cache[k] = self._norm(t)
        return r

    def _norm(self, t):
        if z3.is_int_value(t):
            v = t.as_long()
            return {(): v} if v else {}
        k = t.decl().kind() if z3.is_app(t) else None
        if k == z3.Z3_OP_ADD:
            out = {}
            for c in t.children(): add_into(out, self.norm(c), 1)
            return out
        if k == z3.Z3_OP_SUB:
            ch = t.children()
            out = dict(self.norm(ch[0]))
            for c in ch[1:]: add_into(out, self.norm(c), -1)
            return out
        if k == z3.Z3_OP_UMINUS:
            return {m: -c for m, c in self.norm(t.children()[0]).items()}
        if k == z3.Z3_OP_MUL or k == z3.Z3_OP_UNINTERPRETED and t.decl().name() == 'PROD':
            out = {(): 1}
            for c in t.children(): out = mul(out, self.norm(c))
            return out
        if k == z3.Z3_OP_POWER:
            b, e = t.children()
            if z3.is_int_value(e) and 0 <= e.as_long() <= 8:
                out, bb = {(): 1}, self.norm(b)
                for _ in range(e.as_long()): out = mul(out, bb)
                return out
        if k == z3.Z3_OP_MOD:
            a, b = t.children()
            if self.modulus is not None and b.eq(self.modulus):
                return self.norm(a)
            # a mod b = a - b*(a div b)
            out = dict(self.norm(a))
            add_into(out, mul(self.norm(b), self.norm(a / b)), -1)
            return out
        if k == z3.Z3_OP_IDIV:
            a, b = t.children()
            key = ('div', freeze(self.norm(a)), freeze(self.norm(b)))
            return {(self.key(key),): 1}
        if k == z3.Z3_OP_TO_INT or k == z3.Z3_OP_TO_REAL:
            return self.norm(t.children()[0])
        return {(self.key(('t', t.get_id()), t),): 1}

    def key(self, k, t=None):
        a = self.atoms.get(k)
        if a is None:
            a = self.atoms[k] = (len(self.atoms), t)
        return a[0]


def freeze(p): return tuple(sorted(p.items()))


def add_into(out, p, f):
    for m, c in p.items():
        v = out.get(m, 0) + f * c
        if v: out[m] = v
        else: out.pop(m, None)


def mul(p, q):
    out = {}
    if len(p) * len(q) > LIMIT: raise TooBig()
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = tuple(sorted(m1 + m2))
            v = out.get(m, 0) + c1 * c2
            if v: out[m] = v
            else: out.pop(m, None)
    return out


def is_zero(t):
    try:
        return not Ctx().norm(t)
    except TooBig:
        return False


def zero_mod(t, n, rels=()):
    """Is t = 0 modulo n, given relations (z3 terms that are 0 modulo n)?

    Relations are used as rewrite rules of the shape  atom*atom*... -> rest
    when they have a monomial of coefficient +-1 that contains an atom no other
    monomial of the relation has.
    """
    try:
        cx = Ctx(modulus=n)
        nk = n.get_id()
        p = dict(cx.norm(t))
        natom = cx.norm(n)
        nmons = list(natom.keys())
        nm = nmons[0] if len(nmons) == 1 and len(nmons[0]) == 1 else None

        def drop_n(p):
            if nm is None:
                if len(nmons) == 1 and nmons[0] == ():
                    k = natom[()]
                    return {m: c % k for m, c in p.items() if c % k}
                return p
            return {m: c for m, c in p.items() if nm[0] not in m}
        rules = []
        for r in rels:
            q = dict(cx.norm(r))
            if nm is not None: q = drop_n(q)
            if not q: continue
            # choose leading monomial: coefficient +-1, largest degree
            cands = [m for m, c in q.items() if abs(c) == 1 and m]
            if not cands: continue
            lead = max(cands, key=lambda m: (len(m), m))
            c = q.pop(lead)
            rules.append((lead, {m: -v * c for m, v in q.items()}))
        p = drop_n(p)
        for _ in range(400):
            changed = False
            for lead, rest in rules:
                for m in list(p.keys()):
                    q = divide(m, lead)
                    if q is not None and m in p:
                        c = p.pop(m)
                        for m2, c2 in rest.items():
                            mm = tuple(sorted(q + m2))
                            v = p.get(mm, 0) + c * c2
                            if v: p[mm] = v
                            else: p.pop(mm, None)
                        changed = True
                        if len(p) > LIMIT: return False
            p = drop_n(p)
            if not p: return True
            if not changed: break
        return not p
    except TooBig:
        return False


def zero_by(t, eqs):
    """Is t = 0, given terms that are 0?"""
    try:
        cx = Ctx()
        p = dict(cx.norm(t))
        rules = []
        for e in eqs:
            q = dict(cx.norm(e))
            cands = [m for m, c in q.items() if abs(c) == 1 and m]
            if not cands: continue
            lead = max(cands, key=lambda m: (len(m), m))
            c = q.pop(lead)
            rules.append((lead, {m: -v * c for m, v in q.items()}))
        for _ in range(200):
            if not p: return True
            for lead, rest in rules:
                hit = [(m, divide(m, lead)) for m in p]
                hit = [(m, q) for m, q in hit if q is not None]
                if hit: break
            else: return False
            for m, q in hit:
                c = p.pop(m)
                for m2, c2 in rest.items():
                    mm = tuple(sorted(q + m2))
                    v = p.get(mm, 0) + c * c2
                    if v: p[mm] = v
                    else: p.pop(mm, None)
                if len(p) > LIMIT: return False
        return not p
    except TooBig:
        return False


def divide(m, lead):
    m = list(m)
    for a in lead:
        if a in m: m.remove(a)
        else: return None
    return tuple(m)


def try_prove(pc, goal):
    """Equalities between integer polynomials, syntactically."""
    if z3.is_eq(goal):
        a, b = goal.children()
        if a.sort() == z3.IntSort():
            return is_zero(a - b)
    if z3.is_and(goal):
        return all(try_prove(pc, c) for c in goal.children())
    return False
